#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the check modules that exist (keeps the two in step)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
AI = 'abstract interpretation of the source (sa/): '
CHECKS = {
 'C01': (AI + 'provenance (taint) of every random draw, plus clock/hash/set-order taint of results', 'all public callables in all modes and representations; unmodelled constructs make the analysis of that entry quiet, which the evidence lists'),
 'C02': (AI + 'linear-use typestate of seeds and generators (one generator per seeded call, never re-seeded)', 'as C01'),
 'C03': (AI + 'effect analysis of process-wide state with a restore-on-all-exits typestate', 'the table of process-wide setters in sa/lib.py is trusted to be complete for numpy, warnings, random, matplotlib, os, sys'),
 'C04': (AI + 'heap reachability: no mutable default, class attribute or module object reachable from a mutated instance attribute', 'object identity is abstracted by allocation site'),
 'C05': (AI + 'effect analysis on marked arguments through views, aliases and attributes', 'view/copy behaviour of numpy functions is the table in sa/lib.py'),
 'C06': (AI + 'typestate of the sample lists (number of records per exit, identity of the record and the returned value)', 'histories of up to two calls plus flush'),
 'C07': (AI + 'effect analysis of display methods on the recorded sample objects', 'histories: one sampling call followed by one display call, all argument combinations'),
 'C08': (AI + 'selector partitions: an opaque unknown selector value must only reach ValueError exits, each documented value must have a normal exit and reach its designated algorithm', 'the documented selector values are listed in sa/drive.py and checks/c08.py'),
 'C09': (AI + 'definite-failure detection (unbound names, missing attributes, misfit calls, bad formats) on feasible paths, plus whole-package name, attribute and call-signature lints', 'only definite failures are reported; library attributes and signatures are read from the installed libraries'),
 'C10': (AI + 'symbolic shape inference of returned samples, compared with the requested size', 'sizes are compared as polynomials over the symbolic sizes; only provable differences are reported'),
 'C11': (AI + 'enumeration of the decision tree of each sampler on small instances with symbolic kernel entries; leaves with a repeated item must be excluded by construction, not by a weight that cancels (relative error analysis by random interpretation)', 'ground sets of at most four items; a one-sided error as in C24'),
 'C12': (AI + 'enumeration of the decision tree of the chains on small instances with symbolic kernel entries and clock, and comparison of the recorded states with the transition of each move', 'ground sets of at most three or four items, chains of a few iterations, one step from every state'),
 'C13': (AI + 'enumeration of the decision tree of one move from every state with symbolic kernel entries; the extracted transition law must satisfy detailed balance (random interpretation of both sides)', 'ground sets of at most three or four items, all states; a one-sided error as in C24'),
 'C14': (AI + 'histories of calls on one abstract object: extracted law of the last call against its specification, provenance of the cached constants handed to samplers, in-place writes to arrays kept on the object', 'histories of two or three calls (plus flush); small instances for the laws, symbolic sizes for the rest'),
 'C15': (AI + 'symbolic normalisation of conversion formulas between kernels and spectra, and kind typing of sampler arguments', 'formulas are compared as rational functions of one eigenvalue'),
 'C24': ('abstract interpretation of every entry to a closed term per path, and random interpretation (Gulwani and Necula, polynomial identity testing) of the term against the documented formula', 'one-sided error: a refutation needs two random points in exact agreement with the path conditions; draws are uninterpreted variates'),
 'C16': (AI + 'enumeration of the decision tree of each rejection loop (proposals kept symbolic): no term of a returned value or of an acceptance test may contain a rejected proposal, and the branch on which the bound on the number of proposals is exhausted must raise', 'loops are cut after two proposals; the cases are listed in sa/reject.py'),
 'C25': (AI + 'enumeration of the decision tree of each rejection loop with symbolic proposals; proposal density times extracted acceptance probability must be proportional to the documented density (random interpretation of both sides)', 'cases (dimensions, number of points, kinds of parameters) listed in sa/reject.py; a one-sided error as in C24'),
 'C17': (AI + 'must-check dataflow of constructor parameters, per representation', 'the validators themselves are checked against their comparison'),
 'C18': (AI + 'partitioned parameter domains: out-of-domain abstract values must reach only raising exits', 'the documented domains are listed in checks/c18.py'),
 'C19': (AI + 'liveness of option values: each documented option must flow into the computation of each documented mode', 'liveness is a may-analysis: dead options are reported, wrong uses are not'),
 'C20': (AI + 'symbolic shape inference of the points returned by the ensembles', 'as C10'),
 'C21': ('abstract interpretation of histories of sampling, normalization and display calls to closed terms, and random interpretation of recorded parameters, samples, normalized points and plotting arguments against their definitions', 'as C24; values of beta: 0, 1, 2, 2.5, 4; histories of at most two sampling calls'),
 'C30': (AI + 'enumeration of the decision tree of each sampler on small instances with symbolic kernel entries; the extracted law of the sample, a function of the kernel, must equal the law of the DPP or k-DPP (random interpretation of both sides)', 'ground sets of at most four or five items; a one-sided error as in C24; draws are uninterpreted variates'),
 'C22': ('import analysis: import statements against the declared requirements, replay of every import order over the syntax trees, side effects of importing, and abstract interpretation of every entry in configurations without the optional packages', 'required packages are the install_requires of setup.py'),
 'C26': (AI + 'walks on given small graphs as finite Markov chains over abstract states (loop heads merged by state), decision trees of the other samplers; the extracted exact law must equal the documented one', 'graphs, sizes and bases listed in checks/c26.py'),
 'C32': (AI + 'all outcomes of the samplers and all inputs of the insertion and ordering routines on small instances; every reachable result must be well formed', 'graphs, weak orders and bounds listed in checks/c32.py'),
 'C23': (AI + 'walks as finite chains (an exit is reachable from every state), two iterations of each other while loop with the map from state to state extracted and iterated, and a lint of loop conditions and bounds', 'fixed points of the extracted maps are looked for at sampled points of the parameter space; graphs of C26; termination with probability one of the other random loops follows from their bounds only'),
}
NA = {
 'C34': 'the joint law of the eigenvalues of a random matrix is a statement about probability distributions that no enumeration of paths or dataflow argument in reach establishes (the parts that are facts about the code, the entries of the matrices and the conditionals of the recorded samples, are C10, C20, C21, C24 and C25)',
 'C31': 'floating point accuracy of closed formulas and quadrature over continuous domains is not decidable by the syntax-level and abstract-value reasoning used here',
 'C33': 'behaviour within rounding error of degenerate kernels depends on floating point values that no sound static bound in reach covers',
}
checks, na = [], []
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
for pid in props:
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
    elif os.path.exists(HERE + '/checks/%s.py' % pid.lower()):
        t, n = CHECKS[pid]
        checks.append(dict(property=pid, quick_cmd='python3 /verif/check.py %s --tier quick' % pid,
                           thorough_cmd='python3 /verif/check.py %s --tier thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=t, level='other',
                           level_note='Static over-approximation of paths with a trusted library model; reports named constructs. ' + n[0].upper() + n[1:] + '.'))
    else:
        na.append(dict(property=pid, reason='no check yet (work in progress)'))
json.dump(dict(version=1, setup_cmd='python3 -c "import ast, symtable"', checks=checks, not_applicable=na,
               notes='No hooks in /repo: everything is decided from the source. No build is needed (pure Python).'),
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
