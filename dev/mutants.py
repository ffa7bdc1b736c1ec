FD, EX, MC, BE, EO, EC, JO, RM, BP, BC, IN, BL, UT = ('finite_dpps.py', 'exact_sampling.py', 'mcmc_sampling.py', 'beta_ensembles.py', 'exotic_dpps.py', 'exotic_dpps_core.py',
    'multivariate_jacobi_ope.py', 'random_matrices.py', 'beta_ensemble_polynomial_potential.py', 'beta_ensemble_polynomial_potential_core.py', 'intermediate_sampling.py', 'bless.py', 'utils.py')
MUTANTS = [
    # C06
    ('c06-append-before-raise', 'C06', FD, [("            raise ValueError('None of the available samplers could be used based on the current DPP representation. This should never happen", "            self.list_of_samples.append([])\n            raise ValueError('None of the available samplers could be used based on the current DPP representation. This should never happen")], None),
    ('c06-double', 'C06', FD, [("            self.K_eig_vals = self.L_eig_vals / (1.0 + self.L_eig_vals)\n            return self.sample_exact(mode=self.sampling_mode,\n                                     random_state=rng)", "            self.K_eig_vals = self.L_eig_vals / (1.0 + self.L_eig_vals)\n            sampl = self.sample_exact(mode=self.sampling_mode,\n                                     random_state=rng)")], 'FiniteDPP(L'),
    ('c06-first-state', 'C06', FD, [("        return chain[-1]", "        return chain[0]")], 'sample_mcmc'),
    ('c06-flush', 'C06', BE, [("        \"\"\" Empty the :py:attr:`list_of_samples` attribute.\n        \"\"\"\n        self.list_of_samples = []", "        self.list_of_samples = [[]]")], 'Ensemble'),
    ('c06-flush2', 'C06', FD, [("        \"\"\"\n        self.list_of_samples = []\n", "        \"\"\"\n        del self.list_of_samples[:-1]\n")], 'flush'),
    ('c06-insert', 'C06', EO, [("self.list_of_samples.append(descent.tolist())", "self.list_of_samples.insert(0, descent.tolist())")], 'Descent'),
    ('c06-parallel', 'C06', EO, [("self.list_of_young_diag.append(", "self.list_of_young_diag = [] or ("), ], 'Planch'),
    ('c06-flush3', 'C06', FD, [("        \"\"\"\n        self.list_of_samples = []\n", "        \"\"\"\n        self.list_of_samples[1:] = []\n")], 'flush'),
    ('c06-flush4-ok', 'C06', FD, [("        \"\"\"\n        self.list_of_samples = []\n", "        \"\"\"\n        self.list_of_samples[:] = []\n")], 'flush'),
    ('c06-flush5-ok', 'C06', FD, [("        \"\"\"\n        self.list_of_samples = []\n", "        \"\"\"\n        del self.list_of_samples[:]\n")], 'flush'),
    ('c06-flush6-ok', 'C06', FD, [("        \"\"\"\n        self.list_of_samples = []\n", "        \"\"\"\n        self.list_of_samples.clear()\n")], 'flush'),
    ('c06-early-record', 'C06', RM, [], None),
    # C01
    ('c01-np-random', 'C01', EX, [("rng.choice(", "np.random.choice(")], None),
    ('c01-drop-rs', 'C01', FD, [("                                         random_state=rng)\n\n        # elif self.L_dual", "                                         )\n\n        # elif self.L_dual")], None),
    ('c01-init-mcmc', 'C01', MC, [("        S0, det_S0 = initialize_AED_sampler(kernel, random_state=rng)" if False else "initialize_AED_sampler(kernel, random_state=rng)", "initialize_AED_sampler(kernel)")], None),
    ('c01-set-order', 'C01', MC, [], None),
    ('c02-reseed', 'C02', FD, [("            V = k_dpp_eig_vecs_selector(self.L_eig_vals, self.eig_vecs,\n                                        size=size,\n                                        E_poly=self.E_poly,\n                                        random_state=rng)", "            V = k_dpp_eig_vecs_selector(self.L_eig_vals, self.eig_vecs,\n                                        size=size,\n                                        E_poly=self.E_poly,\n                                        random_state=params.get('random_state', None))")], 'FiniteDPP(L'),
    ('c04-default', 'C04', BE, [], None),
    ('c05-chol', 'C05', EX, [], None),
]
MUTANTS = [m for m in MUTANTS if m[3]]
