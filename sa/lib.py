"""Models of the libraries that the package uses: which calls return views, mutate arguments, draw random numbers or
touch process-wide state.  Everything not listed is taken to be a pure function that returns a fresh value."""

RNG_CLASS = 'numpy.random.RandomState'
# methods of RandomState / Generator that consume the stream
DRAWS = set('''rand randn randint random random_sample ranf sample random_integers choice permutation shuffle bytes
beta binomial chisquare dirichlet exponential f gamma geometric gumbel hypergeometric laplace logistic lognormal
logseries multinomial multivariate_normal negative_binomial noncentral_chisquare noncentral_f normal pareto poisson
power rayleigh standard_cauchy standard_exponential standard_gamma standard_normal standard_t triangular uniform
vonmises wald weibull zipf tomaxint integers permuted multivariate_hypergeometric spawn'''.split())
RESEED = {'seed', 'set_state', 'jumped', 'jump', 'advance'}
STD_RANDOM = set('''random randint randrange uniform choice choices sample shuffle gauss normalvariate lognormvariate
expovariate vonmisesvariate gammavariate betavariate paretovariate weibullvariate triangular getrandbits randbytes
binomialvariate'''.split())

# functions returning a view of (or the very same object as) their first argument
VIEW_FUNCS = set('''numpy.asarray numpy.asanyarray numpy.ascontiguousarray numpy.asfortranarray numpy.atleast_1d
numpy.atleast_2d numpy.atleast_3d numpy.reshape numpy.ravel numpy.transpose numpy.squeeze numpy.expand_dims
numpy.swapaxes numpy.moveaxis numpy.rollaxis numpy.broadcast_to numpy.diagonal numpy.real numpy.imag numpy.asmatrix
numpy.require numpy.flipud numpy.fliplr numpy.flip numpy.rot90 numpy.split numpy.array_split numpy.hsplit
numpy.vsplit numpy.diag numpy.lib.stride_tricks.as_strided numpy.lib.stride_tricks.sliding_window_view
numpy.asfarray numpy.asarray_chkfinite numpy.broadcast_arrays numpy.real_if_close
sklearn.utils.check_array'''.split())
VIEW_METHODS = set('''reshape ravel transpose squeeze swapaxes diagonal view'''.split())
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'base', 'mT'}

# functions that write into an argument: name -> index of the argument(s)
MUT_FUNCS = {'numpy.put': (0,), 'numpy.place': (0,), 'numpy.putmask': (0,), 'numpy.copyto': (0,),
             'numpy.fill_diagonal': (0,), 'numpy.put_along_axis': (0,), 'numpy.random.shuffle': (0,),
             'random.shuffle': (0,), 'heapq.heappush': (0,), 'heapq.heappop': (0,), 'heapq.heapify': (0,),
             'bisect.insort': (0,), 'bisect.insort_left': (0,), 'bisect.insort_right': (0,),
             'operator.setitem': (0,), 'operator.delitem': (0,), 'operator.iadd': (0,), 'operator.isub': (0,),
             'operator.imul': (0,), 'operator.itruediv': (0,), 'setattr': (0,), 'delattr': (0,)}
MUT_METHODS_ARRAY = {'sort', 'fill', 'partition', 'put', 'itemset', 'resize', 'setfield', 'setflags', 'byteswap~',
                     'setdiag', 'sort_indices', 'eliminate_zeros'}
MUT_METHODS_LIST = {'append', 'extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'clear', '__setitem__',
                    '__delitem__', '__iadd__', 'appendleft', 'extendleft', 'popleft', 'rotate'}
MUT_METHODS_DICT = {'update', 'pop', 'popitem', 'clear', 'setdefault', '__setitem__', '__delitem__', 'move_to_end'}
MUT_METHODS_SET = {'add', 'discard', 'remove', 'update', 'pop', 'clear', 'intersection_update', 'difference_update',
                   'symmetric_difference_update'}
MUT_METHODS_GRAPH = {'add_node', 'add_nodes_from', 'add_edge', 'add_edges_from', 'remove_node', 'remove_nodes_from',
                     'remove_edge', 'remove_edges_from', 'clear', 'clear_edges', 'update', 'add_weighted_edges_from'}
# ufuncs accept the output as an extra positional argument: name -> number of inputs
UFUNC1 = set('''negative positive absolute abs fabs sign exp exp2 log log2 log10 log1p expm1 sqrt square cbrt
reciprocal sin cos tan arcsin arccos arctan sinh cosh tanh floor ceil trunc rint conj conjugate isnan isinf
isfinite logical_not invert signbit degrees radians deg2rad rad2deg'''.split())
UFUNC2 = set('''add subtract multiply divide true_divide floor_divide power float_power mod remainder fmod arctan2
hypot maximum minimum fmax fmin logaddexp greater greater_equal less less_equal equal not_equal logical_and
logical_or logical_xor bitwise_and bitwise_or bitwise_xor left_shift right_shift matmul copysign heaviside gcd lcm'''.split())
OUT_POS = {'numpy.clip': 3, 'numpy.dot': 2, 'numpy.outer': 2, 'numpy.cumsum': 3, 'numpy.cumprod': 3, 'numpy.round': 2,
           'numpy.around': 2, 'numpy.sum': 3, 'numpy.prod': 3, 'numpy.take': 3, 'numpy.concatenate': 2,
           'numpy.nan_to_num~': 9, 'numpy.mean': 3, 'numpy.argmax': 2, 'numpy.max': 2, 'numpy.min': 2}

# process-wide state
GLOBAL_SETTERS = {
    'numpy.seterr': 'numpy error handling', 'numpy.seterrcall': 'numpy error handling', 'numpy.setbufsize': 'numpy buffer size',
    'numpy.seterrobj': 'numpy error handling', 'numpy.geterrobj~': '',
    'numpy.set_printoptions': 'numpy print options', 'numpy.set_string_function': 'numpy print options',
    'numpy.set_numeric_ops': 'numpy operators',
    'numpy.random.seed': 'numpy global random seed', 'numpy.random.set_state': 'numpy global random state',
    'numpy.random.mtrand.seed': 'numpy global random seed', 'numpy.random.mtrand._rand.seed': 'numpy global random seed',
    'numpy.random.set_bit_generator': 'numpy global generator',
    'scipy.special.seterr': 'scipy.special error handling',
    'random.seed': 'random global seed', 'random.setstate': 'random global state',
    'warnings.simplefilter': 'warning filters', 'warnings.filterwarnings': 'warning filters',
    'warnings.resetwarnings': 'warning filters',
    'sys.setrecursionlimit': 'recursion limit', 'sys.setswitchinterval': 'interpreter settings',
    'sys.settrace': 'interpreter settings', 'sys.setprofile': 'interpreter settings',
    'os.putenv': 'environment', 'os.unsetenv': 'environment', 'os.chdir': 'working directory', 'os.umask': 'umask',
    'os.environ.update': 'environment', 'os.environ.setdefault': 'environment', 'os.environ.pop': 'environment',
    'locale.setlocale': 'locale', 'gc.disable': 'gc', 'gc.enable': 'gc', 'gc.set_threshold': 'gc',
    'logging.basicConfig': 'logging', 'logging.disable': 'logging', 'signal.signal': 'signals',
    'socket.setdefaulttimeout': 'sockets', 'decimal.setcontext': 'decimal',
    'matplotlib.rc': 'matplotlib defaults', 'matplotlib.rcdefaults': 'matplotlib defaults', 'matplotlib.use': 'matplotlib backend',
    'matplotlib.rc_file': 'matplotlib defaults', 'matplotlib.rcParams.update': 'matplotlib defaults',
    'matplotlib.pyplot.rc': 'matplotlib defaults', 'matplotlib.pyplot.rcdefaults': 'matplotlib defaults',
    'matplotlib.pyplot.rcParams.update': 'matplotlib defaults', 'matplotlib.style.use': 'matplotlib defaults',
    'matplotlib.pyplot.style.use': 'matplotlib defaults', 'matplotlib.pyplot.switch_backend': 'matplotlib backend',
    'matplotlib.pyplot.ion': 'matplotlib interactive mode', 'matplotlib.pyplot.ioff': 'matplotlib interactive mode',
    'matplotlib.pyplot.xkcd': 'matplotlib defaults',
    'seaborn.set': 'matplotlib defaults', 'seaborn.set_style': 'matplotlib defaults', 'seaborn.set_theme': 'matplotlib defaults',
    'pandas.set_option': 'pandas options', 'multiprocessing.set_start_method': 'multiprocessing',
}
GLOBAL_CLASSES = {'numpy.seterr': 'np.err', 'numpy.seterrcall': 'np.errcall', 'numpy.set_printoptions': 'np.print'}
# objects of other modules whose mutation is process-wide
GLOBAL_OBJECTS = ('os.environ', 'matplotlib.rcParams', 'matplotlib.pyplot.rcParams', 'sys.path', 'sys.modules',
                  'warnings.filters', 'sys.meta_path', 'numpy.random.mtrand._rand', 'matplotlib.rcParamsDefault')
CLOCKS = {'time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.clock', 'time.time_ns',
          'time.perf_counter_ns', 'time.monotonic_ns', 'time.process_time_ns', 'time.thread_time', 'time.ctime',
          'time.localtime', 'time.gmtime',
          'timeit.default_timer', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today',
          'datetime.date.today', 'datetime.now'}
ENTROPY = {'os.urandom': 'os.urandom', 'uuid.uuid4': 'uuid4', 'uuid.uuid1': 'uuid1', 'secrets.randbelow': 'secrets',
           'secrets.token_bytes': 'secrets', 'secrets.choice': 'secrets', 'secrets.randbits': 'secrets',
           'os.getpid': 'process id', 'os.times': 'clock', 'threading.get_ident': 'thread id',
           'random.SystemRandom': 'SystemRandom', 'hash': 'hash()', 'id': 'id()', 'object.__hash__': 'hash()'}
RNG_CTORS = {'numpy.random.RandomState', 'numpy.random.default_rng', 'numpy.random.mtrand.RandomState',
             'numpy.random.Generator', 'numpy.random.SeedSequence', 'random.Random', 'numpy.random.MT19937',
             'numpy.random.PCG64', 'numpy.random.Philox', 'numpy.random.SFC64', 'numpy.random._generator.Generator'}
# library functions that draw from numpy's global generator unless told otherwise: name -> keyword(s)
SEEDED_FUNCS = {'scipy.sparse.random': ('random_state',), 'scipy.sparse.rand': ('random_state',),
                'scipy.sparse.random_array': ('random_state',),
                'scipy.sparse.linalg.svds': ('random_state', 'v0'),
                'scipy.optimize.differential_evolution': ('seed',), 'scipy.optimize.dual_annealing': ('seed',),
                'scipy.optimize.basinhopping': ('seed',), 'scipy.cluster.vq.kmeans': ('seed',), 'scipy.cluster.vq.kmeans2': ('seed',),
                'networkx.random_spanning_tree': ('seed',), 'networkx.gnp_random_graph': ('seed',),
                'networkx.erdos_renyi_graph': ('seed',), 'networkx.random_tree': ('seed',),
                'networkx.spring_layout': ('seed',), 'networkx.random_layout': ('seed',),
                'sklearn.utils.shuffle': ('random_state',), 'sklearn.utils.resample': ('random_state',),
                'sklearn.utils.random.sample_without_replacement': ('random_state',)}

# array methods that are spelled like numpy functions
METHOD_AS_FUNC = set('''dot sum prod min max mean std var cumsum cumprod argmin argmax argsort nonzero clip round trace
conj conjugate all any repeat take searchsorted ptp compress choose'''.split())
ALIASES = {'numpy.matmul': 'numpy.dot', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.absolute': 'numpy.abs',
           'numpy.product': 'numpy.prod', 'numpy.random.random_sample': 'numpy.random.rand',
           'numpy.multiply': '*', 'numpy.add': '+', 'numpy.subtract': '-', 'numpy.divide': '/', 'numpy.true_divide': '/',
           'numpy.linalg.linalg.det': 'numpy.linalg.det', 'scipy.linalg.det': 'numpy.linalg.det',
           'math.sqrt': 'numpy.sqrt', 'math.log': 'numpy.log', 'math.exp': 'numpy.exp', 'numpy.inner~': 'numpy.dot',
           'numpy.conjugate': 'numpy.conj'}
# numpy functions returning scalars when no axis is given
REDUCTIONS = set('''numpy.sum numpy.prod numpy.min numpy.max numpy.mean numpy.std numpy.var numpy.median numpy.trace
numpy.argmin numpy.argmax numpy.all numpy.any numpy.ptp numpy.count_nonzero numpy.linalg.norm'''.split())
SCALAR_FUNCS = set('''numpy.linalg.det numpy.linalg.matrix_rank numpy.linalg.slogdet~ numpy.isscalar numpy.allclose
numpy.array_equal numpy.ndim numpy.size numpy.can_cast numpy.linalg.cond numpy.vdot numpy.isclose~ math.floor math.ceil
math.factorial math.gamma math.lgamma math.comb math.isclose numpy.float64 numpy.float32 numpy.int64 numpy.int32
numpy.int_ numpy.bool_ numpy.intp int float bool str len'''.split())
OPTIONAL_DEPS = {'networkx', 'cvxopt', 'tqdm', 'sklearn'}

# methods of numpy.random.RandomState
RNG_METHODS = set('''beta binomial bytes chisquare choice dirichlet exponential f gamma geometric get_state gumbel hypergeometric laplace logistic
lognormal logseries multinomial multivariate_normal negative_binomial noncentral_chisquare noncentral_f normal pareto permutation poisson power
rand randint randn random random_integers random_sample rayleigh seed set_state shuffle standard_cauchy standard_exponential standard_gamma
standard_normal standard_t tomaxint triangular uniform vonmises wald weibull zipf __class__ _bit_generator __getstate__ __setstate__ __reduce__ __dict__ __doc__'''.split())
