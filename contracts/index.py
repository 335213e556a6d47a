" which contract modules decide which property; what is trusted; what is only bounded "
MODULES = {
    'C01': ['extract'],
    'C02': ['sets', 'extract'],
    'C03': ['tags', 'sets', 'extract'],
    'C04': ['sets'],
    'C05': ['sets'],
    'C06': ['joins'],
    'C08': ['consec'],
    'C10': ['tags', 'sets', 'extract', 'fourier', 'mest', 'wts', 'terr', 'bfa', 'imp', 'realp', 'prefil', 'ats', 'inv', 'joins', 'consec'],
    'C11': ['fourier'],
    'C12': ['fourier'],
    'C13': ['mest'],
    'C14': ['mest'],
    'C15': ['wts'],
    'C16': ['wts'],
    'C17': ['imp'],
    'C18': ['imp'],
    'C19': ['imp'],
    'C20': ['realp'],
    'C21': ['terr'],
    'C22': ['prefil'],
    'C23': ['bfa'],
    'C24': ['ats'],
    'C25': ['cals'], 'C26': ['cals'], 'C27': ['paths'], 'C28': ['tpath'], 'C29': ['inv'],
}

TRUSTED = {
    '*': [
        'pyvc (/verif/pyvc): symbolic semantics of the Python subset and of the modelled builtins',
        'z3 5.3 / cvc5 1.1.2',
        'machine arithmetic treated as mathematical (integers, reals; complex numbers as pairs of reals)',
        'numpy / dask operations behave as modelled in pyvc/arrays.py and pyvc/lib.py',
    ],
    'C24': ['files, struct, numpy.fromfile / memmap: bytes of a file as typed values at offsets (pyvc/fs.py)'],
    'C28': ['regular expressions: the parser of the standard library, and the languages of the theory of strings of z3; '
            'the text of a group is an uninterpreted function of the name, constrained by the language of the group'],
    'C29': ['fnmatch.filter: an uninterpreted predicate on (name, pattern)'],
    'C25': ['text files as lines, numpy.loadtxt of consecutive lines as a table of uninterpreted numbers, regular '
            'expressions as uninterpreted predicates on the text, cos / sin / angle uninterpreted, '
            'scipy interp1d: linear between the two nearest abscissas, ValueError outside',
            'contract of data.get_data_file, proved under C27'],
    'C26': ['text files as lines, numpy.loadtxt as a table of uninterpreted numbers for (file, first line, delimiter), '
            'scipy interp1d: linear between the two nearest abscissas, ValueError outside'],
    'C27': ['pathlib / os.path: paths as terms, the existence of a file as an uninterpreted predicate, constant '
            'during a call; click decorators return the decorated function'],
}

BOUNDED = {
    'C08': ['at most 2 runs of any rates and tags; 3 runs of any rates for some layouts; 3 and 4 runs at given rates '
            '(any number of channels and samples, any times); more runs: generated executions only'],
    'C06': ['operands with the same names on differently ordered channels: at most 3 channels and 2 names, two or three operands '
            '(same tags, or signals: any number of runs, channels and tags)'],
    'C13': ['transfer_function: at most 3 steps (any number of outputs, inputs and samples)'],
    'C14': ['transfer_function and merge_invalid_indices: at most 3 lists of rejected indices '
            '(any number of outputs, inputs and samples); chain_m_estimate: any number of steps'],
    'C28': ['the patterns, templates and invalid fields listed in contracts/tpath.py (any list of names, any names)'],
    'C16': ['earlier estimation of at most 2 iterations; two iterations of the estimation observed'],
}

LEVEL = {'C08': 'other'}

STAND_IN = ('No contract of this property is within the reach of the verifier yet: the check evaluates the postcondition '
            'on generated executions of the real code, a bounded stand-in which proves nothing.')


NOTES = {
    'C06': ('Proved for any number of runs, channels and tags when the operands have the same tags or are signals; for '
            'operands which order their channels differently, proved for the listed shapes (at most 3 channels and 2 names, any '
            'runs for 2 channels, one run each for 3): bounded there.'),
    'C08': ('Bounded in the number of runs: all obligations discharged for at most 2 runs of any rates, tags, channels, sizes '
            'and times, and for the listed layouts of 3 and 4 runs; larger sets only by generated executions.'),
    'C07': STAND_IN, 'C09': STAND_IN, 'C28': ('For each pattern of a fixed family (27 patterns using every construct, 5 templates, 33 rejections): proved for '
            'every list of names; the language of the regular expression built by the code is proved equal to the one '
            'described, on all normalised paths. Bounded in the patterns.'),
    '*': 'Postconditions proved for all inputs by the verifier where evidence says discharged; assumes the trusted '
         'base listed in the evidence (pyvc semantics, library models, exact arithmetic); generated executions of the '
         'real code are bounded.',
}
