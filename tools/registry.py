"""The checks: property -> how it is decided.  tools/mkmanifest.py writes MANIFEST.json from this."""

TP = ['utils/threadpool.cc']
DS = ['data_store/', 'utils/', 'flags.cc']

MCRT = ('mcrt controls every pthread operation and every wake-up of the real code, and checks happens-before data races, '
        'deadlock, hangs, use of freed heap memory and the functional oracle on every schedule within the bounds in the '
        'evidence. Trusted: the mcrt runtime, clang\'s TSan instrumentation; memory is sequentially consistent '
        '(justified by race freedom).')

MC = ('Every case of the bounded space in the evidence is executed on the real code (address and undefined-behaviour '
      'sanitizers on) in crash-isolated workers and compared with an independent reference. Trusted: the reference and '
      'the small-scope argument in DESIGN.md.')


def seq(technique, src, only=None, **kw):
    return dict(level='model_checking', technique=technique, parts=[dict(kind='mc', src=src, only=only, **kw)], note=MC)


CHECKS = {
    'C01': dict(level='model_checking',
                technique='stateless model checking of the real ThreadPool (all interleavings, deviation-bounded above 2 workers)',
                parts=[dict(kind='mcrt', src='c01_threadpool.cc', only=TP)], note=MCRT),
    'C02': dict(level='model_checking',
                technique='stateless model checking of real training and prediction runs, deviation-bounded',
                parts=[dict(kind='mcrt', src='c02_training.cc', cap=dict(quick=60, thorough=150))], note=MCRT),
    'C03': dict(level='model_checking',
                technique='stateless model checking of concurrent flat-file column loads, deviation-bounded',
                parts=[dict(kind='mcrt', src='c03_flatfiles.cc', only=DS)], note=MCRT),
    'C04': dict(level='model_checking',
                technique='stateless model checking of parallel TSV block loading plus exhaustive enumeration of column roles',
                parts=[dict(kind='mcrt', src='c04_tsv.cc', only=DS), dict(kind='mc', src='c04_roles.cc', only=DS)], note=MCRT),
    'C05': seq('exhaustive enumeration of small trees and data sets on the real evaluator, against a reference evaluation', 'c05_scores.cc'),
    'C06': seq('exhaustive enumeration of small data sets on the real split search, against all thresholds and missing sides', 'c06_float_split.cc',
               DS + ['split_algo.cc']),
    'C07': seq('exhaustive enumeration of small data sets on the real split search, against all subsets of categories', 'c07_cat_split.cc',
               DS + ['split_algo.cc']),
    'C08': seq('exhaustive enumeration of small data sets and settings on the real tree fitting, against best-first growth', 'c08_trees.cc'),
    'C09': seq('exhaustive enumeration of small data sets and settings on real training runs, against stagewise boosting', 'c09_boosting.cc'),
    'C10': seq('exhaustive enumeration of model shapes, strings, numbers and damaged texts through the real JSON conversion', 'c10_json.cc', ['utils/']),
    'C11': seq('exhaustive enumeration of value sequences, budgets and chunkings on the real bucketizer', 'c11_buckets.cc', DS),
    'C12': seq('exhaustive enumeration of string sequences and chunkings on the real string column', 'c12_strings.cc', DS),
    'C13': seq('exhaustive enumeration of operation sequences on the real data store, against a map model', 'c13_store.cc', DS),
    'C14': seq('exhaustive enumeration of token sequences through the real TSV reader, against a reference reader', 'c14_tsv_text.cc', DS),
    'C15': seq('exhaustive enumeration of flat files, directory layouts and request sequences, against a reference reader', 'c15_flatfiles.cc', DS),
    'C16': seq('exhaustive enumeration of settings, targets, weights and scores on the real losses, against differentiated reference losses', 'c16_pointwise.cc',
               DS + ['loss_func/']),
    'C17': seq('exhaustive enumeration of groups, random generator outputs and loss settings on the real pairwise losses, explained by draws of pairs',
               'c17_pairs.cc', DS + ['loss_func/']),
    'C18': seq('exhaustive enumeration of sizes, slice counts, rates and call sequences on the real sampling and slicing', 'c18_sampling.cc',
               DS + ['split_algo.cc', 'loss_func/']),
    'C19': dict(level='model_checking',
                technique='exhaustive fault injection: every file operation of every loading and writing operation fails in turn, alone and in pairs, on the real code',
                parts=[dict(kind='mc', src='c19_faults.cc', profile='plain', repo=['src/main.cc'])],
                note='File operations are intercepted between the program (and libstdc++) and the C library; a run either reports an error or '
                     'has the result of the run without faults. Trusted: the interception, the small set of tasks and fault kinds in DESIGN.md.'),
    'C20': seq('exhaustive enumeration of checkpoint lists and intervals on the real evaluation, against prefix sums of a reference evaluation', 'c20_checkpoints.cc'),
    'C21': seq('exhaustive enumeration of small forests through the real importance computation, against sums over inner nodes', 'c21_importance.cc'),
    'C22': seq('exhaustive enumeration of deviations from valid settings, data and forests through real training and evaluation', 'c22_settings.cc'),
    'C23': dict(level='model_checking',
                technique='exhaustive enumeration of sequences of Python calls on the real extension module, against a map of lists',
                parts=[dict(kind='py', src='c23_api')],
                note='The extension module of the current tree (built with AddressSanitizer) and the package in gbdt/ run in real interpreters; '
                     'what a sequence of calls has to give comes from a reference in Python. Trusted: the reference, the bounds in the evidence.'),
    'C24': seq('exhaustive enumeration of base forests, data sets and splits of the training, against boosting from the base scores', 'c24_continue.cc'),
    'C25': seq('exhaustive enumeration of small data sets and row weights on real training runs, against training on repeated rows', 'c25_weights.cc'),
    'C26': dict(level='model_checking',
                technique='exhaustive enumeration of command lines, settings, omissions and corruptions through the real program, against the library',
                parts=[dict(kind='mc', src='c26_cli.cc', profile='plain', repo=['src/main.cc'])],
                note='Every command line of the bounded space in the evidence is run in a process of its own (the real main.cc, its entry point '
                     'renamed). Trusted: the bounds; that the library is right is what the other properties are about.'),
    'C27': dict(level='model_checking',
                technique='exhaustive enumeration of small trees, rows, data sets and plot requests through the real drawing code, against a reader of the drawings',
                parts=[dict(kind='py', src='c27_plots')],
                note='graphviz and matplotlib are stand-ins that record what is drawn; the drawing is then read label by label. Trusted: the reader, '
                     'the reference evaluation of trees in Python, the bounds in the evidence.'),
    'C28': seq('exhaustive enumeration of small data sets, groups, iterations and durations through the real losses, training log and stop watch, against reference losses',
               'c28_report.cc'),
}

# Properties without a check, with the reason.
NOT_APPLICABLE = {}
