"""P15: label columns can be added, renamed, dropped and reordered."""
from engine import history_sub

PROPERTY = 'P15'
RULE = 'non-trivial: at least two successful changes to the label columns of a space with data'
ASSUMPTIONS = ['columns are not dropped while mappings exist (their levels would not be specified)',
               'names are non-empty and differ in more than case']

WEIGHTS = {'addc': 6, 'renc': 5, 'ren1': 4, 'dropc': 5, 'ordc': 4, 'addp': 2, 'addps': 2, 'drope': 1,
           'ins': 3, 'upd': 2, 'insq': 2, 'insqi': 2, 'insm2': 1, 'fillm': 1, 'addl': 1, 'dropl': 1, 'insw': 2,
           'delr': 1, 'reload': 2, 'attrs': 1, 'delunm': 1}
KEY = {'addc', 'renc', 'ren1', 'dropc', 'ordc'}
ALL = ['columns', 'display', 'index', 'criteria', 'weights', 'allquant', 'quantities', 'mappings', 'partitions',
       'structure', 'links', 'listed']

SUBS = [
    history_sub('histories', WEIGHTS, ALL, KEY, 2, 1250, 10000,
                prelude=['index', 'group', 'part', 'quant'], extra=lambda e, rec: e.check_file()),
    history_sub('with mappings', WEIGHTS, ALL, KEY, 2, 500, 4000,
                prelude=['index', 'group', 'link', 'quant'], extra=lambda e, rec: e.check_file()),
    history_sub('with several links', WEIGHTS, ALL, KEY, 2, 750, 6000,
                prelude=['index', 'link of two', 'quant'], lo=3, extra=lambda e, rec: e.check_file()),
    history_sub('large', {'addc': 4, 'renc': 3, 'ren1': 2, 'dropc': 4, 'ordc': 2, 'bigins': 1, 'bigq': 2, 'bigm': 1, 'bigw': 1, 'reload': 1},
                ALL, KEY, 1, 70, 800, prelude=['big', 'group', 'part', 'quant'], lo=3, hi=7, extra=lambda e, rec: e.check_file()),
]
