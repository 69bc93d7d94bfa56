"""P08: merging or deleting records carries weights and mappings along."""
from engine import history_sub

PROPERTY = 'P08'
RULE = ('non-trivial: at least two successful updates or deletions of index records in a space '
        'that has weights or mappings')
ASSUMPTIONS = ['after a merge, combined proportions are compared with the sums of the merged ones']

WEIGHTS = {'ins': 2, 'insid': 1, 'upd': 10, 'delr': 7, 'delc': 4, 'addg': 1, 'fillw': 2, 'insw': 1,
           'addl': 1, 'insm2': 3, 'insm': 2, 'fillm': 3, 'updm': 1, 'reify': 2, 'delmc': 1, 'addps': 1,
           'reload': 2}

SUBS = [
    history_sub('histories', WEIGHTS, ['index', 'weights', 'groups', 'mappings', 'links'],
                {'upd', 'delr', 'delc'}, 2, 2100, 16800,
                prelude=['index', 'group2', 'link2'], extra=lambda e, rec: e.check_file()),
    history_sub('ambiguous', WEIGHTS, ['index', 'weights', 'mappings', 'links'],
                {'upd', 'delr', 'delc'}, 2, 900, 7200, min_cols=2,
                prelude=['index', 'group', 'part', 'link2'], extra=lambda e, rec: e.check_file()),
    history_sub('large', {'bigins': 1, 'bigupd': 5, 'bigdel': 3, 'bigdelc': 1, 'fillw': 1, 'bigm': 2, 'reload': 1},
                ['index', 'weights', 'mappings', 'links'], {'bigupd', 'bigdel', 'bigdelc'}, 1, 80, 1000,
                prelude=['big', 'group', 'link'], lo=2, hi=5),
]
