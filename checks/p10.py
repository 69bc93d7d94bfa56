"""P10: proportions, currency and completeness match the mappings."""
from engine import history_sub, same
from harness import require

PROPERTY = 'P10'
RULE = 'non-trivial: at least two successful mapping operations on a link'
ASSUMPTIONS = ['currency is judged by the recorded fingerprint of the mapped source ids']

WEIGHTS = {'ins': 2, 'addl': 2, 'editl': 1, 'dropl': 1, 'insm2': 6, 'insm': 5, 'fillm': 4, 'updm': 6,
           'delmr': 4, 'delmc': 3, 'reify': 4, 'upd': 1, 'delr': 1, 'addps': 1, 'reload': 2}
KEY = {'insm2', 'insm', 'fillm', 'updm', 'delmr', 'delmc', 'reify'}


def after(e, op, outcome):
    """The stored proportions add up, whatever the model says."""
    if op[0] not in KEY or op[0] == 'reify' or outcome != 'ok':
        return
    for key, maps in e.see_mappings().items():
        total = {}
        for (o, i, level), (value, proportion) in maps.items():
            if o:
                total[o] = total.get(o, 0.0) + proportion
        for o, x in total.items():
            require(same(x, 1.0), f'the proportions of source record {o} add up to {x}', maps, e.history())


SUBS = [
    history_sub('histories', WEIGHTS, ['mappings', 'links', 'listed'], KEY, 2, 4000, 32000,
                prelude=['index', 'part', 'link2'], after=after, extra=lambda e, rec: e.check_file()),
    history_sub('wide', WEIGHTS, ['mappings', 'listed', 'structure'], KEY, 2, 300, 2400,
                prelude=['index', 'part', 'link2'], min_cols=7, max_cols=10),
    history_sub('large', {'bigins': 1, 'bigm': 4, 'fillm': 2, 'bigupdm': 4, 'bigdelm': 4, 'delmc': 1, 'reload': 1},
                ['mappings', 'links'], {'bigm', 'bigupdm', 'bigdelm', 'fillm'}, 2, 80, 1000, prelude=['big', 'link'], lo=2, hi=5,
                after=after),
]
