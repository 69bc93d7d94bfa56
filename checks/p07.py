"""P07: index records keep unique labels and never-reused ids."""
from engine import history_sub
from harness import require

PROPERTY = 'P07'
RULE = ('non-trivial: at least three index operations (insert, update, merge, delete) that '
        'succeeded, in memory, bound to a file or across reloads')
ASSUMPTIONS = ['label names differ in more than case; labels and ids are compared after every operation']

WEIGHTS = {'ins': 6, 'insid': 4, 'upd': 6, 'delr': 4, 'delc': 3, 'addg': 1, 'fillw': 1, 'addl': 1,
           'fillm': 1, 'addc': 1, 'dropc': 1, 'renc': 3, 'ordc': 1, 'dropl': 1, 'reload': 2}


def after(e, op, outcome):
    """One fingerprint per set of ids, and the other way round."""
    seen = e.__dict__.setdefault('fingerprints', {})
    back = e.__dict__.setdefault('fingerprint_ids', {})
    ids = tuple(r[0] for r in sorted(e.space.select_index()))
    h = e.space.select_weights('no such group').index_hash
    require(seen.setdefault(ids, h) == h, 'same ids, other fingerprint', ids, h, seen[ids], e.history())
    require(back.setdefault(h, ids) == ids, 'same fingerprint, other ids', ids, back[h], e.history())


SUBS = [
    history_sub('histories', WEIGHTS, ['index', 'criteria', 'fingerprint'],
                {'ins', 'insid', 'upd', 'delr', 'delc'}, 3, 2800, 22400, prelude=['index'],
                after=after, extra=lambda e, rec: e.check_file()),
    history_sub('long', {k: v for k, v in WEIGHTS.items() if k not in ('addc', 'dropc')},
                ['index', 'fingerprint'], {'ins', 'insid', 'upd', 'delr', 'delc'}, 12, 400, 3200,
                prelude=['index', 'index'], lo=30, hi=60, after=after),
    history_sub('large', {'bigins': 3, 'bigupd': 4, 'bigdel': 3, 'bigdelc': 1, 'ins': 1, 'upd': 1, 'reload': 1},
                ['index', 'fingerprint'], {'bigupd', 'bigdel', 'bigdelc'}, 1, 160, 2000, prelude=['big'], lo=2, hi=6,
                after=after),
]
