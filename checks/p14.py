"""P14: partitions, structure and granularity."""
import random

from engine import history_sub, same
from harness import require
from model import minimal, unions

PROPERTY = 'P14'
RULE = 'non-trivial: at least two partition definitions next to the whole space were in force, or two successful changes to partitions'
ASSUMPTIONS = []

WEIGHTS = {'ins': 4, 'insid': 2, 'upd': 3, 'delr': 2, 'delc': 1, 'addp': 6, 'addps': 5, 'dropp': 3,
           'drope': 4, 'addc': 2, 'renc': 1, 'ren1': 1, 'dropc': 2, 'ordc': 1, 'insq': 1, 'insm2': 1, 'addl': 1,
           'reload': 2}
KEY = {'addp', 'addps', 'dropp', 'drope', 'addc', 'dropc'}


def after(e, op, outcome):
    defs = [frozenset(d) for d in e.space.partition_definitions]
    require(minimal(defs) == set(defs), 'the partitions are not a minimal generating set', defs, e.history())
    columns = frozenset(e.space.index_columns)
    require(not defs or columns in unions(defs), 'the whole space is not covered', defs, e.history())
    got = e.see_structure()
    names = e.space.index_columns
    sets = {frozenset(c for c, b in zip(names, bits) if b): g for bits, g in got.items()}
    for a, ga in sets.items():
        for b, gb in sets.items():
            require(a | b in sets, 'the structure is not closed under union', sorted(a), sorted(b), e.history())
            if a <= b and ga is not None and gb is not None:
                require(ga <= gb + 1e-9, 'a finer partition has lower granularity', sorted(a), sorted(b),
                        ga, gb, e.history())


SUBS = [
    history_sub('histories', WEIGHTS, ['partitions', 'structure', 'columns'], KEY, 2, 3150, 25200,
                prelude=['index'], min_cols=2, after=after),
    history_sub('wide', WEIGHTS, ['partitions', 'structure'], KEY, 2, 280, 2240,
                prelude=['index', 'part'], min_cols=4, max_cols=6, after=after),
    history_sub('large', {'bigins': 3, 'bigupd': 3, 'bigdel': 2, 'bigdelc': 1, 'addp': 2, 'drope': 1, 'dropp': 1, 'addc': 1, 'dropc': 1, 'reload': 1},
                ['partitions', 'structure'], {'bigins', 'bigupd', 'bigdel'}, 1, 100, 1200, prelude=['big', 'part'], after=after,
                min_cols=2, lo=2, hi=6),
]
