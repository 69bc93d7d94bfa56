"""P29: several spaces bound to one file act as one, whatever overlaps."""
import os
import sqlite3
from contextlib import closing

from hypothesis import strategies as st

import dbfault
import toron
from engine import OPS, Engine, Skip, history, same
from harness import HarnessError, Sub, Violation, require
from model import Refused
from p16 import NAMES as ALL

PROPERTY = 'P29'
RULE = ('non-trivial: two handles of one file completed changes and another read them ("several handles"), '
        'or a second operation ran while a first one was under way ("overlapping")')
ASSUMPTIONS = ['the handles are used from one process; an operation that waits for a lock is made to give up at once',
               'an operation overlaps another by running at one chosen point of it, between two database statements']

NAMES = [n for n in ALL if n != 'reload']
OBSERVED = ['index', 'weights', 'groups', 'links', 'mappings', 'quantities', 'columns', 'display', 'partitions',
            'domain', 'fingerprint']
MORE = OBSERVED + ['listing', 'listed', 'allquant', 'disagg', 'unmatched', 'structure']
# These change the names that the tables of other operations refer to, so
# they are only overlapped with operations that name no columns.
NAMING = {'addc', 'renc', 'ren1', 'dropc', 'attrs'}
# (set_default_weight_group takes a group that was looked up before.)
NAMELESS = {'addg', 'editg', 'dropg', 'setdef', 'addl', 'editl', 'dropl', 'domain', 'delunm', 'delnoidx'}


def connect(*args, **kwds):
    kwds.setdefault('timeout', 0)
    return dbfault.connect(*args, **kwds)


def op_strategy():
    return st.sampled_from(NAMES).flatmap(lambda n: OPS[n])


def with_mode(case):
    (world, start), *rest = case
    return (dict(world, mode='bind'), start), *rest


def handles_of(e, n):
    return [e.space] + [toron.bind_file(e.path, mode='rw') for _ in range(n - 1)]


# --------------------------------------------------------------------------
# One after another
# --------------------------------------------------------------------------
def several_strategy():
    h = st.integers(0, 2)
    return st.tuples(history({n: 1 for n in NAMES}, 0, 2, prelude=['index', 'group', 'link', 'part', 'quant']),
                     st.lists(st.tuples(op_strategy(), h, h), min_size=3, max_size=10),
                     st.booleans()).map(with_mode)


def run_several(case, rec):
    (world, start), ops, read_only = case
    with closing(Engine(world, rec=rec)) as e:
        handles = handles_of(e, 3)
        if read_only:
            handles.append(toron.bind_file(e.path, mode='ro'))
        for h in handles:           # Let them know an early state.
            e.space = h
            e.check(OBSERVED)
        e.space = handles[0]
        for op in start:
            e.step(op)
        changed = set()
        for op, w, r in ops:
            e.space = handles[w]
            e.log.append(f'-- through handle {w}:')
            outcome = e.step(op)
            if outcome == 'skip':
                continue
            if outcome == 'ok':
                changed.add(w)
            e.space = handles[3 if read_only and r == w else r]
            e.check(OBSERVED)
        for h in handles:
            e.space = h
            e.check(MORE)
        if len(changed) > 1:
            rec.nontrivial()
        handles.clear()


# --------------------------------------------------------------------------
# At the same time
# --------------------------------------------------------------------------
class Pause:
    """Context in which a function is called before the n-th statement."""
    def __init__(self, n, function):
        self.n, self.function, self.fired = n, function, False

    def __enter__(self):
        dbfault.hook = self.tick
        return self

    def __exit__(self, *exc):
        dbfault.hook = None

    def tick(self, sql):
        if sql.lstrip().startswith(('CREATE TEMP', 'PRAGMA foreign_keys')):
            return      # setting up the connection
        self.n -= 1
        if self.n < 0:
            dbfault.hook = None
            self.fired = True
            self.function()


# Operations on the same things, which are most likely to be in each other's way.
FAMILIES = [['addg', 'editg', 'dropg', 'setdef', 'insw', 'fillw', 'updw', 'delwr', 'delwc', 'ins', 'delr', 'upd'],
            ['addl', 'editl', 'dropl', 'insm2', 'fillm', 'insm', 'updm', 'delmr', 'delmc', 'reify', 'ins', 'delr', 'upd'],
            ['attrs', 'insq', 'insqi', 'delnoidx', 'delunm', 'domain', 'delc', 'orda'],
            ['addp', 'addps', 'dropp', 'drope', 'ins', 'delr', 'insqi', 'domain', 'ordc']]


def pair_strategy():
    def pair(names):
        op = st.sampled_from(names).flatmap(lambda n: OPS[n])
        return st.tuples(op, op)
    def same(names, firsts):
        # (both on the same weight group, or the same link)
        op = st.sampled_from(names).flatmap(lambda n: OPS[n])
        n = len(firsts)
        return st.tuples(op, op, st.tuples(*firsts)).map(
            lambda x: (x[0][:1] + x[2] + x[0][1 + n:], x[1][:1] + x[2] + x[1][1 + n:]))
    return st.one_of(pair(NAMES), *[pair(f) for f in FAMILIES],
                     same(['editg', 'editg', 'dropg', 'fillw', 'fillw', 'fillw', 'insw', 'updw', 'delwr', 'delwc'],
                          [st.integers(0, 3)]),
                     same(['editl', 'dropl', 'insm', 'insm2', 'fillm', 'updm', 'delmr', 'delmc', 'reify'],
                          [st.integers(0, 1), st.integers(0, 2)]))


def overlap_strategy():
    n = st.one_of(st.sampled_from(range(5)), st.sampled_from(range(12)), st.sampled_from(range(12)), st.integers(0, 60))
    start = ['index', 'group', 'link', 'part', 'quant'], ['index', 'empty group', 'empty group', 'link', 'quant']
    return st.tuples(st.one_of(*[history({n: 1 for n in NAMES}, 0, 2, prelude=p) for p in start]),
                     st.lists(st.tuples(pair_strategy(), n, st.integers(0, 2),
                                        st.sampled_from(['op', 'op', 'op', 'op', 'open', 'read'])),
                              min_size=1, max_size=4)).map(with_mode)


def call(real, space):
    """'ok', 'locked' or 'refused', and the error."""
    try:
        real(space)
        return 'ok', None
    except HarnessError:
        raise
    except Exception as e:
        return ('locked' if 'locked' in str(e) else 'refused'), e


def outcome_of(fn, m):
    try:
        fn(m)
        return 'ok'
    except Refused:
        return 'refused'


OPEN = ['select_index', 'weights', 'quantities']


def open_result(space, k, e):
    """A result that is partly read."""
    if k == 0 or (k == 1 and not e.model.groups):
        it = space.select_index(header=True)
    elif k == 1:
        it = space.select_weights(next(iter(e.model.groups)))
    elif e.model.attributes:
        it = space.select_quantities2(header=True)
    else:
        it = space.select_index(header=True)
    return it


def serial(e, parts, text):
    """Find an order of the completed parts that explains the state."""
    before = e.model
    reasons = []
    orders = [parts, parts[::-1]] if len(parts) > 1 else [parts]
    for order in orders:
        m = before.copy()
        fits = True
        for name, fn, outcome in order:
            if outcome == 'locked':
                continue
            mm = m.copy()
            expected = outcome_of(fn, mm)
            if expected != outcome:
                fits = False
                reasons.append(f'{name} {outcome}, in the order {[x[0] for x in order]} it is {expected}')
                break
            if outcome == 'ok':
                m = mm
        if not fits:
            continue
        try:
            e.model = before
            e.adopt_ids(m)
            e.model = m
            e.check(OBSERVED)
            return
        except Violation as v:
            reasons.append(f'order {[x[0] for x in order]}: {v}')
    e.model = before
    raise Violation(f'{text}\nno order of the operations explains the result\n' + '\n'.join(reasons) + '\n' + e.history())


def run_overlap(case, rec):
    (world, start), rounds = case
    saved = sqlite3.connect
    sqlite3.connect = connect
    try:
        with closing(Engine(world, rec=rec)) as e:
            for op in start:
                e.step(op)
            a, b, c = handles_of(e, 3)
            for (op1, op2), n, k, kind in rounds:
                e.space = a
                if kind == 'op' and any(x in NAMING and y not in NAMELESS or x == 'setdef' and y in ('dropg', 'editg')
                                        for x, y in ((op1[0], op2[0]), (op2[0], op1[0]))):
                    kind = 'read'
                try:
                    fn1, real1, text1 = getattr(e, 'op_' + op1[0])(*op1[1:])
                    fn2, real2, text2 = getattr(e, 'op_' + op2[0])(*op2[1:])
                except Skip:
                    continue
                e.log.append(f'{text1}\n    and before its statement {n} [{kind} {k}]: {text2}')
                results = []

                def during():
                    model, e.space = e.model, c
                    e.check(OBSERVED[:3] if kind == 'op' else OBSERVED)   # nothing unfinished can be seen
                    if kind == 'op':
                        results.append(('second', fn2) + call(real2, b))
                    elif kind == 'open':
                        it = open_result(c, k, e)
                        if hasattr(it, 'data'):
                            it = it.data
                        next(it, None)
                        results.append(it)
                    e.space = a

                with Pause(n, during) as pause:
                    o1, err1 = call(real1, a)
                if isinstance(err1, Violation):
                    raise err1
                for x in results:
                    if kind == 'op' and isinstance(x[3], Violation):
                        raise x[3]
                if kind == 'open':
                    for it in results:
                        it.close()
                    results = []
                parts = [('first', fn1, o1)] + [x[:3] for x in results]
                e.log[-1] += '\n    -> ' + ', '.join(f'{p[0]} {p[2]}' for p in parts)
                if not pause.fired:
                    rec.event('not reached')
                else:
                    rec.event(f'{kind}: ' + ', '.join(f'{p[0]} {p[2]}' for p in parts))
                    rec.nontrivial()
                require(kind != 'read' or o1 != 'locked', 'reading blocks a change for good', err1, e.history())
                if not pause.fired:
                    require(o1 != 'locked', 'locked although nothing else happened', err1, e.history())
                for h in (c, b, a):
                    e.space = h
                    if h is c:
                        serial(e, parts, e.log[-1])
                    else:
                        e.check(OBSERVED[:4])
                # Whatever gave up can be repeated.
                for (name, _, outcome), op, h in zip(parts, (op1, op2), (a, b)):
                    if outcome == 'locked':
                        e.space = h
                        e.step(op)
                        e.space = c
                        e.check(OBSERVED)
            e.space = c
            e.check(MORE)
            a = b = c = None
    finally:
        sqlite3.connect = saved


SUBS = [Sub('several handles', several_strategy, run_several, 1000, 10000),
        Sub('overlapping', overlap_strategy, run_overlap, 1000, 10000)]
