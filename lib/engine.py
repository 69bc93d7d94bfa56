"""Histories of operations on a data space, run against the real code and the
reference model at the same time.

A history is plain data: a *world* (column names, label values, attribute
names and values) and a list of operations, tuples of a name and small
integers.  The integers are resolved against the model's current state, so an
operation stays meaningful when Hypothesis shrinks or removes others.

Each operation is executed on the real space and on a copy of the model; both
have to succeed or both have to refuse.  After an operation the engine
compares the observables that were asked for.
"""
import math
import os
import sqlite3
import tempfile
from contextlib import closing, suppress

from hypothesis import strategies as st

from harness import HarnessError, Sub, Violation, require
from model import Model, Refused, bits_of, level_bytes, level_bits, unions

import toron
from toron import DataSpace
from toron.dal1 import legacy_drop_labels, legacy_rename_labels

RESERVED = {'_granularity', 'index_id', '_structure_id', '_location_id',
            'domain', 'value', 'weight'}

COLUMN_POOL = ['A', 'B', 'C', 'D e', 'it"s', "o'k", 'select', 'ünï', 'x-y', 'from', '[br]',
               'a.b', '%s', ';', '日本', 'rowid', 'group', '1st', 'index', 'table', '"', "''"]
VALUE_POOL = ['x', 'y', 'z', 'x y', "o'x", '"q"', 'é', '0', '1', '-', 'X', ' ', 'a,b', '日', '\t', 'null',
              '-1', '1.0', '%', '01']
AVAL_POOL = ['a', 'b', 'c', 'a b', 'a-b', "'", '"', 'ö', '0']
ATTR_POOL = ['attr', 'kind', 'at tr', "at'", 'Ä', 'attr"', 'sex', 'order']
AVAL_SETS = [['a', 'b', 'c d'], ['a|b', 'a', 'b'], ['a\x1fb', 'a', 'b'], ['a,b', 'a', 'b'], ['|', 'a', 'a|'],
             ['"', "'", 'a'], ['["a"]', 'a', '"a"'], ['a\tb', 'a', 'a\t'], ['0', '00', 'null'], ['a b', 'a  b', 'A'],
             ['ö', 'o\u0308', 'Ö'], ['a, b', 'a', ', '], ['a/b', 'a;b', 'a:b'], ['\\', 'a\\', 'a\n'], [' ', 'a', ' a'],
             ['a', 'A', 'b'], ['x', 'a', 'A']]
WEIGHTS = [1, 0, 2, 3, 0.5, 10, 7.25, 1000000.0, 0.1, 4]
VALUES = [1, 0, 2, 3, 6, 0.5, 10, 12.25, 100, 7]
GROUPS = ['w1', 'w 2', "w'3", 'W"4']
LINKS = ['p', 'q r', "l'"]
SELECTORS = [None, ['[attr]'], ['[kind="a"]', '[attr="b"]'], ['[attr="a"]'], ['[attr="a"][kind]', '[attr]'],
             ['[attr][kind]'], [':is([attr="a"], [kind])'], ['[attr="C D" i]', ':where([kind="a"])'],
             ['[domain="dom"]'], ['[attr]'], [':not([attr="b"])'], ['[kind]', '[attr^="c"]']]

# (the first two share more than seven characters)
SOURCE_IDS = ['abcdef01-0000-4000-8000-000000000001', 'abcdef01-0000-4000-8000-000000000002',
              '77777777-0000-4000-8000-000000000003']
HINTS = ['some file', 'f', 'f.toron', 'g.toron', 'abcdef01-0000']
_others = []
DEBUG = bool(os.environ.get("DBG"))


class Source(DataSpace):
    """A data space with a given id, serves as source of links."""
    unique_id = property(lambda self: self.fixed_id)


def others():
    """Data spaces that serve as sources of links (never modified)."""
    if not _others:
        for uid in SOURCE_IDS:
            space = Source()
            space.fixed_id = uid
            _others.append(space)
    return _others


# --------------------------------------------------------------------------
# World
# --------------------------------------------------------------------------
def world_strategy(max_cols=3, weird=True, min_cols=1):
    @st.composite
    def world(draw):
        n = draw(st.integers(min_cols, max_cols))
        if weird and draw(st.booleans()):
            cols = draw(st.lists(st.sampled_from(COLUMN_POOL), min_size=n, max_size=n,
                                 unique_by=str.lower))
            vals = [draw(st.lists(st.sampled_from(VALUE_POOL), min_size=2, max_size=4, unique=True))
                    for _ in range(n)]
        else:
            cols = COLUMN_POOL[:n]
            vals = [['x', 'y', 'z'][:draw(st.integers(2, 3))] for _ in range(n)]
        if weird and draw(st.booleans()):
            attrs = draw(st.lists(st.sampled_from(ATTR_POOL), min_size=1, max_size=2, unique=True))
        else:
            attrs = ATTR_POOL[:draw(st.integers(1, 2))]
        mode = draw(st.sampled_from(['mem', 'mem', 'mem', 'bind']))
        out = {'cols': cols, 'vals': vals, 'attrs': attrs, 'mode': mode}
        if weird:
            out['avals'] = draw(st.sampled_from(AVAL_SETS[:1] * 6 + AVAL_SETS[1:]))
            out['wscale'] = draw(st.sampled_from([1, 1, 1, 1, 1e-10, 2.0 ** -30, 1e9]))
        return out
    return world()


small = st.integers(0, 7)
bit = st.integers(0, 1)


def rows_of(elem, lo=1, hi=4):
    return st.lists(elem, min_size=lo, max_size=hi)


labels = st.lists(st.integers(0, 4), min_size=3, max_size=3)
form = st.integers(0, 5)


def T(name, *parts):
    return st.tuples(st.just(name), *parts)


# Strategy of every operation.
OPS = {
    # index ------------------------------------------------------------------
    # rows: (labels, weight codes); mode: labels only / with ids
    'ins': T('ins', rows_of(st.tuples(labels, st.lists(st.integers(0, 11), min_size=2, max_size=2)), 1, 6),
             st.integers(0, 2), st.sampled_from([1, 2, 0, 1, 2]), form, st.integers(0, 7)),
    'insid': T('insid', rows_of(st.tuples(small, labels, st.integers(0, 5),
                                          st.lists(st.integers(0, 11), min_size=2, max_size=2)), 1, 3),
               st.integers(0, 2), st.sampled_from([1, 2, 0, 1, 2]), form, st.integers(0, 7)),
    'upd': T('upd', rows_of(st.tuples(small, labels, st.integers(0, 9)), 1, 3), bit, form),
    'delr': T('delr', rows_of(st.tuples(small, st.integers(0, 5)), 1, 3), form),
    'delc': T('delc', small, st.integers(1, 7), st.integers(0, 5)),
    # weights -----------------------------------------------------------------
    'addg': T('addg', st.integers(0, 3), st.integers(0, 11), bit, st.integers(0, 2)),
    'editg': T('editg', st.integers(0, 3), st.integers(0, 3), st.integers(0, 3)),
    'dropg': T('dropg', st.integers(0, 3)),
    'setdef': T('setdef', st.integers(0, 3)),
    'insw': T('insw', st.integers(0, 3), rows_of(st.tuples(small, st.integers(0, 15), st.integers(0, 5)), 1, 6),
              bit, st.integers(0, 3), form),
    'fillw': T('fillw', st.integers(0, 3), small, form),
    'updw': T('updw', st.integers(0, 3), rows_of(st.tuples(small, st.integers(0, 11), st.integers(0, 5)), 1, 4), form),
    'delwr': T('delwr', st.integers(0, 3), rows_of(st.tuples(small, st.integers(0, 5)), 1, 3), form),
    'delwc': T('delwc', st.integers(0, 3), small, st.integers(1, 7), st.integers(0, 5)),
    # links --------------------------------------------------------------------
    'addl': T('addl', st.integers(0, 2), st.integers(0, 2), st.integers(0, 2), st.integers(0, 6)),
    'editl': T('editl', bit, st.integers(0, 2), st.integers(0, 4), st.integers(0, 4)),
    'dropl': T('dropl', bit, st.integers(0, 2)),
    'insm2': T('insm2', bit, st.integers(0, 2),
               rows_of(st.tuples(st.integers(0, 4), small, st.integers(0, 8), st.integers(0, 9)), 1, 6), form),
    'insm': T('insm', bit, st.integers(0, 2),
              rows_of(st.tuples(st.integers(0, 4), small, st.integers(0, 8), st.integers(0, 9),
                                st.integers(0, 5)), 1, 4), form),
    'fillm': T('fillm', bit, st.integers(0, 2), small),
    'updm': T('updm', bit, st.integers(0, 2),
              rows_of(st.tuples(st.integers(0, 4), small, st.integers(0, 8), st.integers(0, 9),
                                st.integers(0, 5)), 1, 4), form),
    'delmr': T('delmr', bit, st.integers(0, 2),
               rows_of(st.tuples(small, st.integers(0, 5)), 1, 3), form),
    'delmc': T('delmc', bit, st.integers(0, 2), small, st.integers(1, 7), st.integers(0, 5)),
    'reify': T('reify', bit, st.integers(0, 2), small, st.integers(0, 7), st.integers(0, 5)),
    # quantities -----------------------------------------------------------------
    'attrs': T('attrs', st.lists(st.integers(0, 3), min_size=1, max_size=3), st.integers(0, 9)),
    'insq': T('insq', rows_of(st.tuples(labels, st.integers(0, 15), st.lists(st.integers(0, 3), min_size=2, max_size=2),
                                        st.integers(0, 11)), 1, 5),
              st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), form),
    'insqi': T('insqi', rows_of(st.tuples(small, st.integers(0, 7), st.lists(st.integers(0, 3), min_size=2, max_size=2),
                                          st.integers(0, 11)), 1, 5),
               st.integers(0, 3), form),
    'delnoidx': T('delnoidx'),
    'delunm': T('delunm'),
    'domain': T('domain', st.integers(0, 3)),
    # columns and partitions --------------------------------------------------------
    'addc': T('addc', st.lists(st.integers(0, 40), min_size=1, max_size=2), st.integers(0, 9)),
    'renc': T('renc', st.lists(st.tuples(st.integers(0, 4), st.integers(0, 40)), min_size=1, max_size=2),
              st.integers(0, 9)),
    'ren1': T('ren1', st.integers(0, 4), st.integers(0, 40), st.integers(0, 9)),
    'dropc': T('dropc', st.lists(st.integers(0, 4), min_size=1, max_size=2), st.integers(0, 9)),
    'ordc': T('ordc', st.integers(0, 4), st.integers(-3, 3)),
    'orda': T('orda', st.integers(0, 3), st.integers(-2, 2)),
    'addp': T('addp', st.integers(0, 31), st.integers(0, 9)),
    'addps': T('addps', st.lists(st.integers(0, 31), min_size=1, max_size=3)),
    'dropp': T('dropp', st.lists(st.integers(0, 31), min_size=1, max_size=2)),
    'drope': T('drope', small),
    # many records at once ("large" histories)
    'bigins': T('bigins', st.integers(0, 6), st.integers(0, 400), form),
    'bigupd': T('bigupd', st.integers(0, 2), st.integers(1, 9), form),
    'bigdel': T('bigdel', st.integers(2, 9), st.integers(0, 9), form),
    'bigdelc': T('bigdelc', st.integers(0, 9)),
    'bigw': T('bigw', st.integers(0, 3), st.integers(0, 9), form),
    'bigdelw': T('bigdelw', st.integers(0, 3), st.integers(2, 9), form),
    'bigm': T('bigm', bit, st.integers(0, 2), st.integers(0, 9), form),
    'bigupdm': T('bigupdm', bit, st.integers(0, 2), st.integers(0, 9), form),
    'bigdelm': T('bigdelm', bit, st.integers(0, 2), st.integers(2, 9), form),
    'bigq': T('bigq', st.integers(0, 3), st.integers(0, 7), st.integers(0, 9), form),
    # the space itself: save and read, save and bind, bind again
    'reload': T('reload', st.integers(0, 2)),
}


INS = OPS['ins']
BIG_INS = T('ins', rows_of(st.tuples(labels, st.lists(st.integers(0, 9), min_size=2, max_size=2)), 3, 8),
            st.integers(1, 2), st.integers(1, 2), form, st.integers(0, 7))
PRELUDES = {
    'index': [BIG_INS],
    'group': [OPS['addg'], OPS['fillw']],
    'empty group': [OPS['addg']],
    'group2': [OPS['addg'], OPS['fillw'], OPS['addg'], OPS['fillw']],
    'link': [OPS['addl'], OPS['fillm']],
    'link of two': [OPS['addl'], OPS['fillm'], OPS['addl']],
    'link2': [OPS['addl'], OPS['insm2'], OPS['fillm'], OPS['addl'], OPS['fillm']],
    'part': [OPS['addps'], OPS['addp']],
    'quant': [OPS['insqi'], OPS['insq']],
    'big': [OPS['bigins']],
    'bigq': [OPS['bigq'], OPS['bigdel']],
}
SIZES = [70, 130, 300, 520, 700, 1030, 1300]


def history(weights, lo=5, hi=18, prelude=(), **kw):
    """Strategy of cases: (world, [ops]) with op frequencies *weights*.

    Nine of ten histories start with the *prelude* (names of PRELUDES), which
    gives the later operations something to work on.
    """
    names = [n for n, k in weights.items() for _ in range(k)]
    op = st.sampled_from(names).flatmap(lambda n: OPS[n])
    ops = st.lists(op, min_size=lo, max_size=hi)
    if prelude:
        start = [o for n in prelude for o in PRELUDES[n]]
        ops = st.tuples(st.integers(0, 9).flatmap(
            lambda k: st.just([]) if k == 9 else st.tuples(*start).map(list)), ops).map(
            lambda p: p[0] + p[1])
    return st.tuples(world_strategy(**kw), ops)


# --------------------------------------------------------------------------
# Tabular input in its various forms
# --------------------------------------------------------------------------
FAULT = None      # what to do to the next table: ('break', k) or ('corrupt', row, cell, what)
BAD_CELLS = [None, b'x', 'abc', -1, '', (), float('inf'), 10 ** 30, '1', 0, 'drop', 'add', ['x'], True]


class Broken(Exception):
    """Raised by a stream of rows that breaks off."""


def tabular(columns, rows, form, fixed=0):
    """(data, columns argument) for the table; *fixed* leading columns stay."""
    global FAULT
    data, columns = _tabular(columns, rows, form, fixed)
    if FAULT is None:
        return data, columns
    fault, FAULT = FAULT, None
    if fault[0] == 'break':
        return broken(list(data), fault[1]), columns
    data = list(data)
    first = 0 if columns is not None or isinstance(data[0], dict) else 1
    if len(data) > first:
        k = first + fault[1] % (len(data) - first)
        row, what = data[k], BAD_CELLS[fault[3] % len(BAD_CELLS)]
        if isinstance(row, dict):
            name = sorted(row)[fault[2] % len(row)]
            row = dict(row)
            if what == 'drop':
                del row[name]
            else:
                row[name] = what
        else:
            row = list(row)
            c = fault[2] % len(row)
            if what == 'drop':
                del row[c]
            elif what == 'add':
                row.insert(c, 'x')
            else:
                row[c] = what
        data[k] = row
    return iter(data), columns


def broken(rows, k):
    yield from rows[:k % (len(rows) + 1)]
    raise Broken('input breaks off')


def _tabular(columns, rows, form, fixed=0):
    columns = list(columns)
    rows = [list(r) for r in rows]
    if form >= 3:   # rotate the free columns
        order = list(range(fixed)) + list(reversed(range(fixed, len(columns))))
        columns = [columns[k] for k in order]
        rows = [[r[k] for k in order] for r in rows]
    kind = form % 3
    if kind == 0:
        return [tuple(columns)] + rows, None
    if kind == 1:
        return (r for r in rows), columns
    if not rows:
        return [tuple(columns)], None
    return [dict(zip(columns, r)) for r in rows], None


def close(a, b):
    if a is None or b is None:
        return a is b
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)


def same(a, b):
    """Equality of nested structures with tolerance for floats."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b)
    return a == b


class Skip(Exception):
    """The operation cannot be resolved in the current state."""


class Engine:
    def __init__(self, world, space=None, observe=(), rec=None):
        self.world = world
        self.files = []
        self.path = None        # file the space is bound to
        if space is None:
            if world.get('mode') == 'bind':
                self.path = self.new_path()
                space = toron.bind_file(self.path, mode='rwc')
            else:
                space = DataSpace()
        self.space = space
        self.model = Model()
        self.observe = observe
        self.rec = rec
        self.log = []
        self.setup()

    # -- setup ----------------------------------------------------------------
    def setup(self):
        cols = self.world['cols']
        self.space.add_index_columns(*cols)
        self.model.add_columns(cols, RESERVED)
        self.avals = self.world.get('avals', AVAL_SETS[0])
        self.wscale = self.world.get('wscale', 1)
        self.vals = {c: v for c, v in zip(cols, self.world['vals'])}
        self.space.set_registered_attributes(self.world['attrs'])
        self.model.attributes = list(self.world['attrs'])
        self.values = ['a', 'b', 'c']

    def new_path(self):
        fd, path = tempfile.mkstemp(suffix='.toron', dir=os.environ.get('VERIF_SCRATCH'))
        os.close(fd)
        os.unlink(path)
        self.files.append(path)
        return path

    def close(self):
        self.space = None
        for path in self.files:
            with suppress(FileNotFoundError):
                os.unlink(path)

    def event(self, label):
        if self.rec is not None:
            self.rec.event(label)

    # -- resolution helpers -------------------------------------------------------
    def value(self, col, k):
        pool = self.vals.setdefault(col, ['x', 'y', '-'])
        return pool[k % len(pool)]

    def labels(self, ks):
        m = self.model
        return tuple(self.value(c, ks[j % len(ks)]) for j, c in enumerate(m.columns))

    def some_id(self, k, missing=True):
        """An id: mostly existing, sometimes 0, sometimes missing."""
        ids = self.model.ids
        pool = ids + [0] if not missing else ids + [0, max(self.model.used_ids) + 3]
        return pool[k % len(pool)]

    def record(self, k, corrupt, undefined=True):
        """(id, labels) of a row that names a record."""
        ids = self.model.ids or [0]
        i = ids[k % len(ids)]
        if corrupt == 5:
            i = 0 if undefined and k % 2 else max(self.model.used_ids) + 1
        labels = self.model.index.get(i) or ('-',) * len(self.model.columns)
        if corrupt == 4:
            labels = ('zz?',) + labels[1:]
        return i, labels

    def criteria(self, k, mask, odd):
        m = self.model
        ids = m.ids or [0]
        labels = m.index[ids[k % len(ids)]]
        crit = {c: labels[j] for j, c in enumerate(m.columns) if mask >> (j % 3) & 1}
        if not crit:
            crit = {m.columns[0]: labels[0]}
        if odd == 5:
            crit[next(iter(crit))] = 'no such label'
        bad = {'self', 'data', 'columns', 'header', 'weight_group_name', 'space_or_ref', 'link_name'}
        if bad & set(crit):
            raise Skip
        return crit

    def group(self, k):
        """Name of a weight group, mostly of an existing one."""
        have = list(self.model.groups)
        if have and k < 3:
            return have[k % len(have)]
        return GROUPS[k]

    def source(self, k):
        return others()[k]

    def link(self, src, k):
        """(source, its id, link name), mostly of an existing link."""
        m = self.model
        if m.links and (src, k) != (1, 2):  # (src is 0 or 1 here)
            x = m.links[(src + 2 * k) % len(m.links)]
            other = [o for o in others() if o.unique_id == x['uid']][0]
            return other, x['uid'], x['name']
        return others()[src], others()[src].unique_id, LINKS[k]

    def level(self, k):
        """A mapping level: mostly a valid one, sometimes not."""
        s = sorted(self.model.structure())
        s = [b for b in s if b]
        n = len(self.model.columns)
        if k <= 3 or not s:
            return level_bytes([1] * n)
        if k <= 7:
            return level_bytes(s[k % len(s)])
        return level_bytes([1 if j or n == 1 else 0 for j in range(n)])   # maybe not accepted

    # -- running ----------------------------------------------------------------------
    def run(self, ops, after=None):
        for op in ops:
            outcome = self.step(op)
            if outcome != 'skip':
                self.check(self.observe)
                if after is not None:
                    after(self, op, outcome)

    def step(self, op, fault=None):
        """Do *op* on the space and the model: 'ok', 'refused', 'skip' or,
        if corrupt input was accepted, 'unknown'.

        A *fault* is something for `tabular`, or a pair of functions that
        make the database fail and tell if it did.
        """
        global FAULT
        try:
            model_fn, real_fn, text = getattr(self, 'op_' + op[0])(*op[1:])
        except Skip:
            self.event(f'{op[0]}: skipped')
            return 'skip'
        self.log.append(text)
        m = self.model.copy()
        m.counts.clear()
        refusal = None
        try:
            model_fn(m)
        except Refused as e:
            refusal = e
        error = None
        fired = False
        try:
            if isinstance(fault, tuple):
                FAULT = fault
                real_fn(self.space)
            elif fault is not None:
                with fault:
                    real_fn(self.space)
            else:
                real_fn(self.space)
        except HarnessError:
            raise
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, KeyboardInterrupt) and not getattr(fault, 'interrupt', False):
                raise
            error = e
        finally:
            if isinstance(fault, tuple):
                fired = FAULT is None
                FAULT = None
            elif fault is not None:
                fired = fault.fired
        if fired:
            self.log[-1] += f'   [{fault}]'
            kind = fault[0] if isinstance(fault, tuple) else 'database'
            if error is not None:
                self.event(f'{op[0]}: {kind}')
                return 'refused'
            if kind == 'break':
                raise Violation(f'{text}\nsucceeded although its input broke off\n{self.history()}')
            if kind == 'corrupt':
                return 'unknown'
        if refusal is not None and error is None:
            raise Violation(f'{text}\nwas accepted, but must be refused: {refusal}\n{self.history()}')
        if refusal is None and error is not None:
            raise Violation(f'{text}\nfailed with {type(error).__name__}: {error}\n{self.history()}') from error
        if refusal is None:
            self.adopt_ids(m)
            self.model = m
            self.event(f'{op[0]}: done')
            return 'ok'
        self.event(f'{op[0]}: refused')
        if DEBUG: self.event(f'{op[0]}: refused: {refusal}')
        return 'refused'

    def history(self):
        return 'history:\n  ' + '\n  '.join(self.log)

    def adopt_ids(self, m):
        """Let new records have whichever unused ids the code gave them."""
        new = [i for i in m.index if i not in self.model.used_ids]
        if not new:
            return
        with closing(self.space.select_index()) as rows:
            real = {tuple(r[1:]): r[0] for r in rows}
        ren = {}
        for i in new:
            j = real.get(m.index[i])
            if j is None or j == i:
                continue
            if j in self.model.used_ids:
                raise Violation(f'{self.log[-1]}\nid {j} was given to a new record '
                                f'although it was used before\n{self.history()}')
            ren[i] = j
        if ren:
            m.rename_ids(ren)

    # -- observables ------------------------------------------------------------------
    def check(self, names):
        for name in names:
            expected = getattr(self, 'want_' + name)()
            try:
                got = getattr(self, 'see_' + name)()
            except Exception as e:
                raise Violation(f'reading {name} failed with {type(e).__name__}: {e}\n{self.history()}') from e
            if not same(got, expected):
                raise Violation(f'{name} differ\n  got      {got!r}\n  expected {expected!r}\n{self.history()}')

    # index
    def see_index(self):
        rows = list(self.space.select_index(header=True))
        ids = [r[0] for r in rows[1:]]
        if len(set(ids)) != len(ids):
            raise Violation(f'ids repeated: {rows}')
        return [tuple(rows[0]), {r[0]: tuple(r[1:]) for r in rows[1:]}]

    def want_index(self):
        return [('index_id',) + tuple(self.model.columns), dict(self.model.index)]

    def see_criteria(self):
        out = []
        for crit in self.some_criteria():
            out.append((crit, sorted(r[0] for r in self.space.select_index(**crit))))
        return out

    def want_criteria(self):
        return [(c, self.model.find(c)) for c in self.some_criteria()]

    def some_criteria(self):
        m = self.model
        out = []
        n = len(m.columns)
        for i in sorted(m.index)[:4]:
            for mask in range(1, 1 << n):
                crit = {c: m.index[i][j] for j, c in enumerate(m.columns) if mask >> j & 1}
                if not set(crit) & {'self', 'header'}:
                    out.append(crit)
        out.append({'no such column': 'no such column'})
        return out

    def see_fingerprint(self):
        it = self.space.select_weights('no such group')
        return it.index_hash, self.space.max_index_id

    def want_fingerprint(self):
        return self.model.fingerprint(), max(self.model.index)

    # weights
    def _weight_rows(self, name):
        """{labels: weight} as select_weights() lists them."""
        m = self.model
        it = self.space.select_weights(name)
        cols = list(it.columns)
        out = {}
        for r in it:
            d = dict(zip(cols, r))
            require(len(r) == len(cols) and len(d) == len(cols), 'row does not fit its columns', cols, r)
            require(d['weight'] == name and (not m.domain or d['domain'] == m.domain),
                    f'weight of {name!r} listed as', d)
            key = tuple(d[c] for c in m.columns)
            require(key not in out, f'record {key} listed twice')
            out[key] = d['value']
        return out

    def see_weights(self):
        return {g.name: {k: v for k, v in self._weight_rows(g.name).items() if v is not None}
                for g in self.space.weight_groups}

    def want_weights(self):
        m = self.model
        return {n: {m.index[i]: w for i, w in g['weights'].items()} for n, g in m.groups.items()}

    def see_groups(self):
        d = self.space.get_default_weight_group()
        out = {}
        for g in self.space.weight_groups:
            if g.name in out:
                raise Violation(f'two weight groups named {g.name!r}')
            out[g.name] = (g.description, g.selectors, bool(g.is_complete))
            e = self.space.get_weight_group(g.name)
            require(e == g, 'get_weight_group() differs from weight_groups', e, g)
        return out, d.name if d else None

    def want_groups(self):
        m = self.model
        return ({n: (g['description'], g['selectors'], g['is_complete']) for n, g in m.groups.items()},
                m.default_group)

    def see_listing(self):
        """Every record is listed with its weight, or without one."""
        self.check_get_weights()
        return {g.name: self._weight_rows(g.name) for g in self.space.weight_groups}

    def check_get_weights(self):
        """The table with one column per group holds the same weights."""
        from toron.graph import get_weights
        m = self.model
        names = [g.name for g in self.space.weight_groups]
        for some in ([None] + [names[-1:], names[0]] if names else [None]):
            chosen = names if some is None else [some] if isinstance(some, str) else some
            rows = list(get_weights(self.space, some))
            dom = ['domain'] if m.domain else []
            require(rows[0] == ['index_id'] + dom + list(m.columns) + chosen, 'header of get_weights()', rows[0])
            want = sorted(([i] + ([m.domain] if dom else []) + list(m.index[i])
                           + [m.groups[g]['weights'].get(i, None if i else 0.0) for g in chosen] for i in m.index), key=lambda r: r[0])
            require(same(sorted(rows[1:], key=lambda r: r[0]), want), 'get_weights()', rows[1:], want)

    def want_listing(self):
        m = self.model
        return {n: {m.index[i]: g['weights'].get(i) for i in m.ids} for n, g in m.groups.items()}

    # links
    def see_links(self):
        out = {}
        for x in self.space.links:
            key = (x.other_unique_id, x.name)
            if key in out:
                raise Violation(f'two links {key}')
            out[key] = (bool(x.is_default), x.other_filename_hint, x.description, x.selectors,
                        x.user_properties, x.other_index_hash, bool(x.is_locally_complete))
        return out

    def want_links(self):
        return {(x['uid'], x['name']): (x['is_default'], x['hint'], x['description'], x['selectors'],
                                        x['user_properties'], x['other_index_hash'],
                                        x['is_locally_complete'])
                for x in self.model.links}

    def see_mappings(self):
        """Mappings with their proportions, through the repository."""
        out = {}
        space = self.space
        with space._managed_cursor() as cursor:
            repo = space._dal.MappingRepository(cursor)
            for x in space.links:
                d = {}
                for r in list(repo.find(link_id=x.id)):
                    key = (r.other_index_id, r.index_id, level_bytes(level_bits(r.mapping_level)))
                    if key in d:
                        raise Violation(f'mapping {key} stored twice')
                    d[key] = (r.value, r.proportion or 0.0)
                out[x.other_unique_id, x.name] = d
        return out

    def want_mappings(self):
        return {(x['uid'], x['name']): {k: (m['value'], m['proportion'] or 0.0)
                                        for k, m in x['mappings'].items()}
                for x in self.model.links}

    def see_listed(self):
        """Mappings as select_mappings() lists them."""
        out = {}
        for x in self.space.links:
            rows = list(self.space.select_mappings(x.other_unique_id, x.name, header=True))
            out[x.other_unique_id, x.name] = (tuple(rows[0]), sorted(map(repr, (self._row(r) for r in rows[1:]))))
        return out

    @staticmethod
    def _row(r):
        r = list(r)
        if r[1] is not None:
            r[1] = round(float(r[1]), 6)
        return tuple(r)

    def want_listed(self):
        m = self.model
        out = {}
        for x in m.links:
            rows = []
            for i in m.ids:
                hit = False
                for (other, j, level), v in x['mappings'].items():
                    if j == i:
                        hit = True
                        b = level_bits(level)
                        miss = [c for k, c in enumerate(m.columns) if k >= len(b) or not b[k]]
                        rows.append((other, v['value'], i) + m.index[i] + (', '.join(miss) or None,))
                if not hit:
                    rows.append((None, None, i) + m.index[i] + (None,))
            out[x['uid'], x['name']] = (
                ('other_index_id', x['name'], 'index_id') + tuple(m.columns) + ('ambiguous_fields',),
                sorted(map(repr, (self._row(r) for r in rows))))
        return out

    # the database file
    def raw(self):
        """A connection to a saved copy of the space (close it!)."""
        path = self.new_path()
        self.space.to_file(path, fsync=False)
        con = sqlite3.connect(path)
        return con

    def check_file(self, leftovers=False):
        """The stored records refer to existing ones (and are in use)."""
        with closing(self.raw()) as con:
            bad = list(con.execute('PRAGMA foreign_key_check'))
            require(not bad, 'stored records refer to missing ones', bad, self.history())
            if leftovers:
                for table, key in [('label_location', '_location_id'), ('attribute_group', 'attribute_group_id')]:
                    n = list(con.execute(f'SELECT * FROM {table} WHERE {key} NOT IN (SELECT {key} FROM quantity)'))
                    require(not n, f'{table} records are left behind', n, self.history())

    # quantities
    def _quantities(self, rows):
        rows = list(rows)
        header = list(rows[0])
        m = self.model
        out = {}
        for r in rows[1:]:
            d = dict(zip(header, r))
            if m.domain and d.get('domain') != m.domain:
                raise Violation(f'domain of a row is {d.get("domain")!r}, not {m.domain!r}')
            key = (tuple(d[c] for c in m.columns),
                   frozenset((a, d[a]) for a in header if a not in m.columns
                             and a not in ('domain', 'quantity') and d[a] is not None))
            if key in out:
                raise Violation(f'quantity {key} listed twice')
            out[key] = d['quantity']
        return header, out

    def see_quantities(self):
        """All quantities with the registered attributes (others are not listed)."""
        rows = list(self.space.select_quantities2())
        header = list(rows[0])
        m = self.model
        out = []
        for r in rows[1:]:
            d = dict(zip(header, r))
            require(len(r) == len(header), 'row does not fit its header', header, r)
            require(not m.domain or d['domain'] == m.domain, 'domain of a row', d)
            out.append((tuple(d[c] for c in m.columns), tuple(d[a] for a in m.attributes),
                        float(d['quantity'])))
        return header, sorted(map(repr, out))

    def want_quantities(self):
        m = self.model
        head = (['domain'] if m.domain else []) + list(m.columns) + list(m.attributes) + ['quantity']
        out = [(lab, tuple(dict(a).get(n) for n in m.attributes), float(q))
               for (lab, a), q in m.quantities.items()]
        return head, sorted(map(repr, out))

    def see_allquant(self):
        return self._quantities(self.space.select_quantities())[1]

    def want_allquant(self):
        return dict(self.model.quantities)

    def see_unmatched(self):
        a = list(self.space.select_unmatched_quantities(header=False))
        b = list(self.space.select_unmatched_quantities())
        require(a == b[1:], 'select_unmatched_quantities: header changes the rows', a, b)
        return (self._quantities(b)[1],
                self._quantities(self.space.select_quantities_without_index())[1])

    def want_unmatched(self):
        return dict(self.model.unmatched()), dict(self.model.without_index())

    # disaggregated results
    def choose(self, m):
        """Function that gives the weight group for a dict of attributes."""
        import p05
        cands = []
        for name, g in m.groups.items():
            if g['is_complete'] and g['selectors']:
                cands.append((name, [p05.recognize(t) for t in g['selectors']]))

        def choose(attrs):
            if m.domain:
                attrs = dict(attrs, domain=m.domain)
            best = {}
            for name, asts in cands:
                hits = [p05.specificity(a) for a in asts if p05.matches(a, attrs)]
                if hits:
                    best.setdefault(max(hits), []).append(name)
            for spec in sorted(best, reverse=True):
                if len(best[spec]) == 1:
                    return best[spec][0]
            return m.default_group
        return choose

    def read(self, reader):
        """{(labels, attributes): value} of a reader (without zeros)."""
        m = self.model
        cols = list(reader.columns)
        out = {}
        for r in reader:
            d = dict(zip(cols, r))
            require(len(r) == len(cols) == len(d), 'row does not fit its columns', cols, r)
            key = (tuple(d[c] for c in m.columns),
                   frozenset((c, v) for c, v in d.items() if c not in m.columns and c != 'value' and v is not None))
            require(key not in out, f'result {key} appears twice', self.history())
            out[key] = d['value']
        return {k: v for k, v in out.items() if v}

    def see_disagg(self):
        try:
            reader = self.space()
            rows = self.read(reader)
        except Violation:
            raise
        except Exception as e:
            self.event(f'read refused')
            return 'refused'
        self.event('read')
        return rows

    def want_disagg(self):
        m = self.model
        try:
            result = m.disaggregate(self.choose(m))
        except Refused:
            return 'refused'
        dom = {('domain', m.domain)} if m.domain else set()
        return {(m.index[i], attrs | dom): v for (i, attrs), v in result.items() if v}

    # columns, partitions
    def see_columns(self):
        return (list(self.space.index_columns), sorted(self.space.get_label_columns()),
                list(self.space.get_registered_attributes()))

    def want_columns(self):
        m = self.model
        return list(m.columns), sorted(m.columns), list(m.attributes)

    def see_display(self):
        return list(self.space.get_label_columns())

    def want_display(self):
        return list(self.model.display_order())

    def see_partitions(self):
        defs = [frozenset(d) for d in self.space.partition_definitions]
        if len(set(defs)) != len(defs):
            raise Violation(f'partitions repeated: {defs}')
        return sorted(map(sorted, defs))

    def want_partitions(self):
        return sorted(map(sorted, self.model.partitions))

    def see_structure(self):
        space = self.space
        with space._managed_cursor() as cursor:
            recs = space._dal.StructureRepository(cursor).get_all()
            names = space._dal.StructureRepository(cursor).get_label_names()
        require(names == list(self.model.columns), 'structure columns', names)
        out = {}
        for r in recs:
            b = bits_of(r.bits)
            if b in out:
                raise Violation(f'structure {b} listed twice')
            out[b] = r.granularity
        order = [-math.inf if r.granularity is None else r.granularity for r in recs]
        if order != sorted(order, reverse=True):
            raise Violation(f'structures are not sorted by granularity: {recs}')
        return out

    def want_structure(self):
        m = self.model
        return {b: m.granularity([c for c, x in zip(m.columns, b) if x]) for b in m.structure()}

    def see_domain(self):
        return self.space.domain

    def want_domain(self):
        return self.model.domain

    # -- operations: index ---------------------------------------------------------------
    def _weights(self, codes, groups):
        out = {}
        for g, c in zip(groups, codes):
            out[g] = '' if c == 10 else -1.0 if c == 11 else WEIGHTS[c] * self.wscale
        return out

    def _weights_argument(self, which, groups, kw):
        """Groups that are loaded, according to the argument *weights*."""
        if which < 4 or not groups:
            return groups
        chosen = [groups[:1], groups[-1:], groups, []][which - 4]
        kw['weights'] = chosen[0] if which == 4 else chosen
        return chosen

    def op_ins(self, rows, onl, onw, form, which):
        m = self.model
        if set(m.columns) & set(m.groups):
            raise Skip
        groups = list(m.groups)[:2]
        onl, onw = ['abort', 'ignore', 'replace'][onl], ['abort', 'ignore', 'replace'][onw]
        resolved = []
        for ks, codes in rows:
            ws = self._weights([c if c < 10 or codes[0] > 5 else 0 for c in codes], groups)
            resolved.append(('', self.labels(ks), ws))
        cols = list(m.columns) + groups
        data = [list(lab) + [ws[g] for g in groups] for _, lab, ws in resolved]
        kw = dict(on_label_conflict=onl, on_weight_conflict=onw)
        chosen = self._weights_argument(which, groups, kw)
        modelled = [(i, lab, {g: ws[g] for g in chosen}) for i, lab, ws in resolved]

        def real(space):
            d, c = tabular(cols, data, form)
            space.insert_index(d, c, **kw)
        return (lambda mm: mm.insert_index(modelled, False, chosen, onl, onw, kw.get('weights')), real,
                f'insert_index({[cols] + data}, {kw})')

    def op_insid(self, rows, onl, onw, form, which):
        m = self.model
        if set(m.columns) & set(m.groups):
            raise Skip
        groups = list(m.groups)[:2]
        onl, onw = ['abort', 'ignore', 'replace'][onl], ['abort', 'ignore', 'replace'][onw]
        resolved = []
        for k, ks, how, codes in rows:
            ws = self._weights([c if c < 10 or how > 3 else 0 for c in codes], groups)
            i, lab = self.record(k, how if how >= 5 else 0)
            if how >= 2:
                lab = self.labels(ks)
            rid = i
            if how == 3:
                rid = ''
            if how == 1:
                rid = str(i)
            resolved.append((rid, lab, ws))
        cols = ['index_id'] + list(m.columns) + groups
        data = [[rid] + list(lab) + [ws[g] for g in groups] for rid, lab, ws in resolved]
        kw = dict(on_label_conflict=onl, on_weight_conflict=onw)
        chosen = self._weights_argument(which, groups, kw)
        modelled = [(int(r) if r != '' else '', lab, {g: ws[g] for g in chosen}) for r, lab, ws in resolved]
        if which == 3:    # records are given by their ids alone
            cols = ['index_id'] + groups
            data = [[r] + [ws[g] for g in groups] for r, _, ws in resolved]
            modelled = [(i, (), ws) for i, _, ws in modelled]

        def real(space):
            d, c = tabular(cols, data, form)
            space.insert_index(d, c, **kw)
        return (lambda mm: mm.insert_index(modelled, True, chosen, onl, onw, kw.get('weights')), real,
                f'insert_index({[cols] + data}, {kw})')

    def op_upd(self, rows, merge, form):
        m = self.model
        resolved = []
        for k, ks, how in rows:
            i, lab = self.record(k, 5 if how == 9 else 0)
            if how >= 2:
                lab = self.labels(ks)
            if how == 1:    # labels of another record: provokes a merge
                ids = m.ids or [0]
                lab = m.index[ids[(k + ks[0] + 1) % len(ids)]] or lab
            if how == 8:
                lab = ('',) + lab[1:]
            resolved.append((i, lab))
        cols = ['index_id'] + list(m.columns)
        data = [[i] + list(lab) for i, lab in resolved]

        def real(space):
            d, c = tabular(cols, data, form)
            space.update_index(d, c, merge_on_conflict=bool(merge))
        return (lambda mm: mm.update_index(resolved, bool(merge)), real,
                f'update_index({[cols] + data}, merge_on_conflict={bool(merge)})')

    def op_delr(self, rows, form):
        m = self.model
        resolved = [self.record(k, c) for k, c in rows]
        cols = ['index_id'] + list(m.columns)
        data = [[i] + list(lab) for i, lab in resolved]

        def real(space):
            d, c = tabular(cols, data, form)
            space.delete_index(d, c)
        return lambda mm: mm.delete_index_rows(resolved), real, f'delete_index({[cols] + data})'

    def op_delc(self, k, mask, odd):
        crit = self.criteria(k, mask, odd)
        return (lambda mm: mm.delete_index_criteria(crit), lambda s: s.delete_index(**crit),
                f'delete_index(**{crit})')

    # -- operations: weights ----------------------------------------------------------------
    def op_addg(self, k, sel, complete, default):
        name = GROUPS[k]
        if name in self.model.columns:
            raise Skip
        default = [None, True, False][default]
        desc = [None, 'text', "it's"][sel % 3]
        kw = dict(description=desc, selectors=SELECTORS[sel], make_default=default)
        return (lambda mm: mm.add_group(name, desc, SELECTORS[sel], False, default),
                lambda s: s.add_weight_group(name, **kw), f'add_weight_group({name!r}, {kw})')

    def op_editg(self, k, what, j):
        name = self.group(k)
        changes = [{'description': 'new %d' % j}, {'selectors': SELECTORS[j % 3]},
                   {'name': GROUPS[j]}, {'description': None, 'selectors': ['[x]']}][what]
        return (lambda mm: mm.edit_group(name, changes),
                lambda s: s.edit_weight_group(name, **changes), f'edit_weight_group({name!r}, {changes})')

    def op_dropg(self, k):
        name = self.group(k)
        return lambda mm: mm.drop_group(name), lambda s: s.drop_weight_group(name), f'drop_weight_group({name!r})'

    def op_setdef(self, k):
        name = self.group(k)
        if name not in self.model.groups:
            raise Skip
        return (lambda mm: mm.set_default(name),
                lambda s: s.set_default_weight_group(s.get_weight_group(name)),
                f'set_default_weight_group({name!r})')

    def op_insw(self, k, rows, with_id, conflict, form):
        m = self.model
        name = self.group(k)
        conflict = ['abort', 'ignore', 'replace', 'sum'][conflict]
        resolved = []
        for j, code, corrupt in rows:
            i, lab = self.record(j, corrupt)
            v = ([w * self.wscale for w in WEIGHTS + WEIGHTS[:2]] + [-1, 'abc', '2.5', float('nan')])[code]
            resolved.append((i if with_id else None, lab, v))
        vcol = name if form % 2 else 'the value'
        if vcol in m.columns:
            raise Skip
        cols = (['index_id'] if with_id else []) + list(m.columns) + [vcol]
        data = [([i] if with_id else []) + list(lab) + [v] for i, lab, v in resolved]
        kw = dict(on_conflict=conflict)
        if vcol != name:
            kw['value_column'] = vcol

        def real(space):
            d, c = tabular(cols, data, form)
            space.insert_weights(name, d, c, **kw)
        return (lambda mm: mm.insert_weights(name, resolved, conflict), real,
                f'insert_weights({name!r}, {[cols] + data}, {kw})')

    def op_fillw(self, k, seed, form):
        """Load a weight for every record that has none."""
        m = self.model
        name = self.group(k)
        have = m.groups[name]['weights'] if name in m.groups else {}
        todo = [i for i in m.ids if i not in have]
        if not todo or name in m.columns:
            raise Skip
        resolved = [(None, m.index[i], WEIGHTS[(seed + j) % len(WEIGHTS)] * self.wscale) for j, i in enumerate(todo)]
        cols = list(m.columns) + [name]
        data = [list(lab) + [v] for _, lab, v in resolved]

        def real(space):
            d, c = tabular(cols, data, form)
            space.insert_weights(name, d, c)
        return (lambda mm: mm.insert_weights(name, resolved, 'abort'), real,
                f'insert_weights({name!r}, {[cols] + data})')

    def op_updw(self, k, rows, form):
        m = self.model
        name = self.group(k)
        if name in m.columns:
            raise Skip
        resolved = []
        for j, code, corrupt in rows:
            i, lab = self.record(j, corrupt)
            resolved.append((i, lab, -1.0 if code == 11 else WEIGHTS[code % 10] * self.wscale))
        cols = ['index_id'] + list(m.columns) + [name]
        data = [[i] + list(lab) + [v] for i, lab, v in resolved]

        def real(space):
            d, c = tabular(cols, data, form)
            space.update_weights(name, d, c)
        return lambda mm: mm.update_weights(name, resolved), real, f'update_weights({name!r}, {[cols] + data})'

    def op_delwr(self, k, rows, form):
        m = self.model
        name = self.group(k)
        resolved = [self.record(j, c) for j, c in rows]
        cols = ['index_id'] + list(m.columns)
        data = [[i] + list(lab) for i, lab in resolved]

        def real(space):
            d, c = tabular(cols, data, form)
            space.delete_weights(name, d, c)
        return lambda mm: mm.delete_weights_rows(name, resolved), real, f'delete_weights({name!r}, {[cols] + data})'

    def op_delwc(self, k, j, mask, odd):
        name = self.group(k)
        crit = self.criteria(j, mask, odd)
        return (lambda mm: mm.delete_weights_criteria(name, crit),
                lambda s: s.delete_weights(name, **crit), f'delete_weights({name!r}, **{crit})')

    # -- operations: links --------------------------------------------------------------------
    def op_addl(self, src, k, default, extra):
        other = self.source(src)
        uid = other.unique_id
        default = [None, True, False][default]
        kw = [{}, {'selectors': ['[attr]'], 'description': "it's"},
              {'other_filename_hint': HINTS[extra - 2], 'user_properties': {'a': [1, 'x']}}][min(extra, 2)]
        name = LINKS[k]
        model_kw = dict(kw)
        if 'other_filename_hint' in model_kw:
            model_kw['hint'] = model_kw.pop('other_filename_hint')
        return (lambda mm: mm.add_link(uid, name, default, **model_kw),
                lambda s: s.add_link(other, name, is_default=default, **kw),
                f'add_link(<{src}>, {name!r}, is_default={default}, {kw})')

    def op_editl(self, src, k, what, j):
        other, uid, name = self.link(src, k)
        changes = [{'name': LINKS[j % 3]}, {'is_default': True}, {'is_default': False},
                   {'description': 'd%d' % j, 'selectors': SELECTORS[j % 3]},
                   {'other_filename_hint': HINTS[j]}][what]
        model_changes = dict(changes)
        if 'other_filename_hint' in model_changes:
            model_changes['hint'] = model_changes.pop('other_filename_hint')
        return (lambda mm: mm.edit_link(uid, name, model_changes),
                lambda s: s.edit_link(other, name, **changes), f'edit_link(<{src}>, {name!r}, {changes})')

    def op_dropl(self, src, k):
        other, uid, name = self.link(src, k)
        return lambda mm: mm.drop_link(uid, name), lambda s: s.drop_link(other, name), f'drop_link(<{src}>, {name!r})'

    def op_insm2(self, src, k, rows, form):
        other, uid, name = self.link(src, k)
        resolved = []
        for o, j, lev, v in rows:
            i = self.some_id(j, missing=False) if v == 9 else (self.model.ids or [0])[j % (len(self.model.ids) or 1)]
            if o == 0 and i == 0:
                continue
            resolved.append((o, i, self.level(lev), VALUES[v]))
        cols = ['other_index_id', 'index_id', 'mapping_level', name]

        def real(space):
            data, columns = tabular(cols, resolved, form)
            space.insert_mappings2(other, name, data, *([columns] if columns else []))
        return (lambda mm: mm.insert_mappings2(uid, name, resolved), real,
                f'insert_mappings2(<{src}>, {name!r}, {[cols] + resolved})')

    def op_fillm(self, src, k, seed):
        """Map a source record to every record that has no mapping yet."""
        m = self.model
        other, uid, name = self.link(src, k)
        try:
            link = m.link(uid, name)
        except Refused:
            raise Skip
        have = {x[1] for x in link['mappings']}
        todo = [i for i in m.ids if i not in have]
        if not todo:
            raise Skip
        n = len(m.columns)
        rows = [(1 + (seed + j) % 3, i, level_bytes([1] * n), VALUES[(seed + j) % 8]) for j, i in enumerate(todo)]
        return (lambda mm: mm.insert_mappings2(uid, name, rows),
                lambda s: s.insert_mappings2(other, name, [['other_index_id', 'index_id', 'mapping_level', name]]
                                             + [list(r) for r in rows]),
                f'insert_mappings2(<{src}>, {name!r}, {rows})')

    def _mapping_rows(self, rows):
        out = []
        for o, j, lev, v, corrupt in rows:
            i, lab = self.record(j, corrupt if corrupt != 5 or j % 4 == 0 else 0)
            if o == 0 and i == 0:
                continue
            out.append((o, VALUES[v], i, lab, self.level(lev)))
        return out

    def _mapping_cols(self, name):
        return ['other_index_id', name, 'index_id'] + list(self.model.columns) + ['mapping_level']

    def op_insm(self, src, k, rows, form):
        other, uid, name = self.link(src, k)
        resolved = self._mapping_rows(rows)
        if not resolved or name in self.model.columns:
            raise Skip
        cols = self._mapping_cols(name)
        data = [[o, v, i] + list(lab) + [lev] for o, v, i, lab, lev in resolved]

        def real(space):
            d, c = tabular(cols, data, form, fixed=3)
            space.insert_mappings(other, name, d, c)
        return (lambda mm: mm.insert_mappings(uid, name, resolved), real,
                f'insert_mappings(<{src}>, {name!r}, {[cols] + data})')

    def op_updm(self, src, k, rows, form):
        other, uid, name = self.link(src, k)
        resolved = self._mapping_rows(rows)
        try:
            link = self.model.link(uid, name)
        except Refused:
            link = {'mappings': {}}
        # A row that fits several mappings would be ambiguous.
        count = {}
        for key in link['mappings']:
            count[key[:2]] = count.get(key[:2], 0) + 1
        resolved = [r for r in resolved if count.get((r[0], r[2]), 0) < 2]
        if not resolved or name in self.model.columns:
            raise Skip
        cols = self._mapping_cols(name)
        data = [[o, v, i] + list(lab) + [lev] for o, v, i, lab, lev in resolved]

        def real(space):
            d, c = tabular(cols, data, form, fixed=3)
            space.update_mappings(other, name, d, c)
        return (lambda mm: mm.update_mappings(uid, name, resolved), real,
                f'update_mappings(<{src}>, {name!r}, {[cols] + data})')

    def op_delmr(self, src, k, rows, form):
        other, uid, name = self.link(src, k)
        m = self.model
        try:
            link = m.link(uid, name)
        except Refused:
            raise Skip
        count = {}
        for key in link['mappings']:
            count[key[:2]] = count.get(key[:2], 0) + 1
        keys = sorted(link['mappings'])
        resolved = []
        for j, corrupt in rows:
            if not keys:
                break
            o, i, lev = keys[j % len(keys)]
            if count[o, i] > 1:
                continue
            v = link['mappings'][o, i, lev]['value']
            lab = m.index[i]
            if corrupt == 5:
                v += [1, 1e-3, 2.0 ** -20][j % 3]
            if corrupt == 4:
                lab = ('zz?',) + lab[1:]
            if corrupt == 3:
                o = 77
            resolved.append((o, v, i, lab))
        if not resolved or name in m.columns:
            raise Skip
        cols = ['other_index_id', name, 'index_id'] + list(m.columns)
        data = [[o, v, i] + list(lab) for o, v, i, lab in resolved]

        def real(space):
            d, c = tabular(cols, data, form, fixed=3)
            space.delete_mappings(other, name, d, c)
        return (lambda mm: mm.delete_mappings_rows(uid, name, resolved), real,
                f'delete_mappings(<{src}>, {name!r}, {[cols] + data})')

    def op_delmc(self, src, k, j, mask, odd):
        other, uid, name = self.link(src, k)
        crit = self.criteria(j, mask, odd)
        return (lambda mm: mm.delete_mappings_criteria(uid, name, crit),
                lambda s: s.delete_mappings(other, name, **crit),
                f'delete_mappings(<{src}>, {name!r}, **{crit})')

    def op_reify(self, src, k, j, mask, odd):
        other, uid, name = self.link(src, k)
        crit = self.criteria(j, mask, odd) if mask else {}
        return (lambda mm: mm.reify(uid, name, crit),
                lambda s: s.reify_mappings(other, name, **crit), f'reify_mappings(<{src}>, {name!r}, **{crit})')

    # -- operations: quantities ----------------------------------------------------------------
    def op_attrs(self, ks, odd):
        pool = list(dict.fromkeys(self.world['attrs'] + ATTR_POOL[:3]))
        names = [pool[k % len(pool)] for k in ks]
        if odd == 9:
            names[-1] = 'domain'
        if odd == 8:
            names[-1] = self.model.columns[0]
        return (lambda mm: mm.set_attributes(names, RESERVED),
                lambda s: s.set_registered_attributes(names), f'set_registered_attributes({names})')

    def _attr_dict(self, ks):
        return {a: ([''] + self.avals)[ks[j % 2]] for j, a in enumerate(self.model.attributes)}

    def _q_value(self, k):
        return (VALUES + ['no number', 3.5])[k] if k < 12 else 1

    def _insert_quantities(self, resolved, allow, on_existing, form, domain_col):
        m = self.model
        vcol = 'the value'
        cols = (['domain'] if domain_col is not None else []) + list(m.columns) + list(m.attributes) + [vcol]
        # (the last row only has a domain that differs)
        in_row = [domain_col if n == len(resolved) - 1 else m.domain for n in range(len(resolved))]
        data = [([d] if domain_col is not None else []) + list(lab)
                + [attrs[a] for a in m.attributes] + [v] for d, (lab, attrs, v) in zip(in_row, resolved)]
        if len(set(cols)) != len(cols):
            raise Skip
        kw = dict(allow_invalid_label=bool(allow & 1), allow_invalid_partition=bool(allow & 2),
                  on_existing=on_existing)
        rows = [(None if domain_col is None else d, lab, attrs, v) for d, (lab, attrs, v) in zip(in_row, resolved)]

        def real(space):
            d, c = tabular(cols, data, form)
            space.insert_quantities2(value_column=vcol, data=d, columns=c, **kw)
        return (lambda mm: mm.insert_quantities(rows, bool(allow & 1), bool(allow & 2), on_existing), real,
                f'insert_quantities2({[cols] + data}, {kw})')

    def op_insq(self, rows, allow, on_existing, dom, form):
        m = self.model
        on_existing = ['abort', 'ignore', 'replace', 'sum'][on_existing]
        resolved = []
        for ks, mask, attrs, v in rows:
            lab = self.labels(ks)
            if mask == 15 and allow:
                lab = ('nowhere',) + lab[1:]
            lab = tuple(x if mask >> (j % 3) & 1 else '' for j, x in enumerate(lab))
            resolved.append((lab, self._attr_dict(attrs), self._q_value(v if v != 10 or mask > 12 else 0)))
        domain_col = None
        if dom == 1 or (dom == 2 and allow == 1):
            domain_col = m.domain
        elif dom == 3 and allow == 3:
            domain_col = ['elsewhere', '', m.domain + ' ', m.domain.swapcase()][rows[0][1] % 4]
        return self._insert_quantities(resolved, allow, on_existing, form, domain_col)

    def op_insqi(self, rows, on_existing, form):
        """Quantities at the labels of records, blanked to fit a partition."""
        m = self.model
        on_existing = ['abort', 'ignore', 'replace', 'sum'][on_existing]
        struct = sorted(m.structure())
        ids = m.ids or [0]
        resolved = []
        for k, s, attrs, v in rows:
            b = struct[s % len(struct)]
            lab = m.index[ids[k % len(ids)]]
            lab = tuple(x if j < len(b) and b[j] else '' for j, x in enumerate(lab))
            if attrs == [0, 0]:
                attrs = [1, 0]
            resolved.append((lab, self._attr_dict(attrs), VALUES[v % 10]))
        return self._insert_quantities(resolved, 0, on_existing, form, None)

    def op_delnoidx(self):
        def model(mm):
            for k in list(mm.without_index()):
                del mm.quantities[k]
        return model, lambda s: s.delete_quantities_without_index(), 'delete_quantities_without_index()'

    def op_delunm(self):
        def model(mm):
            for k in list(mm.unmatched()):
                del mm.quantities[k]
        return model, lambda s: s.delete_unmatched_quantities(), 'delete_unmatched_quantities()'

    def op_domain(self, k):
        d = ['dom', 'd o', "d'", 'ü'][k]

        def model(mm):
            mm.domain = d
        return model, lambda s: s.set_domain(d), f'set_domain({d!r})'

    # -- operations: columns and partitions -----------------------------------------------------
    def _new_name(self, k, odd):
        m = self.model
        if odd == 9:
            return sorted(RESERVED)[k % len(RESERVED)]
        if odd == 8:
            return m.columns[k % len(m.columns)]
        if odd == 7 and m.attributes:
            return m.attributes[k % len(m.attributes)]
        return COLUMN_POOL[k % len(COLUMN_POOL)]

    def op_addc(self, ks, odd):
        m = self.model
        names = [self._new_name(k, odd if j == 0 else 0) for j, k in enumerate(ks)]
        if len(m.columns) + len(names) > 5:
            raise Skip
        return (lambda mm: mm.add_columns(names, RESERVED),
                lambda s: s.add_index_columns(*names), f'add_index_columns(*{names})')

    def op_renc(self, pairs, odd):
        m = self.model
        mapping = {}
        for c, k in pairs:
            mapping[m.columns[c % len(m.columns)]] = self._new_name(k, odd)
        if odd in (1, 2):
            return (lambda mm: mm.rename_columns(mapping, RESERVED),
                    lambda s: legacy_rename_labels(s, mapping), f'legacy_rename_labels(space, {mapping})')
        return (lambda mm: mm.rename_columns(mapping, RESERVED),
                lambda s: s.rename_index_columns(mapping), f'rename_index_columns({mapping})')

    def op_ren1(self, c, k, odd):
        m = self.model
        old = m.columns[c % len(m.columns)] if odd != 6 else 'no such column'
        new = self._new_name(k, odd)
        return (lambda mm: mm.rename_columns({old: new}, RESERVED),
                lambda s: s.rename_label_column(old, new), f'rename_label_column({old!r}, {new!r})')

    def op_dropc(self, ks, odd):
        m = self.model
        names = list(dict.fromkeys(m.columns[k % len(m.columns)] for k in ks))
        if odd == 9:
            names = list(m.columns)
        if any(x['mappings'] for x in m.links):
            raise Skip    # mapping levels of the remaining columns are not specified
        if odd in (1, 2):
            return (lambda mm: mm.drop_columns(names, RESERVED),
                    lambda s: legacy_drop_labels(s, *names), f'legacy_drop_labels(space, *{names})')
        return (lambda mm: mm.drop_columns(names, RESERVED),
                lambda s: s.drop_index_columns(*names), f'drop_index_columns(*{names})')

    def op_ordc(self, c, offset):
        m = self.model
        name = m.columns[c % len(m.columns)]
        return (lambda mm: mm.move_label(name, offset),
                lambda s: s.change_label_order(name, offset), f'change_label_order({name!r}, {offset})')

    def op_orda(self, a, offset):
        m = self.model
        if not m.attributes:
            raise Skip
        name = m.attributes[a % len(m.attributes)]
        return (lambda mm: mm.move_attribute(name, offset),
                lambda s: s.change_attribute_order(name, offset), f'change_attribute_order({name!r}, {offset})')

    def _subset(self, mask):
        return {c for j, c in enumerate(self.model.columns) if mask >> j & 1}

    def op_addp(self, mask, odd):
        d = self._subset(mask)
        if odd == 9:
            d.add('no such column')
        return (lambda mm: mm.add_partition(d), lambda s: s.add_partition_definition(set(d)),
                f'add_partition_definition({sorted(d)})')

    def op_addps(self, masks):
        ds = [self._subset(x) for x in masks]
        return (lambda mm: mm.add_partitions(ds), lambda s: s.add_partition_definitions(*[set(d) for d in ds]),
                f'add_partition_definitions(*{[sorted(d) for d in ds]})')

    def op_dropp(self, masks):
        ds = [self._subset(x) for x in masks]
        return (lambda mm: mm.drop_partitions(ds), lambda s: s.drop_partition_definitions(*[set(d) for d in ds]),
                f'drop_partition_definitions(*{[sorted(d) for d in ds]})')

    def op_drope(self, k):
        """Drop a partition that exists."""
        defs = sorted(map(sorted, self.model.partitions - {frozenset(self.model.columns)}))
        if not defs:
            raise Skip
        d = set(defs[k % len(defs)])
        return (lambda mm: mm.drop_partitions([d]), lambda s: s.drop_partition_definitions(d),
                f'drop_partition_definitions({sorted(d)})')

    # -- operations: the space as a whole ----------------------------------------------------------
    # -- operations: many records at once ----------------------------------------------
    def op_bigins(self, size, seed, form):
        m = self.model
        n = SIZES[size]
        if len(m.index) + n > 3000:
            raise Skip
        rows = [tuple([f'{c}{j}' if k == 0 else f'{(j + seed) % (5 + k)}' for k, c in enumerate(m.columns)])
                for j in range(seed, seed + n)]
        cols = list(m.columns)

        def real(space):
            d, c = tabular(cols, [list(r) for r in rows], form)
            space.insert_index(d, c, on_label_conflict='ignore')
        return (lambda mm: mm.insert_index([('', r, {}) for r in rows], False, [], 'ignore', 'abort'), real,
                f'insert_index(<{n} records from number {seed}>)')

    def op_bigupd(self, how, step, form):
        m = self.model
        ids = m.ids
        if len(ids) < 50:
            raise Skip
        if how == 0:      # new labels for most records
            rows = [(i, ('n' + m.index[i][0],) + m.index[i][1:]) for j, i in enumerate(ids) if j % (step + 1)]
        elif how == 1:    # merge records into others
            rows = [(i, m.index[ids[j - 1]]) for j, i in enumerate(ids) if j % (step + 1) == step]
        else:             # the labels of the last columns become the same
            rows = [(i, m.index[i][:-1] + ('same',)) for i in ids[step:]]
            if len(m.columns) == 1:
                raise Skip
        cols = ['index_id'] + list(m.columns)

        def real(space):
            d, c = tabular(cols, [[i] + list(lab) for i, lab in rows], form)
            space.update_index(d, c, merge_on_conflict=True)
        return (lambda mm: mm.update_index(rows, True), real,
                f'update_index(<{len(rows)} records, {how}, {step}>, merge_on_conflict=True)')

    def _every(self, step, first=0):
        ids = self.model.ids
        if len(ids) < 50:
            raise Skip
        return ids[first % step::step]

    def op_bigdel(self, step, first, form):
        m = self.model
        rows = [(i, m.index[i]) for i in self._every(step, first)]
        cols = ['index_id'] + list(m.columns)

        def real(space):
            d, c = tabular(cols, [[i] + list(lab) for i, lab in rows], form)
            space.delete_index(d, c)
        return lambda mm: mm.delete_index_rows(rows), real, f'delete_index(<every {step}th record from {first}>)'

    def op_bigdelc(self, k):
        m = self.model
        ids = m.ids
        if len(ids) < 50 or len(m.columns) == 1:
            raise Skip
        crit = {m.columns[-1]: m.index[ids[-1 - k]][-1]}
        if {'self', 'data', 'columns'} & set(crit):
            raise Skip
        return (lambda mm: mm.delete_index_criteria(crit), lambda s: s.delete_index(**crit), f'delete_index(**{crit})')

    def op_bigw(self, k, seed, form):
        m = self.model
        name = self.group(k)
        if name in m.columns or name not in m.groups:
            raise Skip
        rows = [(i, m.index[i], WEIGHTS[(seed + j) % len(WEIGHTS)]) for j, i in enumerate(self._every(1))]
        cols = ['index_id'] + list(m.columns) + [name]

        def real(space):
            d, c = tabular(cols, [[i] + list(lab) + [w] for i, lab, w in rows], form)
            space.update_weights(name, d, c)
        return lambda mm: mm.update_weights(name, rows), real, f'update_weights({name!r}, <every record, {seed}>)'

    def op_bigdelw(self, k, step, form):
        m = self.model
        name = self.group(k)
        rows = [(i, m.index[i]) for i in self._every(step)]
        cols = ['index_id'] + list(m.columns)

        def real(space):
            d, c = tabular(cols, [[i] + list(lab) for i, lab in rows], form)
            space.delete_weights(name, d, c)
        return lambda mm: mm.delete_weights_rows(name, rows), real, f'delete_weights({name!r}, <every {step}th record>)'

    def _big_link(self, src, k):
        other, uid, name = self.link(src, k)
        try:
            return other, uid, name, self.model.link(uid, name)
        except Refused:
            raise Skip

    def op_bigm(self, src, k, seed, form):
        m = self.model
        other, uid, name, link = self._big_link(src, k)
        if len(link['mappings']) > 4000:
            raise Skip
        whole = m.whole()
        rows = [(o, i, whole, VALUES[(seed + j) % 10]) for j, i in enumerate(self._every(1))
                for o in (1 + (j * 7) % (40 + seed), 50 + j % 3) if (o, i, whole) not in link['mappings']]
        if not rows:
            raise Skip
        cols = ['other_index_id', 'index_id', 'mapping_level', name]

        def real(space):
            d, c = tabular(cols, [list(r) for r in rows], form)
            space.insert_mappings2(other, name, d, *([c] if c else []))
        return (lambda mm: mm.insert_mappings2(uid, name, rows), real,
                f'insert_mappings2(<{src}>, {name!r}, <{len(rows)} mappings of every record, {seed}>)')

    def op_bigupdm(self, src, k, seed, form):
        m = self.model
        other, uid, name, link = self._big_link(src, k)
        whole = m.whole()
        keys = [x for x in sorted(link['mappings']) if x[2] == whole and x[1]]
        if len(keys) < 50 or name in m.columns:
            raise Skip
        rows = [(o, VALUES[(seed + j) % 10], i, m.index[i], lev) for j, (o, i, lev) in enumerate(keys)]

        def real(space):
            d, c = tabular(self._mapping_cols(name), [[o, v, i] + list(lab) + [lev] for o, v, i, lab, lev in rows], form, 3)
            space.update_mappings(other, name, d, c)
        return (lambda mm: mm.update_mappings(uid, name, rows), real,
                f'update_mappings(<{src}>, {name!r}, <{len(rows)} mappings, {seed}>)')

    def op_bigdelm(self, src, k, step, form):
        m = self.model
        other, uid, name, link = self._big_link(src, k)
        whole = m.whole()
        count = {}
        for key in link['mappings']:
            count[key[:2]] = count.get(key[:2], 0) + 1
        keys = [x for x in sorted(link['mappings']) if x[2] == whole and x[1] and count[x[:2]] == 1][::step]
        if len(keys) < 20 or name in m.columns:
            raise Skip
        rows = [(o, link['mappings'][o, i, lev]['value'], i, m.index[i]) for o, i, lev in keys]
        cols = ['other_index_id', name, 'index_id'] + list(m.columns)

        def real(space):
            d, c = tabular(cols, [[o, v, i] + list(lab) for o, v, i, lab in rows], form, 3)
            space.delete_mappings(other, name, d, c)
        return (lambda mm: mm.delete_mappings_rows(uid, name, rows), real,
                f'delete_mappings(<{src}>, {name!r}, <{len(rows)} mappings, every {step}th>)')

    def op_bigq(self, on_existing, s, seed, form):
        m = self.model
        struct = [b for b in sorted(m.structure()) if any(b)]
        if not struct or len(m.quantities) > 4000:
            raise Skip
        b = struct[-1 - s % len(struct)]
        resolved = []
        for j, i in enumerate(self._every(1)):
            lab = tuple(x if n < len(b) and b[n] else '' for n, x in enumerate(m.index[i]))
            if any(lab):
                resolved.append((lab, self._attr_dict([1 + (seed + j) % 2, seed % 2]), VALUES[(seed + j) % 10]))
        if not resolved:
            raise Skip
        rules = ['sum', 'sum', 'replace', 'ignore']
        made = self._insert_quantities(resolved, 0, rules[on_existing], form, None)
        return made[0], made[1], f'insert_quantities2(<{len(resolved)} at {b}, {rules[on_existing]}, {seed}>)'

    def op_reload(self, how):
        def real(space):
            uid = space.unique_id
            if how == 2 and self.path:
                self.space = None
                del space
                self.space = toron.bind_file(self.path, mode='rw')
            else:
                path = self.new_path()
                space.to_file(path, fsync=False)
                if how == 0:
                    self.path = None
                    self.space = toron.read_file(path)
                else:
                    self.path = path
                    self.space = toron.bind_file(path, mode='rw')
            require(self.space.unique_id == uid, 'unique_id changed', uid, self.space.unique_id)
        return lambda mm: None, real, ['read from file', 'bound to file', 'bound again'][how]


def history_sub(name, weights, observe, key, need, quick, thorough, prelude=(), extra=None, after=None,
                lo=5, hi=18, **kw):
    """Sub running histories.

    A case is non-trivial if at least *need* operations of those named in
    *key* succeeded.  extra(engine, rec) runs at the end of a history,
    after(engine, op, outcome) after every operation.
    """
    def run(case, rec):
        world, ops = case
        done = [0]

        def hook(engine, op, outcome):
            if outcome == 'ok' and op[0] in key:
                done[0] += 1
            if after is not None:
                after(engine, op, outcome)
        with closing(Engine(world, observe=observe, rec=rec)) as e:
            rec.event('mode: ' + world.get('mode', 'mem'))
            e.run(ops, hook)
            if extra is not None:
                extra(e, rec)
        if extra is not None and not key:
            return    # (decided by extra)
        if done[0] >= need:
            rec.nontrivial()
    return Sub(name, lambda: history(weights, lo, hi, prelude=prelude, **kw), run, quick, thorough)
