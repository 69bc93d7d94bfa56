"""P17: spaces in memory, cached on drive, saved and loaded, or bound to a file are twins."""
import os
import pathlib
import shutil
import tempfile
from contextlib import closing

from hypothesis import strategies as st

import toron
from engine import OPS, Engine, history, same
from harness import Violation, require
from harness import Sub
from p16 import NAMES as ALL, WEIGHTS as OP_WEIGHTS

PROPERTY = 'P17'
RULE = 'non-trivial: at least one twin was saved and opened again before a later operation that succeeded'
ASSUMPTIONS = ['one process uses a file at a time', 'the file system is the one of the sandbox']

WEIGHTS = {k: v for k, v in OP_WEIGHTS.items() if k != 'reload'}
FILE_NAMES = ['plain.toron', 'a b.toron', 'a%20b.toron', 'x?y.toron', 'x#y.toron', "it's.toron", 'ünï.toron',
              'a&mode=ro.toron', '.hidden', 'no_ext', '{x}', 'a;b.toron', '-n.toron', ' lead.toron', 'x\ny.toron',
              '~t.toron', '$HOME.toron', 'dir with?#%/z.toron', 'file:x.toron', 'a\\b.toron', ':memory:', 'x.temp',
              'UPPER.TORON', '日本/日本.toron', 'a' * 100]
OBSERVED = ['index', 'weights', 'groups', 'listing', 'links', 'mappings', 'listed', 'quantities', 'allquant', 'columns',
            'display', 'partitions', 'domain', 'disagg', 'unmatched', 'fingerprint', 'structure']
VOLATILE = {'unique_id', 'created_date'}


def strategy():
    names = [n for n, k in WEIGHTS.items() for _ in range(k)]
    switch = st.tuples(st.just('switch'), st.integers(0, 2), st.integers(0, 6), st.integers(0, 24), st.integers(0, 3))
    op_only = st.sampled_from(names).flatmap(lambda n: OPS[n])
    op = st.integers(0, 3).flatmap(lambda k: switch if k == 0 else op_only)
    return st.tuples(history(WEIGHTS, 0, 3, prelude=['index', 'group', 'link', 'part', 'quant']),
                     st.lists(op, min_size=2, max_size=10),
                     st.lists(op_only, min_size=1, max_size=3), st.integers(0, len(FILE_NAMES) - 1))


def dump_file(path):
    import sqlite3
    with closing(sqlite3.connect(path)) as con:
        out = {}
        for name, kind, sql in con.execute('SELECT name, type, sql FROM sqlite_master').fetchall():
            out['sql of ' + name] = sql
            if kind == 'table':
                rows = con.execute(f'SELECT * FROM "{name}"').fetchall()
                if name == 'property':
                    rows = [r for r in rows if r[0] not in VOLATILE]
                out[name] = sorted(rows, key=repr)
        out['versions'] = [con.execute(f'PRAGMA {p}').fetchone() for p in ('user_version', 'application_id', 'encoding')]
        return out


def content(path):
    with open(path, 'rb') as f:
        return f.read()


class Twin:
    def __init__(self, world, rec, number, directory, name):
        self.number = number
        self.dir = directory
        self.bound = None
        self.loaded = []          # (path, bytes) of files that must not change
        self.count = 0
        if number == 0:
            space = toron.DataSpace()
        elif number == 1:
            space = toron.DataSpace(cache_to_drive=True)
        else:
            self.bound = self.path(name)
            space = toron.bind_file(self.form(self.bound, 0), mode='rwc')
        self.engine = Engine(dict(world, mode='twin'), space=space, rec=rec if number == 0 else None)

    def path(self, name):
        self.count += 1
        d = os.path.join(self.dir, f'd{self.number}-{self.count}')
        p = os.path.join(d, FILE_NAMES[name])
        os.makedirs(os.path.dirname(p))
        return p

    @staticmethod
    def form(path, k):
        return [path, pathlib.Path(path), os.fsencode(path), path][k]

    def dump(self):
        if self.bound:
            # each completed change is in the file
            return dump_file(self.bound)
        path = self.path(0)
        self.engine.space.to_file(path, fsync=False)
        out = dump_file(path)
        os.unlink(path)
        return out

    def switch(self, how, name, form):
        e = self.engine
        uid = e.space.unique_id
        cwd = os.getcwd()
        if how >= 5 and self.bound:                  # bind again / load the bound file
            path = self.bound
            e.space = None
            if how == 5:
                e.space = toron.bind_file(self.form(path, form), mode='rwc')
            else:
                self.bound = None
        else:
            path = self.path(name)
            if how == 4:                             # overwrite an older file
                with open(path, 'wb') as f:
                    f.write(b'x' * 100000)
            try:
                if form == 3:
                    os.chdir(os.path.dirname(path))
                    e.space.to_file(os.path.basename(path), fsync=how % 2 == 0)
                else:
                    e.space.to_file(self.form(path, form), fsync=how % 2 == 0)
            finally:
                os.chdir(cwd)
            require(os.listdir(os.path.dirname(path)) == [os.path.basename(path)], 'saving leaves other files',
                    os.listdir(os.path.dirname(path)))
            self.bound = None
            e.space = None
        if how >= 5 and self.bound:
            pass
        elif how in (2, 3):
            try:
                if form == 3:
                    os.chdir(os.path.dirname(path))
                    e.space = toron.bind_file(os.path.basename(path), mode='rw')
                else:
                    e.space = toron.bind_file(self.form(path, form), mode='rw')
            finally:
                os.chdir(cwd)
            self.bound = path
        else:
            self.loaded.append((path, content(path)))
            if how % 2:
                e.space = toron.read_file(self.form(path, form), cache_to_drive=True)
            else:
                e.space = toron.read_file(self.form(path, form))
        require(e.space.unique_id == uid, 'unique_id changed', uid, e.space.unique_id)
        e.log.append(f'twin {self.number}: switch {how} {FILE_NAMES[name]!r} {form}')

    def check_loaded(self):
        for path, data in self.loaded:
            require(content(path) == data, 'a file that was only read has changed', path, self.engine.history())


def difference(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def observe(e):
    out = {}
    for name in OBSERVED:
        out[name] = getattr(e, 'see_' + name)()
    return out


def run(case, rec):
    (world, start), ops, ro_ops, name = case
    directory = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    twins = []
    try:
        twins = [Twin(world, rec, k, directory, name) for k in range(3)]
        switched = False

        def same_dumps():
            dumps = [t.dump() for t in twins]
            for t, d in zip(twins[1:], dumps[1:]):
                require(d == dumps[0], f'stored data of twin {t.number} differ', difference(dumps[0], d), t.engine.history())
            return dumps[0]

        for op in list(start) + list(ops):
            if op[0] == 'switch':
                before = observe(twins[op[1]].engine)
                twins[op[1]].switch(*op[2:])
                after = observe(twins[op[1]].engine)
                require(same(before, after), 'the reopened space reads differently', before, after,
                        twins[op[1]].engine.history())
                switched = True
                rec.event(f'twin {op[1]}: switch {op[2]}')
                continue
            outcomes = [t.engine.step(op) for t in twins]
            require(len(set(outcomes)) == 1, 'twins disagree', outcomes, twins[0].engine.history())
            if switched and outcomes[0] == 'ok':
                rec.nontrivial()
        same_dumps()
        seen = [observe(t.engine) for t in twins]
        for t, s in zip(twins[1:], seen[1:]):
            require(same(s, seen[0]), f'twin {t.number} reads differently',
                    {k: (seen[0][k], s[k]) for k in s if not same(s[k], seen[0][k])}, t.engine.history())
        for t in twins:
            t.check_loaded()
        # read-only
        t = twins[0]
        path = t.path(name)
        t.engine.space.to_file(path, fsync=False)
        original = content(path)
        space, t.engine.space = t.engine.space, toron.bind_file(path, mode='ro')
        require(t.engine.space.unique_id == space.unique_id, 'unique_id of the read-only space')
        require(same(observe(t.engine), seen[0]), 'a read-only space reads differently', t.engine.history())
        model = t.engine.model
        for op in ro_ops:
            base = t.dump()
            try:
                outcome = t.engine.step(op)
            except Violation:
                if t.engine.log[-1] is None:
                    raise
                outcome = 'refused'
            refused = outcome == 'refused'
            t.engine.model = model
            require(content(path) == original, 'a file bound read-only has changed', t.engine.history())
            if outcome == 'ok':
                # Nothing to change?
                ro, t.engine.space = t.engine.space, space
                t.engine.step(op)
                require(t.dump() == base, 'a read-only space accepted a change', t.engine.history())
                t.engine.space = ro
            if refused:
                rec.event('read-only: refused')
        require(same(observe(t.engine), seen[0]), 'a read-only space reads differently afterwards', t.engine.history())
        require(content(path) == original and os.listdir(os.path.dirname(path)) == [os.path.basename(path)],
                'a file bound read-only has changed or left others', os.listdir(os.path.dirname(path)))
        space = None
    finally:
        for t in twins:
            t.engine.close()
        twins.clear()
        shutil.rmtree(directory)


SUBS = [Sub('twins', strategy, run, 1000, 15000)]
