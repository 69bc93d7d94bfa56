"""P18: crashes and faults while saving or writing."""
import os
import shutil
import tempfile
from contextlib import closing

from hypothesis import strategies as st

import crash
import toron
from engine import OPS, Engine, history
from harness import HarnessError, Sub, require
from p16 import WEIGHTS as OP_WEIGHTS
from p17 import difference, dump_file

PROPERTY = 'P18'
RULE = ('non-trivial: a process ended, or a file operation failed, strictly between the first and the last file operation '
        'of a save of a space with data, or of a change that alters stored data')
ASSUMPTIONS = [
    'the process dies or an operation fails, the machine does not: data written but not synced is kept',
    'binding a file that does not exist yet is not judged',
]

WEIGHTS = {k: v for k, v in OP_WEIGHTS.items() if k != 'reload'}
POINT = st.tuples(st.sampled_from([crash.KILL, crash.KILL, crash.FAIL, crash.FULL, crash.INTERRUPT]), st.integers(0, 10 ** 6))


def save_case():
    return st.tuples(history(WEIGHTS, 0, 3, prelude=['index', 'group', 'link', 'part', 'quant']),
                     st.sampled_from(['mem', 'cache', 'bound', 'bound', 'self']),
                     st.sampled_from(['none', 'bytes', 'space', 'space', 'odd name', 'link']),
                     st.booleans(), st.lists(POINT, min_size=3, max_size=8))


def change_case():
    names = [n for n, k in WEIGHTS.items() for _ in range(k)]
    op = st.sampled_from(names).flatmap(lambda n: OPS[n])
    return st.tuples(history(WEIGHTS, 0, 3, prelude=['index', 'group', 'link', 'part', 'quant']),
                     st.lists(op, min_size=1, max_size=3), st.lists(POINT, min_size=4, max_size=9),
                     st.integers(0, 1))


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def run_save(case, rec):
    (world, ops), mode, dest, fsync, points = case
    scratch = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        space = None
        bound = os.path.join(scratch, 'bound.toron')
        if mode == 'cache':
            space = toron.DataSpace(cache_to_drive=True)
        elif mode == 'mem':
            space = toron.DataSpace()
        else:
            space = toron.bind_file(bound, mode='rwc')
        with closing(Engine(dict(world, mode='given'), space=space)) as e:
            del space
            for op in ops:
                e.step(op)
            path = os.path.join(scratch, 'copy')
            e.space.to_file(path, fsync=False)
            want = dump_file(path)
            whole = content(path)
            count = None
            for t, (kind, k) in enumerate([(crash.COUNT, 0)] + points):
                d = os.path.join(scratch, f'd{t}')
                os.mkdir(d)
                target = os.path.join(d, "o'dd na%20me?.toron" if dest == 'odd name' else 'x.toron')
                before = {}
                if mode == 'self':
                    # the file that the space is bound to
                    target = bound
                    before = {'bound.toron': content(bound), 'copy': whole}
                    for s in range(t + 1):
                        shutil.rmtree(os.path.join(scratch, f'd{s}'), ignore_errors=True)
                    d = scratch
                elif dest == 'bytes':
                    with open(target, 'wb') as f:
                        f.write(b'anything' * 3000)
                elif dest == 'space':
                    toron.DataSpace().to_file(target, fsync=False)
                elif dest == 'link':
                    with open(os.path.join(d, 'y.toron'), 'wb') as f:
                        f.write(b'linked')
                    os.symlink('y.toron', target)
                if not before:
                    before = {name: content(os.path.join(d, name)) for name in os.listdir(d)}
                where = k % count if count else 0
                outcome, number, fired, text = crash.run(lambda: e.space.to_file(target, fsync=fsync), kind, where)
                what = (f'{crash.MODES.get(kind, "no fault")} at file operation {where} of {count}', outcome, text)
                if kind == crash.COUNT:
                    require(outcome == 'returned', 'saving failed', text)
                    count = number
                    if not count:
                        raise HarnessError('no file operations seen')
                names = set(os.listdir(d))
                for name in before:
                    if name != os.path.basename(target):
                        require(name in names and content(os.path.join(d, name)) == before[name], 'another file has changed',
                                name, what)
                new = os.path.exists(target) and content(target)
                if new is False or new == before.get(os.path.basename(target)):
                    require(new is not False or os.path.basename(target) not in before, 'the old file is gone', what)
                    state = 'old'
                    require(outcome != 'returned' or mode == 'self', 'saving returned without saving', what)
                else:
                    state = 'new'
                    got = dump_file(target)
                    require(got == want, 'the saved file is incomplete', difference(got, want), what)
                    check = toron.read_file(target)
                    require(check.unique_id == e.space.unique_id, 'unique_id differs')
                    del check
                if outcome != 'ended':
                    extra = names - set(before) - {os.path.basename(target)}
                    require(not extra, 'files are left behind', extra, what)
                else:
                    for name in names - set(before) - {os.path.basename(target)}:
                        os.unlink(os.path.join(d, name))
                if kind != crash.COUNT:
                    rec.event(f'{crash.MODES[kind]}: {outcome}, {state}')
                    if 0 < where < count - 1 and e.model.ids:
                        rec.nontrivial()
    finally:
        shutil.rmtree(scratch)


def run_change(case, rec):
    (world, start), ops, points, reopen = case
    scratch = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        path = os.path.join(scratch, 'bound.toron')
        with closing(Engine(dict(world, mode='given'), space=toron.bind_file(path, mode='rwc'))) as e:
            for op in start:
                e.step(op)
            for op in ops:
                model = e.model
                old = os.path.join(scratch, 'old')
                shutil.copy(path, old)
                before = dump_file(old)
                outcome = e.step(op)
                if outcome == 'skip':
                    continue
                after = dump_file(path)
                new = os.path.join(scratch, 'new')
                shutil.copy(path, new)
                model_after = e.model
                e.space = None
                count = None
                for kind, k in [(crash.COUNT, 0)] + points:
                    for name in os.listdir(scratch):
                        if name not in ('old', 'new'):
                            os.unlink(os.path.join(scratch, name))
                    shutil.copy(old, path)
                    where = k % count if count else 0

                    def child():
                        e.model = model
                        e.space = space
                        e.step(op)
                        if e.space is None:
                            raise RuntimeError
                    space = toron.bind_file(path, mode='rw')
                    try:
                        result, number, fired, text = crash.run(child, kind, where)
                    finally:
                        space = None
                    what = (f'{crash.MODES.get(kind, "no fault")} at file operation {where} of {count}', result, text,
                            e.history())
                    if kind == crash.COUNT:
                        count = number
                        if not count:
                            break
                    journal = len(os.listdir(scratch)) > 3
                    if reopen:
                        # (opened for writing or reading by the code under test first)
                        check = toron.bind_file(path, mode='rw')
                        check.index_columns
                        check = None
                        got = dump_file(path)
                    else:
                        check = toron.read_file(path)
                        copy = os.path.join(scratch, 'copy')
                        check.to_file(copy, fsync=False)
                        check = None
                        got = dump_file(copy)
                        os.unlink(copy)
                    if got == before:
                        state = 'before'
                    elif got == after:
                        state = 'after'
                    else:
                        require(False, 'the file holds neither the state before nor after', difference(got, before),
                                difference(got, after), what)
                    if kind == crash.COUNT:
                        require(state == 'after' or before == after, 'the change is lost', what)
                        continue
                    if result == 'returned':
                        require(got == after, 'the change is lost', what)
                    rec.event(f'{crash.MODES[kind]}: {result}, {state}' + (' (journal)' if journal else ''))
                    if 0 < where < count - 1 and before != after:
                        rec.nontrivial()
                for name in os.listdir(scratch):
                    if name not in ('old', 'new'):
                        os.unlink(os.path.join(scratch, name))
                shutil.copy(new, path)
                e.space = toron.bind_file(path, mode='rw')
                e.model = model_after
    finally:
        shutil.rmtree(scratch)


SUBS = [Sub('save', save_case, run_save, 500, 6000), Sub('change', change_case, run_change, 900, 12000)]
