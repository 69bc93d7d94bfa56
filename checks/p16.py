"""P16: operations that fail change nothing."""
import contextlib
import os
import tempfile
from contextlib import closing

from hypothesis import strategies as st

import dbfault
from engine import OPS, Engine, history
from harness import HarnessError, Sub, require

PROPERTY = 'P16'
RULE = 'non-trivial: at least one operation failed on a space that already held data'
ASSUMPTIONS = [
    'corrupt input that is accepted ends the history: whether it should be is not judged here',
    'database errors are raised when a statement is executed, not while the transaction is ended',
]

WEIGHTS = {'ins': 3, 'insid': 3, 'upd': 4, 'delr': 3, 'delc': 2, 'insw': 3, 'fillw': 2, 'updw': 3, 'delwr': 3, 'delwc': 1,
           'addg': 1, 'editg': 1, 'dropg': 1, 'setdef': 1, 'insm2': 3, 'insm': 3, 'fillm': 1, 'updm': 3, 'delmr': 3,
           'delmc': 2, 'reify': 2, 'addl': 1, 'editl': 1, 'dropl': 1, 'insq': 3, 'insqi': 4, 'delnoidx': 2,
           'delunm': 2, 'attrs': 1, 'addc': 2, 'renc': 2, 'ren1': 2, 'dropc': 2, 'ordc': 1, 'orda': 1, 'addp': 1,
           'addps': 2, 'dropp': 1, 'drope': 1, 'domain': 1, 'reload': 1}
NAMES = [n for n, k in WEIGHTS.items() for _ in range(k)]
FAULTS = st.one_of(
    st.just(None),
    st.tuples(st.just('break'), st.integers(0, 9)),
    st.tuples(st.just('corrupt'), st.integers(0, 5), st.integers(0, 5), st.integers(0, 13)),
    st.tuples(st.just('db'), st.one_of(st.integers(0, 12), st.integers(0, 60)), st.sampled_from([False, False, True])),
    st.tuples(st.just('db'), st.integers(0, 60), st.sampled_from([False, False, True])))


def strategy():
    op = st.sampled_from(NAMES).flatmap(lambda n: OPS[n])
    return st.tuples(history(WEIGHTS, 0, 4, prelude=['index', 'group2', 'link2', 'part', 'quant']),
                     st.lists(st.tuples(op, FAULTS), min_size=2, max_size=9))


def dump(e):
    """Everything a saved copy of the space contains."""
    with closing(e.raw()) as con:
        out = {}
        for name, kind, sql in con.execute('SELECT name, type, sql FROM sqlite_master').fetchall():
            out['sql of ' + name] = sql
            if kind == 'table':
                out[name] = sorted(con.execute(f'SELECT * FROM "{name}"').fetchall(), key=repr)
        return out


def difference(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def run(case, rec):
    (world, start), ops = case
    with dbfault.installed(), closing(Engine(world, rec=rec)) as e:
        rec.event('mode: ' + world.get('mode', 'mem'))
        for op in start:
            e.step(op)
        before = None
        for op, fault in ops:
            if before is None:
                before = dump(e)
            if op[0] == 'reload':
                fault = None
            elif fault and fault[0] == 'db':
                fault = dbfault.Fault(*fault[1:])
            outcome = e.step(op, fault)
            if outcome == 'unknown':
                return
            if outcome == 'refused':
                after = dump(e)
                require(before == after, 'a failed operation left changes behind', difference(before, after), e.history())
                if e.model.quantities or len(e.model.index) > 1:
                    rec.nontrivial()
            elif outcome == 'ok':
                before = None
        e.check(['index', 'weights', 'groups', 'links', 'mappings', 'quantities', 'columns', 'partitions', 'domain'])


SUBS = [Sub('failures', strategy, run, 3750, 30000)]


# --------------------------------------------------------------------------
# Operations on many records that fail late
# --------------------------------------------------------------------------
LONG_OPS = ['insert_index', 'insert_index ids', 'update_index', 'merge', 'delete_index', 'delete_index criteria',
            'insert_weights', 'update_weights', 'delete_weights', 'delete_weights criteria', 'insert_mappings2',
            'insert_mappings', 'update_mappings', 'delete_mappings', 'delete_mappings criteria', 'reify_mappings',
            'insert_quantities2', 'insert_quantities2', 'insert_quantities', 'delete_quantities_without_index',
            'delete_unmatched_quantities', 'drop_weight_group', 'drop_link', 'add_index_columns',
            'drop_index_columns', 'rename_label_column', 'add_partition_definitions']


def long_strategy():
    return st.tuples(
        st.sampled_from(LONG_OPS),
        st.one_of(st.integers(20, 150), st.integers(100, 1100)),
        st.sampled_from(['break', 'cell', 'db', 'db', 'db interrupted', 'interrupted']),
        st.sampled_from([1.0, 1.0, 0.98, 0.9, 0.75, 0.5, 0.2]),
        st.sampled_from(['mem', 'bind']),
        st.integers(0, 3))


class Breaks(Exception):
    pass


class Interrupted(KeyboardInterrupt):
    pass


def long_space(n, mode, path):
    """A space with n records in A×B; quantities, weights, mappings for all."""
    import toron
    sp = toron.bind_file(path, mode='rwc') if mode == 'bind' else toron.DataSpace()
    sp.add_index_columns('A', 'B')
    sp.add_partition_definitions({'A'})
    sp.add_weight_group('w')
    sp.add_weight_group('v')
    rows = [(f'a{i // 7}', f'b{i}') for i in range(n)]
    sp.insert_index([r + (1 + i % 5, 2) for i, r in enumerate(rows)], ['A', 'B', 'w', 'v'])
    other = toron.DataSpace()
    sp.add_link(other, 'l')
    sp.insert_mappings2(other, 'l', [[i, i, b'\x80' if i % 2 else b'\xc0', 1] for i in range(1, n + 1)],
                        ['other_index_id', 'index_id', 'mapping_level', 'l'])
    sp.set_registered_attributes(['s'])
    sp.insert_quantities2(value_column='q', data=[r + ('x', i) for i, r in enumerate(rows)] +
                          [(f'none{i}', '', 'x', i) for i in range(n)],
                          columns=['A', 'B', 's', 'q'], allow_invalid_label=True, allow_invalid_partition=True)
    return sp, other, rows


def long_rows(op, n, rows):
    """(columns, rows, cell to spoil, spoiled value) of an operation that reads rows, else None."""
    ids = list(range(1, n + 1))
    lab = dict(zip(ids, rows))
    if op == 'insert_index':
        return ['A', 'B', 'w'], [[f'n{i}', f'm{i}', 1] for i in ids], 2, 'bad'
    if op == 'insert_index ids':
        return ['index_id', 'A', 'B', 'w'], [[i, f'n{i}', f'm{i}', 7] for i in ids], 0, 10 ** 6
    if op == 'update_index':
        return ['index_id', 'A', 'B'], [[i, f'n{i}', f'm{i}'] for i in ids], 1, None
    if op == 'merge':
        return ['index_id', 'A', 'B'], [[i, *lab[i - i % 2 or i]] for i in ids], 0, 'bad'
    if op == 'delete_index':
        return ['index_id', 'A', 'B'], [[i, *lab[i]] for i in ids], 0, 'bad'
    if op == 'insert_weights':
        return ['A', 'B', 'v'], [[*lab[i], 5] for i in ids], 2, 'bad'
    if op == 'update_weights':
        return ['index_id', 'A', 'B', 'w'], [[i, *lab[i], 9] for i in ids], 3, 'bad'
    if op == 'delete_weights':
        return ['index_id', 'A', 'B'], [[i, *lab[i]] for i in ids], 0, 'bad'
    if op == 'insert_mappings2':
        return ['other_index_id', 'index_id', 'mapping_level', 'l'], [[i + n, i, b'\xc0', 2] for i in ids], 3, 'bad'
    if op == 'insert_mappings':
        return (['other_index_id', 'l', 'index_id', 'A', 'B', 'mapping_level'],
                [[i + n, 2, i, *lab[i], b'\xc0'] for i in ids], 5, b'\x40\x00\x01')
    if op == 'update_mappings':
        return (['other_index_id', 'l', 'index_id', 'A', 'B', 'mapping_level'],
                [[i, 8, i, *lab[i], b'\x80' if i % 2 else b'\xc0'] for i in ids], 5, b'\x40\x00\x01')
    if op == 'delete_mappings':
        return ['other_index_id', 'l', 'index_id', 'A', 'B'], [[i, 1, i, *lab[i]] for i in ids], 2, 'bad'
    if op in ('insert_quantities2', 'insert_quantities'):
        return ['A', 'B', 's', 'q'], [[*lab[i], 'y', i] for i in ids], 3, None
    return None


def long_call(op, sp, other, data, columns, k):
    if op in ('insert_index', 'update_index', 'delete_index'):
        kw = {'on_weight_conflict': 'replace'} if op == 'insert_index' else {}
        return lambda: getattr(sp, op)(data, columns, **kw)
    if op == 'insert_index ids':
        return lambda: sp.insert_index(data, columns, on_label_conflict='replace', on_weight_conflict='replace')
    if op == 'merge':
        return lambda: sp.update_index(data, columns, merge_on_conflict=True)
    if op in ('insert_weights', 'update_weights', 'delete_weights'):
        kw = {'on_conflict': ['replace', 'sum'][k % 2]} if op == 'insert_weights' else {}
        return lambda: getattr(sp, op)('v' if op == 'insert_weights' else 'w', data, columns, **kw)
    if op in ('insert_mappings2', 'insert_mappings', 'update_mappings', 'delete_mappings'):
        return lambda: getattr(sp, op)(other, 'l', data, columns)
    if op == 'insert_quantities2':
        kw = {'on_existing': ['abort', 'sum', 'replace', 'ignore'][k]}
        return lambda: sp.insert_quantities2(value_column='q', data=data, columns=columns, **kw)
    if op == 'insert_quantities':
        return lambda: sp.insert_quantities(value='q', attributes=['s'], data=data, columns=columns)
    return {
        'delete_index criteria': lambda: sp.delete_index(A=f'a{k}'),
        'delete_weights criteria': lambda: sp.delete_weights('w', A=f'a{k}'),
        'delete_mappings criteria': lambda: sp.delete_mappings(other, 'l', A=f'a{k}'),
        'reify_mappings': lambda: sp.reify_mappings(other, 'l'),
        'delete_quantities_without_index': sp.delete_quantities_without_index,
        'delete_unmatched_quantities': sp.delete_unmatched_quantities,
        'drop_weight_group': lambda: sp.drop_weight_group('v' if k % 2 else 'w'),
        'drop_link': lambda: sp.drop_link(other, 'l'),
        'add_index_columns': lambda: sp.add_index_columns('C', 'D'),
        'drop_index_columns': lambda: sp.drop_index_columns('A'),
        'rename_label_column': lambda: sp.rename_label_column('A', 'C'),
        'add_partition_definitions': lambda: sp.add_partition_definitions({'B'}),
    }[op]


def dump_space(sp, path):
    sp.to_file(path, fsync=False)
    try:
        with closing(dbfault.real_connect(path)) as con:
            return {t: sorted(con.execute(f'SELECT * FROM "{t}"').fetchall(), key=repr)
                    for t, in con.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall()}
    finally:
        os.unlink(path)


def run_long(case, rec):
    op, n, fault, f, mode, k = case
    import toron
    with tempfile.TemporaryDirectory() as folder, dbfault.installed():
        sp, other, rows = long_space(n, mode, os.path.join(folder, 'bound.toron'))
        if op == 'drop_index_columns':
            sp.drop_link(other, 'l')
        if op == 'insert_mappings' or op == 'insert_index ids':
            sp.delete_weights('v', A='a1')
        table = long_rows(op, n, rows)
        columns = data = None
        if table:
            columns, body, cell, spoiled = table
            data = body
            late = max(0, int(f * n) - 1)
            if fault == 'cell':
                body = [list(r) for r in body]
                body[late][cell] = spoiled
                if spoiled is None:     # (a row with too few cells)
                    del body[late][cell:]
                data = iter(body)
            elif fault in ('break', 'interrupted'):
                def stream(body=body, late=late):
                    yield from body[:late]
                    raise (Breaks if fault == 'break' else Interrupted)('input breaks off')
                data = stream()
        elif not fault.startswith('db'):
            fault = 'db'
        if fault.startswith('db'):
            sp.to_file(os.path.join(folder, 'twin.toron'), fsync=False)
            twin = toron.read_file(os.path.join(folder, 'twin.toron'))
            with dbfault.Fault(10 ** 9):
                with contextlib.suppress(Exception):
                    long_call(op, twin, other, data, columns, k)()
                used = 10 ** 9 - dbfault.left
            del twin
        before = dump_space(sp, os.path.join(folder, 'x'))
        failed = False
        try:
            if fault.startswith('db'):
                with dbfault.Fault(max(0, int(used * f) - 1 - k), fault == 'db interrupted'):
                    long_call(op, sp, other, data, columns, k)()
            else:
                long_call(op, sp, other, data, columns, k)()
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, HarnessError) or (isinstance(e, KeyboardInterrupt) and 'interrupted' not in fault):
                raise
            failed = True
            rec.event(f'{op}: {fault}')
        require(failed or fault not in ('break', 'interrupted'), 'an operation succeeded although its input broke off', case)
        if failed:
            after = dump_space(sp, os.path.join(folder, 'x'))
            diff = {t: len(set(before.get(t, [])) ^ set(after.get(t, [])))
                    for t in set(before) | set(after) if before.get(t) != after.get(t)}
            require(not diff, f'{op} on {n} records failed ({fault}) and left changes behind (records that differ)', diff, case)
            if fault != 'cell' or f > 0.5:
                rec.nontrivial()
        else:
            rec.event(f'{op}: accepted')
        del sp


SUBS.append(Sub('long', long_strategy, run_long, 1500, 15000))
