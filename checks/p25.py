"""P25: open results are independent of each other, whatever the interleaving."""
import gc
import os
import shutil
import sys
import tempfile
from contextlib import closing

from hypothesis import strategies as st

from engine import Engine, history, same
from harness import Sub, require
from model import Refused
import engine

PROPERTY = 'P25'
RULE = ('non-trivial: at least two results with two or more rows were open at the same time, and one was advanced '
        'between two rows of the other')
ASSUMPTIONS = ['a translated reader was not iterated before it was translated',
               'no change is made while a result is open (read but neither exhausted, closed nor dropped)',
               'labels of a reader are looked up when it is read, so it is compared after changes that keep the '
               'index records and label columns']

WEIGHTS = {'insqi': 5, 'ins': 2, 'insq': 1, 'fillw': 3, 'addg': 1, 'domain': 1, 'addps': 1, 'insm2': 1, 'fillm': 1}
PRELUDE = ['index', 'group', 'part', 'quant', 'quant', 'link']
# changes made afterwards
LATE = {'insqi': 3, 'insq': 2, 'updw': 2, 'fillw': 2, 'addg': 1, 'dropg': 1, 'editg': 1, 'setdef': 1, 'insm2': 1,
        'fillm': 1, 'dropl': 1, 'domain': 1, 'delnoidx': 1, 'delunm': 1, 'ins': 1, 'upd': 1, 'delr': 1, 'addc': 1,
        'attrs': 1, 'orda': 1, 'drope': 1, 'reify': 1, 'delwr': 1, 'addp': 1, 'ren1': 1, 'delmr': 1}

KINDS = ['index', 'index where', 'weights', 'weights where', 'mappings', 'quantities2', 'quantities', 'without index',
         'unmatched', 'reader', 'reader', 'reader quantized', 'reader on drive', 'reader selected', 'translated',
         'translated on drive', 'pivot', 'pivot mean', 'shared', 'shared pivot', 'shared pivot', 'graph mapping',
         'graph weights', 'repeated']
REPAIR = [('delunm',), ('fillw', 0, 3, 0), ('setdef', 0), ('addg', 1, 0, 0, 1), ('fillw', 1, 4, 0), ('setdef', 1),
          ('delunm',)]
STEPS = ['step', 'step', 'step', 'step', 'some', 'some', 'exhaust', 'close', 'drop', 'peek', 'open', 'gc']


def strategy():
    k = st.integers(0, 7)
    actions = st.tuples(st.sampled_from(STEPS), k, st.integers(1, 4))
    late = st.sampled_from([n for n, w in LATE.items() for _ in range(w)]).flatmap(lambda n: engine.OPS[n])
    return st.tuples(history(WEIGHTS, 0, 6, prelude=PRELUDE),
                     st.lists(st.tuples(st.sampled_from(KINDS), k), min_size=3, max_size=7),
                     st.lists(actions, min_size=8, max_size=40),
                     st.lists(late, min_size=1, max_size=4),
                     st.lists(st.tuples(k, k, st.integers(0, 9)), min_size=1, max_size=6))


def second(e, seeds):
    """Another space with quantities and a link to the engine's space, or None."""
    from toron import DataSpace
    sp, m = e.space, e.model
    if not m.ids:
        return None
    src = DataSpace()
    src.add_index_columns('S')
    src.add_weight_group('w', make_default=True)
    src.insert_index([(f's{j}', 1 + j % 2) for j in range(3)], ['S', 'w'])
    src.set_registered_attributes(['attr', 'kind'])
    ids = [r[0] for r in src.select_index(header=False)]
    src.insert_quantities2(value_column='value', columns=['S', 'attr', 'value'], on_existing='sum',
                           data=[(f's{a % 3}', 'ab'[b % 2], 1 + v) for a, b, v in seeds])
    sp.add_link(src, 'second')
    level = engine.level_bytes([1] * len(m.columns))
    rows = {}
    for j, i in enumerate(ids):
        for a, b, v in seeds[j:j + 3]:
            rows[i, m.ids[b % len(m.ids)]] = 1 + v
        rows.setdefault((i, m.ids[j % len(m.ids)]), 1)
    sp.insert_mappings2(src, 'second', [['other_index_id', 'index_id', 'mapping_level', 'second']]
                        + [(o, i, level, v) for (o, i), v in rows.items()])
    return src


class Failed(Exception):
    pass


def opener(e, kind, k, src, shared):
    """Function that opens a result of the given kind."""
    from toron import graph
    from toron.reader import pivot_reader
    sp, m = e.space, e.model
    attrs = (m.attributes or ['attr'])[:1 + k % 2]
    where = {}
    if 'where' in kind:
        ids = sorted(m.index)
        labels = m.index[ids[k % len(ids)]]
        where = {m.columns[k % len(m.columns)]: labels[k % len(m.columns)]}
    if kind.startswith('index'):
        return lambda: sp.select_index(header=bool(k % 2), **where)
    if kind.startswith('weights'):
        if not m.groups:
            return None
        name = sorted(m.groups)[k % len(m.groups)]
        return lambda: sp.select_weights(name, **where)
    if kind == 'mappings':
        if not sp.links:
            return None
        x = sp.links[k % len(sp.links)]
        return lambda: sp.select_mappings(x.other_unique_id, x.name, header=bool(k % 2))
    if kind == 'quantities2':
        return lambda: sp.select_quantities2(header=bool(k % 2))
    if kind == 'quantities':
        return lambda: sp.select_quantities(header=bool(k % 2))
    if kind == 'without index':
        return lambda: sp.select_quantities_without_index(header=bool(k % 2))
    if kind == 'unmatched':
        return lambda: sp.select_unmatched_quantities(header=bool(k % 2))
    if kind == 'reader':
        return lambda: sp()
    if kind == 'reader quantized':
        return lambda: sp(quantize=True)
    if kind == 'reader on drive':
        return lambda: sp(cache_to_drive=True)
    if kind == 'reader selected':
        return lambda: sp(f'[{"kind" if k % 2 else "attr"}]', cache_to_drive=bool(k % 3))
    if kind == 'repeated':
        return lambda: iter([r for _ in range(1 + k % 3) for r in sp()])
    if kind.startswith('translated'):
        if src is None:
            return None
        return lambda: src(cache_to_drive='drive' in kind, quantize=k % 3 == 0) >> sp
    if kind.startswith('pivot'):
        return lambda: pivot_reader(sp(cache_to_drive=bool(k % 2)), attrs, 'mean' if 'mean' in kind else 'sum')
    if kind == 'shared':
        return lambda: iter(shared())
    if kind == 'shared pivot':
        return lambda: pivot_reader(shared(), attrs, 'mean' if k % 2 else 'sum')
    if kind == 'graph mapping':
        if src is None:
            return None
        return lambda: graph.get_mapping(src, sp, 'second', header=bool(k % 2))
    if kind == 'graph weights':
        return lambda: graph.get_weights(sp, header=bool(k % 2))
    raise AssertionError(kind)


def peek(sp, m):
    """Things read while other results are open."""
    return [list(sp.index_columns), sp.domain, [g.name for g in sp.weight_groups], [x.name for x in sp.links],
            sp.get_registered_attributes(), sorted(map(sorted, sp.partition_definitions)), sp.max_index_id,
            [tuple(r) for r in sp.select_index()]]


def finish(it):
    if hasattr(it, 'close'):
        it.close()


def run(case, rec):
    old = tempfile.tempdir
    scratch = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    tempfile.tempdir = scratch
    try:
        check(case, rec, scratch)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(scratch, ignore_errors=True)


def check(case, rec, scratch):
    (world, ops), kinds, actions, late, seeds = case
    with closing(Engine(world, rec=rec)) as e:
        e.run(ops)
        if seeds[0][2] < 8:
            # Make the space readable (mostly).
            for op in REPAIR:
                try:
                    if e.model.disaggregate() is not None:
                        break
                except Refused:
                    e.step(op)
        src = second(e, seeds)
        sp, m = e.space, e.model
        cache = []

        def shared():
            if not cache:
                cache.append(sp(cache_to_drive=bool(seeds[0][0] % 2)))
            return cache[0]

        gc.collect()
        base = set(os.listdir(scratch))
        log = []
        slots = []
        for kind, k in kinds:
            fn = opener(e, kind, k, src, shared)
            if fn is None:
                rec.event(f'{kind}: not available')
                continue
            # Alone: a shared reader can be read once, so another one stands in for it.
            lone = opener(e, kind, k, src, sp) if kind.startswith('shared') else fn
            try:
                it = lone()
                rows = [norm(r) for r in it]
            except Exception:
                rows = None
            if rows is None:
                rec.event(f'{kind}: refused')
                it = None
                gc.collect()
                require(set(os.listdir(scratch)) == base, 'temporary files of a failed result remain', kind,
                        os.listdir(scratch), e.history())
                continue
            finish(it)
            it = None
            slots.append(dict(kind=kind, open=fn, alone=rows, it=None, at=0, state='new'))
            rec.event(f'{kind}: ' + ('no rows' if not rows else 'one row' if len(rows) == 1 else 'rows'))
        gc.collect()
        require(set(os.listdir(scratch)) == base, 'temporary files of closed results remain', os.listdir(scratch),
                e.history())
        if not slots:
            return
        expected = peek(sp, m)
        # One reader of shared rows: all of its iterators take turns.
        common = [s for s in slots if s['kind'] == 'shared']
        for s in common:
            s['pos'] = common[0]

        def details():
            return '\n'.join(log), e.history()

        def pull(s):
            """One row of slot *s*; False if there is none."""
            if s['it'] is None:
                s['it'] = s['open']()
                log.append(f'open {slots.index(s)} {s["kind"]}')
                s['state'] = 'open'
            p = s.get('pos', s)
            try:
                row = norm(next(s['it']))
            except StopIteration:
                log.append(f'{slots.index(s)} is exhausted')
                require(p['at'] == len(s['alone']), f'{s["kind"]} ended after {p["at"]} of {len(s["alone"])} rows',
                        s['alone'], *details())
                s['state'] = 'done'
                return False
            log.append(f'step {slots.index(s)}')
            require(p['at'] < len(s['alone']), f'{s["kind"]} has a further row', row, s['alone'], *details())
            require(same(row, s['alone'][p['at']]), f'row {p["at"]} of {s["kind"]} is different', row, s['alone'],
                    *details())
            p['at'] += 1
            return True

        last = [None, None]     # slot advanced last, and the one before
        mixed = False
        for what, k, n in actions:
            s = slots[k % len(slots)]
            if what == 'gc':
                gc.collect()
                continue
            if what == 'peek':
                require(same(peek(sp, m), expected), 'what is shown while results are open', peek(sp, m), expected,
                        *details())
                continue
            if s['state'] == 'gone' and what == 'open' and 'shared' not in s['kind']:
                s.update(it=None, at=0, state='new')
            if s['state'] in ('gone', 'done'):
                if s['state'] == 'done':
                    require(next(s['it'], None) is None, 'an exhausted result goes on', s['kind'], *details())
                continue
            if what == 'open':
                if s['it'] is None:
                    s['it'] = s['open']()
                    s['state'] = 'open'
                    log.append(f'open {slots.index(s)} {s["kind"]}')
            elif what in ('step', 'some', 'exhaust'):
                n = {'step': 1, 'some': n, 'exhaust': 10 ** 9}[what]
                if last[0] is not s:
                    if last[1] is s and s['at'] and s['at'] < len(s['alone']) and len(last[0]['alone']) > 1 \
                            and last[0]['it'] is not None:
                        mixed = True
                    last = [s, last[0]]
                while n and pull(s):
                    n -= 1
            elif s['it'] is not None and (what == 'drop' or s['kind'] != 'shared'):
                if what == 'close':
                    finish(s['it'])
                s['it'] = None
                s['state'] = 'gone'
                log.append(f'{what} {slots.index(s)}')
                rec.event(f'{what}: part-way' if s['at'] < len(s['alone']) else f'{what}: at the end')
        if mixed:
            rec.nontrivial()
        # Half of the open results are finished, the others dropped or closed.
        for j, s in enumerate(slots):
            if s['state'] == 'open':
                if j % 2:
                    while pull(s):
                        pass
                elif j % 4 == 0 and s['kind'] != 'shared':
                    finish(s['it'])
            s['it'] = None
        s = None
        last = None
        fresh = None
        if not cache or not any(x['kind'] == 'shared' for x in slots):
            fresh = cache[0] if cache else None
        cache.clear()
        del common[:]
        for s in slots:
            s.pop('pos', None)
        s = None
        if fresh is None:
            try:
                fresh = sp(cache_to_drive=True)
            except Exception:
                fresh = None
        gc.collect()
        files = set(os.listdir(scratch)) - base
        require(len(files) <= (fresh is not None), 'temporary files of closed or dropped results remain', files,
                *details())
        # A reader obtained earlier keeps its values.
        before = None
        if fresh is not None:
            before = [norm(r) for r in sp()]
            index, columns = dict(e.model.index), list(e.model.columns)
            domain = e.model.domain
        e.log.append('   [results are closed or dropped here]')
        e.run(late)
        if fresh is not None:
            if e.model.index == index and e.model.columns == columns:
                rows = [norm(r) for r in fresh]
                require(same(rows, before), 'a reader has other values after a later change', rows, before,
                        *details())
                rec.event('reader kept over changes')
            fresh.close()
            fresh = None
            gc.collect()
            files = set(os.listdir(scratch)) - base
            require(not files, 'the temporary file of a closed reader remains', files, *details())
        else:
            rec.event('not readable')


def norm(row):
    return tuple(row)


SUBS = [Sub('interleaved', strategy, run, 1500, 14000)]
