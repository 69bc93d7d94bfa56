"""P06: filtering, regrouping, caching and pivoting never change the numbers."""
import os
import random
import sys
from contextlib import closing

from hypothesis import strategies as st

import engine
import p05
from engine import Engine, SELECTORS, close, history, same
from harness import Sub, require
from model import Refused

PROPERTY = 'P06'
RULE = 'non-trivial: the plain read has at least two results and at least two sets of attribute values (over 100 results in "many results")'
ASSUMPTIONS = ['results of zero are kept apart from no result only when pivoting']

WEIGHTS = {'insqi': 6, 'ins': 2, 'insq': 1, 'fillw': 3, 'addg': 2, 'domain': 1, 'delunm': 2, 'upd': 1,
           'addps': 1, 'reload': 1, 'attrs': 1}
TEXTS = sorted({t for s in SELECTORS if s for t in s} | {'[kind="b"]', '[attr="c d"]', ':not([attr])', '[attr="a"]',
                                                        '[attr~="d"]', '[attr*=" "]'})


PARAMS = st.fixed_dictionaries({
    'selectors': st.lists(st.sampled_from(TEXTS), min_size=0, max_size=3),
    'sum_by': st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=3)),
    'as_text': st.booleans(),
    'cache': st.booleans(),
    'quantize': st.sampled_from([False, False, True]),
    'pivot': st.lists(st.integers(0, 3), min_size=1, max_size=2, unique=True),
    'how': st.sampled_from(['sum', 'sum', 'mean']),
    'pandas': st.integers(0, 15),
})


def strategy():
    return st.tuples(history(WEIGHTS, 3, 10, prelude=['index', 'group', 'part', 'quant', 'quant']),
                     st.lists(PARAMS, min_size=1, max_size=3))


def table(reader, ncols):
    """[(labels, {attr: value}, value)] of a reader; every combination once."""
    cols = list(reader.columns)
    out, seen = [], set()
    for r in reader:
        require(len(r) == len(cols), 'row does not fit its columns', cols, r)
        attrs = {c: v for c, v in zip(cols[ncols:-1], r[ncols:-1]) if v is not None}
        key = (tuple(r[:ncols]), frozenset(attrs.items()))
        require(key not in seen, 'the same record and attributes appear twice', key)
        seen.add(key)
        out.append((tuple(r[:ncols]), attrs, r[-1]))
    return out


def group(rows, keep=None):
    out = {}
    for labels, attrs, value in rows:
        key = (labels, frozenset((k, v) for k, v in attrs.items() if keep is None or k in keep))
        out[key] = out.get(key, 0.0) + value
    return {k: v for k, v in out.items() if abs(v) > 1e-12}


def compare(got, want, *details):
    require(got.keys() == want.keys(), 'other results', got, want, *details)
    for k in want:
        require(close(got[k], want[k]), f'value of {k} is {got[k]}, expected {want[k]}', *details)


def pivoted(rows, columns, how):
    cells = {}
    for labels, attrs, value in rows:
        parts = [attrs.get(c, '') for c in columns]
        if not any(parts):
            continue
        while parts[-1] == '':
            parts.pop()
        name = parts[0] if len(parts) == 1 else tuple(parts)
        cells.setdefault(labels, {}).setdefault(name, []).append(value)
    return {lab: {n: sum(v) / (len(v) if how == 'mean' else 1) for n, v in d.items()} for lab, d in cells.items()}


def check_pivot(data, ncols, want, columns, *details):
    header, body = data[0], data[1:]
    require(list(header[:ncols]) == columns, 'index columns of the pivot', header, columns)
    names = list(header[ncols:])
    require(len(set(map(repr, names))) == len(names), 'pivoted column appears twice', names)
    got = {}
    for r in body:
        require(len(r) == len(header), 'pivoted row does not fit its header', header, r)
        lab = tuple(r[:ncols])
        require(lab not in got, 'record appears twice in the pivot', lab)
        got[lab] = {n: v for n, v in zip(names, r[ncols:]) if v is not None and v == v}
    require(set(names) == {n for d in want.values() for n in d}, 'pivoted columns', names, want, *details)
    require(got.keys() == want.keys(), 'records of the pivot', got, want, *details)
    for lab in want:
        require(same(got[lab], want[lab]), f'pivoted values of {lab}', got[lab], want[lab], *details)


def pandas():
    path = '/opt/venv/lib/python3.12/site-packages'
    if os.path.isdir(path) and path not in sys.path:
        sys.path.append(path)
    try:
        import pandas
    except ImportError:
        return None
    return pandas


def check_reads(sp, columns_, domain, attributes, plain, plist, rec, history):
    from toron.reader import pivot_reader, pivot_reader_to_pandas
    n = len(columns_)
    scratch = os.environ.get('VERIF_SCRATCH')
    for p in plist:
        details = (p, history)
        names = list(dict.fromkeys(attributes + engine.ATTR_POOL[:2]))
        base = plain
        if p['quantize']:
            base = table(sp(quantize=True), n)
        asts = [p05.recognize(t) for t in p['selectors']]
        rows = base
        if asts:
            stored = lambda attrs: {k: v for k, v in attrs.items() if k != 'domain'}
            rows = [r for r in base if any(p05.matches(a, stored(r[1])) for a in asts)]
        kw = dict(cache_to_drive=p['cache'], quantize=p['quantize'])
        keep = None
        if p['sum_by'] is not None:
            keep = {names[k % len(names)] for k in p['sum_by']}
            kw['sum_by_attrs'] = sorted(keep)
            if p['as_text']:
                keep = {sorted(keep)[0]}
                kw['sum_by_attrs'] = sorted(keep)[0]
            if domain:
                keep.add('domain')
        before = set(os.listdir(scratch)) if scratch else set()
        reader = sp(*p['selectors'], **kw)
        got = table(reader, n)
        compare(group(got), group(rows, keep), *details)
        again = sp(*p['selectors'], **kw)
        columns = [names[k % len(names)] for k in p['pivot']]
        columns = list(dict.fromkeys(columns))
        data = list(pivot_reader(again, columns, p['how']))
        check_pivot(data, n, pivoted(got, columns, p['how']), list(columns_), columns, *details)
        # The reader itself is not changed by that.
        compare(group(table(again, n)), group(rows, keep), 'after pivoting', *details)
        if p['pandas'] == 15 and pandas() and got:
            third, fourth = sp(*p['selectors'], **kw), sp(*p['selectors'], **kw)
            df = third.to_pandas()
            back = [(tuple(r[:n]), {c: v for c, v in zip(df.columns[n:-1], r[n:-1]) if isinstance(v, str)}, r[-1])
                    for r in df.astype(object).itertuples(index=False, name=None)]
            compare(group(back), group(rows, keep), 'as data frame', *details)
            df = pivot_reader_to_pandas(fourth, columns, p['how'])
            if len(df):
                data = [list(df.columns)] + [[v for v in r] for r in df.astype(object).itertuples(index=False, name=None)]
                check_pivot(data, n, pivoted(got, columns, p['how']), list(columns_), 'as data frame', *details)
            third.close()
            fourth.close()
            rec.event('data frame')
        reader.close()
        again.close()
        del reader, again
        if scratch:
            left = set(os.listdir(scratch)) - before
            require(not left or not p['cache'], 'a closed result left files behind', left, *details)
        rec.event('selectors' if asts else 'no selectors')
        rec.event('grouped' if keep else 'not grouped')
        rec.event('on drive' if p['cache'] else 'in memory')


def run(case, rec):
    (world, ops), plist = case
    with closing(Engine(world, rec=rec)) as e:
        e.run(ops)
        m = e.model
        try:
            m.disaggregate()
        except Refused:
            rec.event('not readable')
            return
        plain = table(e.space(), len(m.columns))
        check_reads(e.space, m.columns, m.domain, m.attributes, plain, plist, rec, e.history())
        if len(plain) >= 2 and len({frozenset(a.items()) for _, a, _ in plain}) >= 2:
            rec.nontrivial()


# -- many results -------------------------------------------------------------------

def big_strategy():
    return st.tuples(st.one_of(st.integers(20, 120), st.integers(100, 600)), st.integers(1, 40), st.integers(1, 6),
                     st.integers(0, 10 ** 6), st.lists(PARAMS, min_size=1, max_size=2))


def run_big(case, rec):
    n, parents, sets, seed, plist = case
    import toron
    rnd = random.Random(seed)
    sp = toron.DataSpace()
    sp.add_index_columns('A', 'B')
    sp.add_partition_definitions({'A'})
    sp.add_weight_group('w')
    rows = [(f'a{i % parents}', f'b{i}', rnd.randrange(4)) for i in range(n)]
    sp.insert_index(rows, ['A', 'B', 'w'])
    sp.set_registered_attributes(['attr', 'kind'])
    groups = [(x, y) for x in ('a', 'c d', 'b') for y in ('a', 'b', '')][:sets + 1]
    data = [(a, b, x, y, 1 + rnd.randrange(1000)) for a, b, _ in rows for x, y in groups if rnd.random() < 0.5]
    data += [(f'a{k}', '', x, y, 1 + rnd.randrange(10 ** 5)) for k in range(min(parents, n)) for x, y in groups]
    rnd.shuffle(data)
    sp.insert_quantities2(value_column='q', data=data, columns=['A', 'B', 'attr', 'kind', 'q'])
    plain = table(sp(), 2)
    totals = {}
    for *_, x, y, q in data:
        totals[x, y] = totals.get((x, y), 0) + q
    sums = {}
    for _, attrs, value in plain:
        k = attrs.get('attr', ''), attrs.get('kind', '')
        sums[k] = sums.get(k, 0) + value
    require(sums.keys() == totals.keys() and all(close(sums[k], v) for k, v in totals.items()),
            'totals of the plain read', sums, totals)
    check_reads(sp, ['A', 'B'], '', ['attr', 'kind'], plain, plist, rec, case)
    rec.event('over 100 results' if len(plain) > 100 else 'up to 100 results')
    if len(plain) > 100:
        rec.nontrivial()


SUBS = [Sub('reads', strategy, run, 5000, 40000),
        Sub('many results', big_strategy, run_big, 300, 4000)]
