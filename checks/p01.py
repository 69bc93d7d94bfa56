"""P01: disaggregation conserves every quantity and splits it by weight."""
from contextlib import closing
from fractions import Fraction

from hypothesis import strategies as st

from engine import history_sub
from harness import Sub, require

PROPERTY = 'P01'
RULE = ('non-trivial: a read succeeded while at least one quantity belonged to a location with several '
        'matching records (histories); at least one location with several records (large)')
ASSUMPTIONS = ['values agree up to a relative error of 1e-9', 'results of zero are not distinguished from no result']

WEIGHTS = {'insqi': 5, 'ins': 3, 'insq': 2, 'fillw': 4, 'addg': 2, 'upd': 2, 'delr': 2, 'updw': 2, 'insw': 1,
           'delwr': 1, 'setdef': 1, 'addps': 1, 'addp': 1, 'drope': 1, 'delunm': 2, 'delnoidx': 1, 'domain': 1,
           'editg': 1, 'dropg': 1, 'addc': 1, 'reload': 1}


def after(e, op, outcome):
    m = e.model
    want = e.want_disagg()
    if want != 'refused' and any(m.fits(lab) and len(m.matches(lab)) > 1 for lab, _ in m.quantities):
        e.split = getattr(e, 'split', 0) + 1
        total = {}
        for (lab, attrs), v in m.quantities.items():
            if m.fits(lab):
                total[attrs] = total.get(attrs, 0.0) + v
        # (checked against the model by the observable; totals as a second opinion)
        got = {}
        for (lab, attrs), v in e.see_disagg().items():
            attrs = frozenset(x for x in attrs if x[0] != 'domain')
            got[attrs] = got.get(attrs, 0.0) + v
        for attrs, v in total.items():
            require(abs(got.get(attrs, 0.0) - v) <= 1e-9 * max(1, abs(v)), f'total of {attrs} changed', got, total,
                    e.history())


def extra(e, rec):
    if getattr(e, 'split', 0):
        rec.nontrivial()


@st.composite
def large_case(draw):
    ncols = draw(st.integers(1, 4))
    nrec = draw(st.integers(1, 40))
    width = draw(st.integers(1, 4))
    index = draw(st.lists(st.tuples(*[st.integers(0, width)] * ncols), min_size=nrec, max_size=nrec, unique=True)
                 if (width + 1) ** ncols >= 2 * nrec else st.just(
                     [tuple([i // (width + 1) ** k % (width + 1) for k in range(ncols)])
                      for i in range(min(nrec, (width + 1) ** ncols))]))
    weight = draw(st.sampled_from([st.integers(0, 9), st.sampled_from([0, 0, 0, 5]), st.integers(0, 10 ** 9),
                                   st.sampled_from([0.1, 0.25, 1e-6, 1e6, 3.75]),
                                   st.sampled_from([1e-12, 2.5e-11, 0, 1e-15]), st.sampled_from([1e-300, 1e-290]),
                                   st.sampled_from([1e15, 3e14, 1])]))
    weights = draw(st.lists(weight, min_size=len(index), max_size=len(index)))
    parts = draw(st.lists(st.integers(1, 2 ** ncols - 1), min_size=0, max_size=3))
    quantities = draw(st.lists(st.tuples(
        st.integers(0, len(index) - 1), st.integers(0, 30), st.integers(0, 2),
        st.one_of(st.integers(-1000, 1000), st.sampled_from([0.1, 1e9, -0.5, 123456.789, 1e-7]))),
        min_size=1, max_size=10))
    return ncols, index, weights, parts, quantities, draw(st.permutations(range(len(index))))


def run_large(case, rec):
    from model import Model, bits_of
    from toron import DataSpace
    ncols, index, weights, parts, quantities, order = case
    cols = [f'c{k}' for k in range(ncols)]
    sp = DataSpace()
    sp.add_index_columns(*cols)
    m = Model()
    m.columns, m.index = cols, {0: ('-',) * ncols}
    m.partitions = {frozenset(cols)}
    for p in parts:
        d = frozenset(c for k, c in enumerate(cols) if p >> k & 1)
        m.add_partitions([d])
        sp.add_partition_definitions(set(d))
    sp.set_registered_attributes(['v'])
    sp.add_weight_group('w')
    lab = [tuple(f'L{x}' for x in t) for t in index]
    sp.insert_index([lab[i] + (weights[i],) for i in order], cols + ['w'])
    ids = {r[1:]: r[0] for r in sp.select_index()}
    m.index.update({ids[x]: x for x in lab})
    wt = {ids[x]: Fraction(w) for x, w in zip(lab, weights)}
    struct = sorted(m.structure())
    rows = {}
    for i, s, v, q in quantities:
        b = struct[s % len(struct)]
        loc = tuple(x if j < len(b) and b[j] else '' for j, x in enumerate(lab[i]))
        rows[loc, f'v{v}'] = q
    sp.insert_quantities2(value_column='q', data=[loc + (v, q) for (loc, v), q in rows.items()],
                          columns=cols + ['v', 'q'])
    want, scale = {}, {}
    several = False
    for (loc, v), q in rows.items():
        hits = [i for i in m.matches(loc) if i]
        several |= len(hits) > 1
        total = sum(wt[i] for i in hits)
        for i in hits:
            share = Fraction(q) * (wt[i] / total if total else Fraction(1, len(hits)))
            want[m.index[i], v] = want.get((m.index[i], v), 0) + share
            scale[m.index[i], v] = scale.get((m.index[i], v), 0) + abs(Fraction(q))
    got = {}
    for r in sp():
        key = (tuple(r[:ncols]), r[ncols])
        require(key not in got, 'result appears twice', key, r)
        got[key] = r[-1]
    for key in set(want) | set(got):
        x, y = want.get(key, 0), got.get(key, 0)
        require(abs(Fraction(y) - x) <= Fraction(1, 10 ** 9) * (scale.get(key, 0)),
                f'{key}: {y} should be {float(x)}', rows, weights)
    rec.event(f'columns={ncols} records={len(index) // 10}x10')
    if several:
        rec.nontrivial()


SUBS = [
    history_sub('histories', WEIGHTS, ['disagg'], set(), 1, 2100, 16800,
                prelude=['index', 'group', 'part', 'quant', 'quant'], after=after, extra=extra, min_cols=2),
    Sub('large', large_case, run_large, 1500, 12000),
]
