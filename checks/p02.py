"""P02: quantizing gives whole values and keeps the exact total."""
from fractions import Fraction
from math import isfinite, modf

from hypothesis import strategies as st

from harness import Sub, Violation, require

PROPERTY = 'P02'
RULE = ('non-trivial: at least two records take part in one split and the quantity does not '
        'divide into whole shares, so that rounding has to choose')
ASSUMPTIONS = [
    'totals and shares below 2**40, so that a float represents the whole numbers exactly',
]


def check_split(shares, total, result, tol, label=''):
    """Oracle: largest-remainder rules, by exact rational arithmetic."""
    require(sorted(i for i, _ in result) == sorted(i for i, _ in shares),
            f'{label}records differ', shares, result)
    got = {}
    for i, v in result:
        got[i] = v
    exact = sum((Fraction(v) for v in got.values()), Fraction(0))
    whole_total = Fraction(total).denominator == 1
    if whole_total:
        require(exact == Fraction(total), f'{label}total changed: {float(exact)!r} != {total!r}', shares, result)
    else:
        require(abs(exact - Fraction(total)) <= Fraction(tol), f'{label}total changed: {float(exact)!r} != {total!r}', shares, result)
    fractional = [(i, v) for i, v in got.items() if Fraction(v).denominator != 1]
    if whole_total:
        require(not fractional, f'{label}fractional value for a whole total', shares, total, result)
    else:
        require(len(fractional) <= 1, f'{label}several fractional values', shares, total, result)
    for i, v in shares:
        require(abs(Fraction(got[i]) - Fraction(v)) < 1 + Fraction(tol),
                f'{label}value of {i} is not within one unit of its share', shares, total, result)
    # Largest remainder first: a record rounded away from zero never has a
    # clearly smaller remainder than one that was cut off.
    if total != 0:
        up, down = [], []
        for i, v in shares:
            frac, whole = modf(v)
            d = Fraction(got[i]) - Fraction(whole)
            if abs(d) == 1:
                up.append((abs(frac), i))
            elif d == 0:
                down.append((abs(frac), i))
        if up and down:
            require(min(up)[0] >= max(down)[0] - tol,
                    f'{label}smaller remainder was preferred', shares, total, result)


# -- direct -----------------------------------------------------------------
def totals():
    whole = st.one_of(st.integers(-20, 20), st.integers(-10**6, 10**6),
                      st.integers(-2**40, 2**40)).map(float)
    frac = st.one_of(
        st.sampled_from([0.5, 0.25, 0.1, 1.5, 2.75, -0.5, -1.25, 1e-9, 0.999999, 1 / 3, 7.3]),
        st.floats(-1e6, 1e6, allow_nan=False, allow_subnormal=False).map(lambda x: round(x, 6)))
    return st.one_of(whole, whole, frac)


@st.composite
def direct_case(draw):
    n = draw(st.integers(0, 8))
    ids = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, 2**40)),
                        min_size=n, max_size=n, unique=True))
    kind = draw(st.sampled_from(['small', 'equal', 'float', 'zeros', 'halves']))
    w = {'small': st.integers(0, 7), 'equal': st.just(1),
         'float': st.floats(0, 1000, allow_nan=False, allow_subnormal=False).map(lambda x: round(x, 3)),
         'zeros': st.sampled_from([0, 0, 1, 3]), 'halves': st.sampled_from([1, 2, 4])}[kind]
    weights = draw(st.lists(w, min_size=n, max_size=n))
    return ids, weights, draw(totals())


def run_direct(case, rec):
    from toron._utils import quantize_values
    ids, weights, total = case
    s = float(sum(weights))
    if s:
        shares = [(i, total * (w / s)) for i, w in zip(ids, weights)]
    elif ids:
        shares = [(i, total * (1 / len(ids))) for i in ids]
    else:
        total = 0.0
        shares = []
    tol = 1e-9 * max(1.0, abs(total))
    result = list(quantize_values(iter(shares), total))
    check_split(shares, total, result, tol)
    again = list(quantize_values(iter(list(reversed(shares))), total))
    require(sorted(again) == sorted(result), 'result depends on the order of the records', shares, total, result, again)
    rec.event(f'records={min(len(ids), 4)}')
    rec.event('whole total' if total == int(total) else 'fractional total')
    if len(ids) > 1 and any(v != int(v) for _, v in shares):
        rec.nontrivial()


# -- through the public API --------------------------------------------------
@st.composite
def space_case(draw):
    n = draw(st.integers(1, 6))
    groups = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    weights = draw(st.lists(st.one_of(st.integers(0, 5), st.sampled_from([0.5, 1.25, 3.3])), min_size=n, max_size=n))
    partition = draw(st.sampled_from([True, True, False]))
    quantities = draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from('pqr'), totals()),
                               min_size=1, max_size=5, unique_by=lambda x: x[:2]))
    # mappings of each source record to target records 1..m
    m = draw(st.integers(1, 5))
    maps = [draw(st.lists(st.tuples(st.integers(1, m), st.integers(0, 6)),
                          min_size=1, max_size=4, unique_by=lambda x: x[0])) for _ in range(n)]
    return groups, weights, quantities, m, maps, partition


def run_space(case, rec):
    from toron import DataSpace
    groups, weights, quantities, m, maps, partition = case
    sp = DataSpace()
    sp.add_index_columns('A', 'B')
    sp.add_partition_definition({'A'})
    sp.set_registered_attributes(['v'])
    sp.add_weight_group('w')
    sp.insert_index([(f'g{g}', f'r{i}', w) for i, (g, w) in enumerate(zip(groups, weights), 1)],
                    ['A', 'B', 'w'])
    names = {(f'g{g}', f'r{i}'): i for i, g in enumerate(groups, 1)}
    use = [(g, v, q) for g, v, q in quantities if g in groups]
    if not use:
        return
    sp.insert_quantities2(value_column='q', data=[(f'g{g}', '', v, q) for g, v, q in use],
                          columns=['A', 'B', 'v', 'q'])

    def expect(g, q):
        members = [i for i, gg in enumerate(groups, 1) if gg == g]
        s = float(sum(weights[i - 1] for i in members))
        if s:
            return [(i, q * (weights[i - 1] / s)) for i in members]
        return [(i, q * (1 / len(members))) for i in members]

    plain = list(sp())
    rows = list(sp(quantize=True))
    expected = {(i, v): x for g, v, q in use for i, x in expect(g, q)}
    # 'quantize' is not requested: no rounding.
    pl = {(names[r[:2]], r[2]): r[3] for r in plain}
    require(set(pl) == set(expected), 'records of the plain result', pl, expected)
    for k, x in expected.items():
        require(abs(pl[k] - x) <= 1e-9 * max(1, abs(x)), 'plain result was rounded', k, pl[k], x)
    got = {}
    for r in rows:
        k = (names[r[:2]], r[2])
        require(k not in got, 'record appears twice', k)
        got[k] = r[3]
    hard = False
    for g, v, q in use:
        shares = expect(g, q)
        mine = [(i, got[(i, v)]) for i, _ in shares if (i, v) in got]
        if len(shares) == 1:
            require(mine == [(shares[0][0], q)], 'unsplit quantity changed', mine, q)
        else:
            check_split(shares, q, mine, 1e-9 * max(1, abs(q)), 'disaggregation: ')
            hard = hard or any(x != int(x) for _, x in shares)
    rec.event('disaggregated')

    # Translation with quantize.
    tgt = DataSpace()
    tgt.add_index_columns('C')
    tgt.insert_index([(f't{j}',) for j in range(1, m + 1)], ['C'])
    tgt.add_link(sp, 'pop')
    tgt.insert_mappings2(sp, 'pop', [(i, j, b'\x80', float(x)) for i, ms in enumerate(maps, 1) for j, x in ms],
                         ['other_index_id', 'index_id', 'mapping_level', 'pop'])
    tnames = {f't{j}': j for j in range(1, m + 1)}
    reader = sp(quantize=True)
    way = (len(got) + m) % 3
    if way == 0:
        reader.translate(tgt, quantize=True)
    elif way == 1:
        reader.translate(tgt)  # The reader asked to quantize: so do its steps.
    else:
        reader = reader >> tgt
    out = {}
    for r in reader:
        out[(tnames[r[0]], r[1])] = out.get((tnames[r[0]], r[1]), Fraction(0)) + Fraction(r[2])
    # Oracle for each attribute: whole source values stay whole, each source
    # value contributes to a target less than one unit away from its share.
    lo, hi, tot = {}, {}, {}
    fractional = set()
    for (i, v), x in got.items():
        ms = maps[i - 1]
        s = float(sum(y for _, y in ms))
        tot[v] = tot.get(v, Fraction(0)) + Fraction(x)
        if x != int(x):
            fractional.add(v)
        if len(ms) > 1:
            hard = hard or True
        for j, y in ms:
            share = Fraction(x) * Fraction(y / s if s else 1 / len(ms))
            slack = 0 if share.denominator == 1 and len(ms) == 1 else 1
            lo[(j, v)] = lo.get((j, v), 0) + share - slack
            hi[(j, v)] = hi.get((j, v), 0) + share + slack
    sums = {}
    for (j, v), x in out.items():
        tol = Fraction(1, 10**6)
        require((j, v) in lo, 'value at a record nothing maps to', (j, v), float(x))
        require(lo[(j, v)] - tol <= x <= hi[(j, v)] + tol, 'translated value more than one unit off per part',
                (j, v), float(x), float(lo[(j, v)]), float(hi[(j, v)]))
        if v not in fractional:
            require(x.denominator == 1, 'fractional value from whole quantities', (j, v), float(x))
        sums[v] = sums.get(v, Fraction(0)) + x
    for v in tot:
        if v not in fractional:
            require(sums.get(v) == tot[v], 'translation changed the total', v, float(sums.get(v, 0)), float(tot[v]))
        else:
            require(abs(sums.get(v, 0) - tot[v]) <= Fraction(1, 10**6) * max(1, abs(tot[v])),
                    'translation changed the total', v)
    rec.event('translated')
    if hard:
        rec.nontrivial()


SUBS = [
    Sub('direct', direct_case, run_direct, 72000, 576000),
    Sub('space', space_case, run_space, 3600, 28800),
]
