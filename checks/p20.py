"""P20: matching mapping rows to index records, against an independent matcher."""
import uuid

from hypothesis import strategies as st

import matching
from harness import Sub, require

PROPERTY = 'P20'
RULE = 'non-trivial: a row was split over several records, or a row was left out by precedence, limit or a missing weight'
ASSUMPTIONS = ['values agree up to a relative error of 1e-9',
               'levels of equal granularity may be processed in either order',
               'every row names at least one label or an index id on each side']

LABELS = st.sampled_from(['a', 'a', 'a', 'b', 'b', 'b', 'c', '-', "o'x", 'é, "z"'])
WEIGHED = st.sampled_from([1, 2, 3, 0, 0.5, 10, 7.25, 1000000, 1, 2])
WEIGHTS = st.one_of(*[WEIGHED] * 6, st.none())
VALUES = st.sampled_from([1, 2, 0, 10, 0.5, 7.75, 0.1, 100000, 3])


@st.composite
def spec(draw, prefix):
    weights = draw(st.sampled_from([WEIGHED, WEIGHED, WEIGHED, WEIGHTS, st.just(0)]))
    low = draw(st.sampled_from([0, 3, 5, 5, 8]))
    return (prefix, draw(st.sampled_from([1, 2, 2, 3, 3, 4])), draw(st.lists(st.integers(1, 15), max_size=4)),
            draw(st.lists(st.tuples(st.lists(LABELS, min_size=4, max_size=4), weights), min_size=low, max_size=low + 4)),
            draw(st.lists(st.integers(0, 8), max_size=2)))


PICK = st.tuples(st.sampled_from(['id', 'lab', 'lab', 'lab', 'lab', 'lab', 'wrong']), st.integers(0, 12), st.integers(0, 15))


@st.composite
def case_strategy(draw):
    limit = st.sampled_from([1, 2, 3, 5, 20, 20])
    return (draw(spec('x')), draw(spec('y')),
            draw(st.lists(st.tuples(PICK, PICK, VALUES), min_size=1, max_size=10)),
            (draw(limit), draw(limit)), (draw(st.booleans()), draw(st.booleans())),
            draw(st.sampled_from([None] * 14 + ['raw', 'raw', '', '', '', 'abc', '12x', -1])), draw(st.integers(0, 10 ** 6)), draw(st.booleans()))


BIG = st.tuples(st.sampled_from([1, 30, 300, 700]), st.sampled_from([1, 2, 7, 50, 400]), st.sampled_from(['ones', 'mixed', 'some']),
                st.lists(st.integers(0, 700), max_size=3))


@st.composite
def big_rows(draw, first_id=st.sampled_from([0, 1, 100, 256, 5000])):
    """Many rows, written down as a few numbers: see big_picks()."""
    return (draw(st.sampled_from([20, 255, 256, 257, 300, 600, 1100])), draw(first_id), draw(first_id), draw(st.integers(1, 97)),
            draw(st.sampled_from([0, 0, 2, 3, 50])), draw(st.sampled_from([0, 0, 2, 3, 50])), draw(st.lists(VALUES, min_size=1, max_size=4)))


def big_picks(numbers):
    """Row k names record k on one side and record k*step on the other, by id from a given row on and every
    n-th time at the coarser level."""
    n, id1, id2, step, coarse1, coarse2, values = numbers
    def one(k, a, first, coarse):
        if coarse and k % coarse == coarse - 1:
            return ('lab', a, 1)
        return ('id', (a + 1) % 700, 0) if k >= first else ('lab', a, 0)
    return [(one(k, k, id1, coarse1), one(k, k * step, id2, coarse2), values[k % len(values)]) for k in range(n)]


@st.composite
def big_case(draw):
    limit = st.sampled_from([1, 2, 7, 50, 1000])
    return (draw(BIG), draw(BIG), draw(big_rows()), (draw(limit), draw(limit)), (draw(st.booleans()), draw(st.booleans())),
            draw(st.integers(0, 10 ** 6)), draw(st.booleans()))


def run_big(case, rec):
    big1, big2, rows, limits, overlaps, shuffle, first = case
    run((matching.big_spec('x', big1), matching.big_spec('y', big2), big_picks(rows), limits, overlaps, None, shuffle, first), rec)


def real(toron, spaces, rows, limits, overlaps, first, reports=None):
    from toron._utils import BitFlags
    from toron.mapper import Mapper

    def source():
        for a, b, value in rows:
            out = []
            for ref, space in ((a, spaces[0]), (b, spaces[1])):
                n = len(space.index_columns)
                if ref[0] == 'id':
                    out += [ref[1], [''] * n, BitFlags([1] * n)]
                else:
                    out += [None, list(ref[1]), BitFlags(x != '' for x in ref[1])]
            yield out + [value]

    mapper = Mapper(spaces[0], spaces[1], source())
    order = ['node1', 'node2'] if first else ['node2', 'node1']
    texts = [None, None]
    for node in order:
        k = int(node[-1]) - 1
        if reports is not None:
            reports.clear()
        mapper.match_records(node, match_limit=limits[k], allow_overlapping=overlaps[k])
        if reports is not None:
            texts[k] = reports.texts
    got = []
    for node in ('node1', 'node2'):
        listed = list(mapper.iter_mappings(node))
        keys = [(o, i, bytes(lev)) for o, i, lev, v in listed]
        require(len(set(keys)) == len(keys), 'a pair is listed twice', listed)
        got.append({k: v for k, (_, _, _, v) in zip(keys, listed)})
    full = mapper.is_fully_matched()
    mapper.close()
    return got[0], got[1], full, texts


def run(case, rec, reports=None):
    import toron
    spec1, spec2, picks, limits, overlaps, bad, shuffle, first = case
    space1, side1 = matching.build_side(toron, spec1)
    space2, side2 = matching.build_side(toron, spec2)
    rows = []
    for k, (a, b, v) in enumerate(picks):
        if bad == 'raw':
            if k == len(picks) - 1:
                a = ('raw',) + tuple(a[1:])
        elif bad is not None and k == shuffle % len(picks):
            v = bad
        rows.append((matching.row_side(side1, a), matching.row_side(side2, b), v))
    good = [matching.side_model(s).structure() for s in (side1, side2)]
    refused = any(matching.level_of(s, r[k]) not in good[k] for r in rows for k, s in ((0, side1), (1, side2)))
    if bad in ('abc', '12x', -1):
        try:
            got = real(toron, (space1, space2), rows, limits, overlaps, first)
        except Exception:
            rec.event('value refused')
            return
        require(False, f'the value {bad!r} is accepted', rows, got)
    try:
        got = real(toron, (space1, space2), rows, limits, overlaps, first, reports)
    except RuntimeError as err:
        require(refused, f'refused although every row fits a partition: {err}', rows)
        rec.event('row fits no partition')
        return
    require(not refused or bad == '', 'accepted a row that fits no partition', rows)
    if bad == '':
        rec.event('row without a value')
        every, rows = rows, [r for r in rows if r[2] != '']
    else:
        every = rows
    stats = {}
    expected = matching.outcomes(side1, side2, rows, limits, overlaps, 0.0, stats=stats)
    if expected is None:
        rec.excluded('too many levels of equal granularity')
        return
    for k in stats:
        rec.event(k)
    if len(expected) > 1:
        rec.event('equal granularity')
    if set(stats) - {'ambiguous', 'missing'}:
        rec.nontrivial()
    ok = [e for e in expected if matching.close(e[0], got[0]) and matching.close(e[1], got[1])]
    require(ok, 'the mappings differ from the documented matching',
            ('rows', rows), ('limits', limits), ('overlaps', overlaps), ('sides', side1, side2),
            ('got', got[:2]), ('expected', [e[:2] for e in expected][:2]))
    if reports is not None:
        require(any(all(matching.report_fits(got[3][k], e[6 + k], overlaps[k]) for k in (0, 1)) for e in ok),
                'the reported numbers are wrong', got[3], [e[6:] for e in ok][:2], rows, limits, side1, side2)
    defined = [{i for i in s['index'] if i} for s in (side1, side2)]
    full = {e[2] - {0} == defined[0] and e[3] - {0} == defined[1] for e in ok}
    require(got[2] in full, f'is_fully_matched() is {got[2]}', rows, side1, side2)
    if got[2]:
        rec.event('fully matched')
    # Values of rows matched on both sides are conserved, in both directions.
    totals = []
    for e in ok:
        totals.append(sum(v for k, (_, _, v) in enumerate(rows)
                          if k in e[4] and k in e[5] and not (set(e[4][k]) == {0} and set(e[5][k]) == {0})))
    for side in (0, 1):
        total = sum(got[side].values())
        mixed = any(0 in e[4].get(k, ()) and 0 in e[5].get(k, ()) for e in ok for k in range(len(rows)))
        if not mixed:
            require(any(abs(total - t) <= 1e-9 * max(1, abs(t)) for t in totals), 'values are lost or invented', total, totals, rows)
    # The order of the rows does not matter.
    order = sorted(range(len(every)), key=lambda k: (shuffle * (k + 7) * 2654435761) % 1000003)
    again = real(toron, (space1, space2), [every[k] for k in order], limits, overlaps, not first)
    require(matching.close(got[0], again[0]) and matching.close(got[1], again[1]) and got[2] == again[2],
            'the order of the rows matters', rows, order, got, again)


SUBS = [Sub('matching', case_strategy, run, 12000, 96000), Sub('large', big_case, run_big, 100, 1500)]
