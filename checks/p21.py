"""P21: loading a mapping between two spaces and listing it, against an independent matcher."""
from hypothesis import strategies as st

import matching
import p20
from engine import tabular
from harness import Sub, require
from model import level_bits

PROPERTY = 'P21'
RULE = ('non-trivial: a row was split over several records, or a row was left out by precedence, limit or a missing '
        'weight, or a record was listed as not covered')
ASSUMPTIONS = ['values agree up to a relative error of 1e-9',
               'levels of equal granularity may be processed in either order']

PICK = st.tuples(st.sampled_from(['lab'] * 12 + ['wrong', 'raw', 'none']), st.integers(0, 12), st.integers(0, 15))
NAMES = ['m', 'm', 'pop 2000', 'é "l"', 'total: size', 'x', 'y', 'co']


@st.composite
def case_strategy(draw):
    same = draw(st.integers(0, 3)) == 0
    form = (draw(st.integers(0, 2)), draw(st.integers(0, 30)), draw(st.integers(0, 30)), draw(st.integers(0, 5)))
    return (draw(p20.spec('x')), draw(p20.spec('x' if same else 'y')),
            draw(st.lists(st.tuples(PICK, PICK, p20.VALUES), min_size=1, max_size=10)),
            draw(st.sampled_from([1, 2, 3, 5, 20, 20])), draw(st.booleans()), form,
            draw(st.sampled_from(['->', '<-', '<->', '<->', '-->', '<--', '<-->'])),
            draw(st.integers(0, len(NAMES) - 1)), draw(st.sampled_from([('', ''), ('', ''), ('L', 'R'), ('', 'R'), ('D', 'D')])),
            draw(st.sampled_from([None, None, None, None, '', 'abc', -1, 'dup-left', 'dup-right', 'domain'])),
            draw(st.lists(st.tuples(st.sampled_from(['del1', 'del2', 'ins1', 'ins2']), st.integers(0, 12)), max_size=2)),
            draw(st.sampled_from([None, None, True, False])), draw(st.integers(0, 3)))


@st.composite
def big_case(draw):
    return (draw(p20.BIG), draw(p20.BIG), draw(p20.big_rows(st.just(5000))), draw(st.sampled_from([1, 2, 7, 50, 1000])), draw(st.booleans()),
            (draw(st.integers(0, 2)), draw(st.integers(0, 30)), draw(st.integers(0, 30)), draw(st.integers(0, 5))),
            draw(st.sampled_from(['->', '<-', '<->'])), draw(st.lists(st.tuples(st.sampled_from(['del1', 'del2', 'ins1', 'ins2']), st.integers(0, 700)), max_size=2)))


def run_big(case, rec):
    big1, big2, rows, limit, overlap, form, direction, edits = case
    run((matching.big_spec('x', big1), matching.big_spec('y', big2), p20.big_picks(rows), limit, overlap, form, direction, 0, ('', ''),
         None, edits, None, 0), rec)


def permuted(columns, seed):
    out = list(columns)
    k = seed
    for i in range(len(out) - 1, 0, -1):
        j = k % (i + 1)
        k = k * 7 // (i + 1) + 3
        out[i], out[j] = out[j], out[i]
    return out


def table(sides, rows, name, form, domains, broken, k):
    """(data, columns) of the mapping in the chosen input form and column order."""
    kind, seed1, seed2, value_header = form
    left, right = permuted(sides[0]['columns'], seed1), permuted(sides[1]['columns'], seed2)
    lcols, rcols = list(left), list(right)
    if domains[0] and seed1 % 2:
        lcols.insert(seed1 % (len(lcols) + 1), 'domain')
    if domains[1] and seed2 % 2:
        rcols.insert(seed2 % (len(rcols) + 1), 'domain')
    value = f'{name}: file1 --> file2' if value_header == 0 and name == 'm' else name
    out = []
    for n, (a, b, v) in enumerate(rows):
        da = dict(zip(sides[0]['columns'], a[1]), domain=domains[0])
        db = dict(zip(sides[1]['columns'], b[1]), domain=domains[1])
        if broken == 'domain' and n == k % len(rows):
            wrong = [d for d in ('other', '', (domains[0] or domains[1] or '') + ' ', (domains[0] or domains[1] or '').swapcase())
                     if d not in domains] or ['other']
            both = {0, 1} if k % 2 or len(set(lcols + rcols) & {'domain'}) == 0 else {0} if 'domain' in lcols else {1}
            for t, d in enumerate((da, db)):
                if t in both:
                    d['domain'] = wrong[seed1 % len(wrong)]
        out.append([da[c] for c in lcols] + [v] + [db[c] for c in rcols])
    columns = lcols + [value] + rcols
    if len(set(columns)) < len(columns):
        kind = kind % 2
    return tabular(columns, out, kind), 'domain' in columns


def listing(source, target, side_s, side_t, pairs, name, domains):
    """The rows that listing the mapping has to give, as a sorted list."""
    def part(side, i, domain):
        d = (domain,) if domain else ()
        if i is None:
            return (None,) + tuple(None for _ in d) + (None,) * len(side['columns'])
        labels = side['index'].get(i, (None,) * len(side['columns']))
        return (i,) + d + tuple(labels)
    out = [(0, 0, None, 0.0)]
    for (o, i, lev), v in pairs.items():
        bits = list(level_bits(lev)) + [0] * len(side_t['columns'])
        names = [c for c, b in zip(side_t['columns'], bits) if not b]
        out.append((o, i, ', '.join(names) or None, v))
    for i in side_t['index']:
        if i and not any(p[1] == i for p in pairs):
            out.append((None, i, None, None))
    for o in side_s['index']:
        if o and not any(p[0] == o for p in pairs):
            out.append((o, None, None, None))
    res = []
    for o, i, amb, v in out:
        res.append((part(side_s, o, domains[0]) + ('VALUE',) + part(side_t, i, domains[1]) + (amb,), v))
    return res


def look(link):
    return (link.other_unique_id, link.name, link.selectors, bool(link.is_default), bool(link.is_locally_complete))


def state(space):
    with space._managed_cursor() as cur:
        names = [r[0] for r in cur.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name").fetchall()]
        return {n: cur.execute(f'SELECT * FROM {n}').fetchall() for n in names}


def check_listing(got, expected, header, what, *details):
    require(tuple(got[0]) == header, f'{what}: header', got[0], header)
    pos = header.index(header[-1]) if False else None
    rows = []
    for row in got[1:]:
        k = details[0]
        rows.append((tuple(row[:k]) + ('VALUE',) + tuple(row[k + 1:]), row[k]))
    a = sorted(rows, key=repr_key)
    b = sorted(expected, key=repr_key)
    require([x[0] for x in a] == [x[0] for x in b], f'{what}: rows', [x for x in a if x[0] not in [y[0] for y in b]],
            'expected', [x for x in b if x[0] not in [y[0] for y in a]], details[1:])
    for x, y in zip(a, b):
        require((x[1] is None) == (y[1] is None) and (x[1] is None or abs(x[1] - y[1]) <= 1e-9 * max(1, abs(y[1]))),
                f'{what}: value', x, y, details[1:])


def check_reports(texts, direction, ok, invalid, overlap, stored, sides, targets, rows):
    starts = [k for k, t in enumerate(texts) if t.startswith('loading mapping from')] + [len(texts)]
    require(len(starts) == len(targets) + 1, 'the directions that are reported', texts, direction)
    matched = texts[:starts[0]]
    details = (texts, rows, sides, stored)
    require(any(matching.report_fits(matched, total(e[6], e[7]), overlap, ('missing', 'nomatch')) for e in ok),
            'the reported numbers are wrong', [e[6:] for e in ok][:2], *details)
    require(sum(matching.reported(matched, r'skipped (\d+) values that used invalid')) == invalid,
            'the reported number of invalid rows', invalid, *details)
    for (s, t), a, b in zip(targets, starts, starts[1:]):
        part = texts[a:b]
        require(('left to right' in part[0]) == (t == 1), 'direction', *details)
        require(sum(matching.reported(part, r'loaded (\d+) mappings')) == len(stored[t]), 'mappings loaded', part, *details)
        require(any('no mappings loaded' in x for x in part) == (not stored[t]), 'nothing loaded', part, *details)
        missing = [0, 0]
        missing[s] = len(set(sides[s]['index']) - {0} - {o for o, _, _ in stored[t]})
        missing[t] = len(set(sides[t]['index']) - {0} - {i for _, i, _ in stored[t]})
        for side, n in zip(('left', 'right'), missing):
            require(sum(matching.reported(part, rf'missing (\d+) indexes on {side}-side')) == n,
                    f'records not covered on the {side} side: {n}', part, *details)
        require(any('cleanly matches' in x for x in part) == (missing == [0, 0]), 'clean match', part, *details)


def total(a, b):
    out = a + b
    out['highest'] = max(a['highest'], b['highest'])
    return out


def repr_key(item):
    return repr(item[0])


def run(case, rec, reports=None):
    import toron
    from toron.graph import get_mapping, load_mapping
    (spec1, spec2, picks, limit, overlap, form, direction, name_k, domains, broken, edits, default, preset) = case
    space1, side1 = matching.build_side(toron, spec1)
    space2, side2 = matching.build_side(toron, spec2)
    spaces, sides = (space1, space2), (side1, side2)
    name = NAMES[name_k]
    for space, domain in zip(spaces, domains):
        if domain:
            space.set_domain(domain)
    rows = []
    for a, b, v in picks:
        refs = []
        for side, pick in ((side1, a), (side2, b)):
            if pick[0] == 'none':
                refs.append(('lab', ('',) * len(side['columns'])))
            else:
                refs.append(matching.row_side(side, pick, allow_bad=False))
        rows.append((refs[0], refs[1], v))
    if broken in ('', 'abc', -1):
        k = form[1] % len(rows)
        rows[k] = rows[k][:2] + (broken,)
    targets = [(0, 1)] if '>' in direction else []      # (source, target)
    if '<' in direction:
        targets.append((1, 0))
    others = 0
    if preset == 1:     # another link between the same spaces
        for s, t in targets:
            spaces[t].add_link(spaces[s], 'other', is_default=True)
        others = 1
    elif preset == 2:
        for s, t in targets:
            spaces[t].add_link(spaces[s], 'other', is_default=False)
        others = 1
    if broken in ('dup-left', 'dup-right'):
        s, t = targets[0] if broken == 'dup-right' else targets[-1]
        spaces[t].add_link(spaces[s], name)
    (data, columns), has_domain = table(sides, rows, name, form, domains, broken, form[2])
    before = [state(space) for space in spaces]
    selectors = [None, ['[k="v"]'], ['[k]', '[a="b"]']][form[1] % 3]
    if reports is not None:
        reports.clear()
    must_fail = broken in ('abc', -1, 'dup-left', 'dup-right') or (broken == 'domain' and has_domain)
    try:
        load_mapping(space1, direction, space2, name, data, columns, selectors=selectors, is_default=default,
                     match_limit=limit, allow_overlapping=overlap)
    except Exception as err:
        require(must_fail, f'loading fails: {err!r}', rows, sides)
        after = [state(space) for space in spaces]
        require(before == after, 'a load that fails leaves something behind', broken, direction, rows)
        rec.event(f'refused: {broken}')
        return
    require(not must_fail, f'accepted ({broken})', rows, form)
    told = list(reports.texts) if reports is not None else None
    rows = [r for r in rows if r[2] != '']

    good = [matching.side_model(s).structure() - {()} for s in sides]
    invalid = 0
    usable = [r for r in rows]
    # A side whose labels fit no partition matches nothing.
    prepared = []
    for r in usable:
        refs = []
        for k in (0, 1):
            ref = r[k]
            if matching.level_of(sides[k], ref) not in good[k]:
                ref = ('id', None)
                invalid += 1
            refs.append(ref)
        prepared.append((refs[0], refs[1], r[2]))
    stats = {}
    expected = matching.outcomes(side1, side2, prepared, (limit, limit), (overlap, overlap), None, stats=stats)
    if expected is None:
        rec.excluded('too many levels of equal granularity')
        return
    for k in stats:
        rec.event(k)

    stored = [None, None]
    for s, t in targets:
        with spaces[t]._managed_cursor() as cur:
            link = [x for x in spaces[t].links if x.name == name]
            require(len(link) == 1, 'not exactly one link', spaces[t].links)
            link = link[0]
            got = {}
            for o, i, lev, v in cur.execute('SELECT other_index_id, index_id, mapping_level, mapping_value '
                                            'FROM mapping WHERE link_id=?', (link.id,)).fetchall():
                got[o, i, bytes(lev)] = v
        stored[t] = got
    ok = [e for e in expected if all(matching.close(e[t], stored[t]) for _, t in targets)]
    require(ok, 'the mappings differ from the documented matching', ('rows', rows), ('limit', limit, overlap),
            ('sides', sides), ('got', stored), ('expected', [e[:2] for e in expected][:2]))

    if told is not None:
        check_reports(told, direction, ok, invalid, overlap, stored, sides, targets, rows)
    for s, t in targets:
        link = spaces[t].get_link(spaces[s], name)
        complete = {i for _, i, _ in stored[t]} | {0} == set(sides[t]['index'])
        is_default = default if default is not None else not others
        selector_text = link.selectors
        require((link.other_unique_id, link.name, bool(link.is_default)) ==
                (spaces[s].unique_id, name, is_default), 'the link is not recorded as requested', link, default, others)
        require((selector_text or None) == selectors, 'the link\'s selectors', link, selectors)
        if stored[t]:
            require(bool(link.is_locally_complete) == complete, f'completeness should be {complete}', link, stored[t], sides)
        if default and others:
            other = [x for x in spaces[t].links if x.name == 'other']
            require(len(other) == 1 and not other[0].is_default, 'two default links', spaces[t].links)
    for s, t in ((0, 1), (1, 0)):
        if (s, t) not in targets:
            require([x.name for x in spaces[t].links] == [], 'a link in a direction not asked for', spaces[t].links)
    if len(targets) == 2:
        sums = []
        for t in (0, 1):
            d = {}
            for (o, i, _), v in stored[t].items():
                d[(o, i) if t else (i, o)] = d.get((o, i) if t else (i, o), 0) + v
            sums.append(d)
        undropped = [{k: v for k, v in d.items()} for d in sums]
        require(matching.close(undropped[0], undropped[1]), 'the two directions differ', *undropped)

    # Changes to the indexes afterwards.
    for op, k in edits:
        n = int(op[-1]) - 1
        side, space = sides[n], spaces[n]
        if op.startswith('ins'):
            labels = ('new',) + ('q',) * (len(side['columns']) - 1)
            if labels not in side['index'].values():
                space.insert_index([labels], side['columns'])
                it = space.select_index()
                next(it)
                for row in it:
                    if tuple(row[1:]) == labels:
                        side['index'][row[0]] = labels
        else:
            live = [i for i in sorted(side['index']) if i]
            if not live:
                continue
            i = live[k % len(live)]
            incoming = [m for m in (stored[n] or ()) if m[1] == i]
            whole = matching.level_bytes([1] * len(side['columns']))
            if any(m[2] != whole for m in incoming):
                continue    # refused, see P08
            space.delete_index(**dict(zip(side['columns'], side['index'][i])))
            del side['index'][i]
            for m in incoming:
                del stored[n][m]
        rec.event(f'edit {op[:3]}')

    for s, t in targets:
        got = list(get_mapping(spaces[s], spaces[t], name))
        ds, dt = (domains[s], domains[t])
        header = (('index_id',) + (('domain',) if ds else ()) + tuple(sides[s]['columns']) + (name, 'index_id')
                  + (('domain',) if dt else ()) + tuple(sides[t]['columns']) + ('ambiguous_fields',))
        want = listing(spaces[s], spaces[t], sides[s], sides[t], stored[t], name, (ds, dt))
        k = 1 + bool(ds) + len(sides[s]['columns'])
        check_listing(got, want, header, f'listing {s}->{t}', k, rows, sides, stored[t])
        require(list(get_mapping(spaces[s], spaces[t], name, header=False)) == got[1:], 'header=False differs')
        if any(v is None for _, v in want):
            rec.event('record not covered')
            rec.nontrivial()
    if set(stats) - {'ambiguous', 'missing'}:
        rec.nontrivial()


SUBS = [Sub('loading', case_strategy, run, 9600, 76800), Sub('large', big_case, run_big, 100, 1500)]
