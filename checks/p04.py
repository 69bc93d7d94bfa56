"""P04: the choice of weight groups and links by selectors."""
import os
import tempfile

from hypothesis import strategies as st

import p05
from harness import HarnessError, Sub, require

PROPERTY = 'P04'
RULE = ('non-trivial: some set of attribute values is matched by the selectors of two or more candidates, '
        'or by those of a candidate that must not be used')
ASSUMPTIONS = ['compound selectors do not repeat the same part (their equality ignores repetition)']

ATTRS = ['a', 'b', 'c']
BLANK = dict.fromkeys(ATTRS, '')
CELLS = ['x', 'X y', 'y', 'x-y', 'xx', 'z x', '']
VALS = ['x', 'x', 'x', 'y', 'z', 'x-y', 'x y', 'd']


@st.composite
def leaf(draw):
    name = draw(st.sampled_from(['a', 'a', 'a', 'b', 'b', 'c', 'a', 'b', 'domain', 'other']))
    op = draw(st.sampled_from([None] * 5 + p05.OPS + ['=', '*=', '*=']))
    if op is None:
        return ('attr', name, None, None, False)
    return ('attr', name, op, draw(st.sampled_from(VALS)), draw(st.integers(0, 3)) == 0)


def simple(depth):
    if not depth:
        return leaf()
    inner = st.lists(simple(depth - 1), min_size=1, max_size=3)
    return st.one_of(leaf(), leaf(), leaf(), st.tuples(st.sampled_from(['is', 'not', 'where']), inner))


def selector_ast():
    part = simple(2)
    return st.one_of(part, part, st.lists(part, min_size=2, max_size=3, unique_by=repr).map(lambda p: ('and', p)))


@st.composite
def selector_text(draw):
    return draw(p05.rendered(draw(selector_ast())))


@st.composite
def candidates(draw, hi=5):
    """[(selector texts, usable, as list or text)]"""
    n = draw(st.integers(2, hi))
    pool = draw(st.lists(selector_text(), min_size=1, max_size=5))
    texts = st.one_of(selector_text(), st.sampled_from(pool), st.sampled_from(pool))
    out = []
    for _ in range(n):
        sels = draw(st.lists(texts, min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=3))
        out.append((sels, draw(st.integers(0, 4)) != 0, draw(st.booleans())))
    return out


def attribute_sets():
    cell = st.sampled_from(CELLS[:-1])
    row = st.one_of(st.fixed_dictionaries({'a': cell}, optional={'b': cell, 'c': cell}),
                    st.fixed_dictionaries({'a': cell, 'b': cell}, optional={'c': cell}),
                    st.fixed_dictionaries({'b': cell}, optional={'c': cell}))
    return st.lists(row, min_size=1, max_size=6, unique_by=lambda d: tuple(sorted(d.items())))


@st.composite
def weight_case(draw):
    cands = draw(candidates())
    n = len(cands)
    default = draw(st.integers(0, n - 1))
    cands[default] = (cands[default][0], True, cands[default][2])
    return (cands, default, draw(attribute_sets()), draw(st.permutations(range(n))), draw(st.sampled_from(['', '', 'd', 'x y'])),
            draw(st.integers(0, 2)))


def vector(k):
    """Shares that tell candidate k from all others."""
    w = [1, 1, 1, 1, 1, 1]
    w[k] = 10
    return w


def choose(cands, default, attrs):
    """Index of the candidate to use; second: whether the choice is a contest."""
    best, barred = {}, False
    for k, (sels, usable, _) in enumerate(cands):
        hits = [p05.specificity(a) for a in map(p05.recognize, sels) if p05.matches(a, attrs)]
        if hits and not usable:
            barred = True
        elif hits:
            best.setdefault(max(hits), []).append(k)
    contest = barred or sum(map(len, best.values())) > 1
    for spec in sorted(best, reverse=True):
        if len(best[spec]) == 1:
            return best[spec][0], contest, 'unique' if spec == max(best) else 'lower specificity'
    return default, contest, 'shared' if best else 'no match'


def given(sels, as_list):
    if not sels:
        return None
    return sels[0] if len(sels) == 1 and not as_list else list(sels)


def file_space():
    from toron import bind_file
    fd, path = tempfile.mkstemp(suffix='.toron', dir=os.environ.get('VERIF_SCRATCH'))
    os.close(fd)
    os.unlink(path)
    return bind_file(path, mode='rwc'), path


def same_rows(got, want):
    return got.keys() == want.keys() and all(abs(got[k] - want[k]) <= 1e-9 * max(1, abs(want[k])) for k in want)


def run_weights(case, rec):
    from toron import DataSpace
    cands, default, sets, order, domain, how = case
    n = len(cands)
    wants = {}
    for attrs in sets:
        seen = dict(attrs, domain=domain) if domain else attrs
        k, contest, kind = choose(cands, default, seen)
        rec.event(kind)
        if contest:
            rec.nontrivial()
        wants[tuple(sorted(attrs.items()))] = k
    for turn, seq in enumerate([range(n), order]):
        path = None
        if turn and how == 2:
            sp, path = file_space()
        else:
            sp = DataSpace()
        sp.add_index_columns('A', 'B')
        sp.add_partition_definitions({'A'})
        sp.set_registered_attributes(ATTRS)
        if domain:
            sp.set_domain(domain)
        sp.insert_index([('r', str(i)) for i in range(6)], ['A', 'B'])
        ids = [r[0] for r in sp.select_index(header=False, A='r')]
        for k in seq:
            sels, usable, as_list = cands[k]
            if how == 1 and turn:
                sp.add_weight_group(f'g{k}', make_default=(k == default))
                sp.edit_weight_group(f'g{k}', selectors=given(sels, True))
            else:
                sp.add_weight_group(f'g{k}', selectors=given(sels, as_list), make_default=(k == default))
            rows = [(i, 'r', str(j), w) for j, (i, w) in enumerate(zip(ids, vector(k)))]
            if not usable:
                del rows[(k + turn) % 6]
            sp.insert_weights(f'g{k}', rows, ['index_id', 'A', 'B', f'g{k}'])
        sp.insert_quantities2(value_column='v', data=[dict(BLANK, **dict(a, A='r', B='', v=30.0)) for a in sets])
        got = {}
        for r in sp():
            key = tuple((a, v) for a, v in zip(sp().columns, r) if a in ATTRS and v is not None)
            got.setdefault(tuple(sorted(key)), {})[int(r[1])] = r[-1]
        for key, k in wants.items():
            w = vector(k)
            want = {i: 30.0 * w[i] / sum(w) for i in range(6)}
            require(same_rows(got.get(key, {}), want), f'{dict(key)} is disaggregated as {got.get(key)}, expected weights {k}',
                    cands, default, list(seq))
        if path:
            del sp
            os.unlink(path)


# -- links -----------------------------------------------------------------
@st.composite
def link_case(draw):
    n_cands = draw(candidates(5))
    n = len(n_cands)
    state = draw(st.lists(st.sampled_from(['ok', 'ok', 'ok', 'stale', 'partial source']), min_size=n, max_size=n))
    default = draw(st.integers(0, n))          # (n means no default)
    if draw(st.integers(0, 7)):
        default = draw(st.integers(0, n - 1))
        state[default] = 'ok'
    return n_cands, state, default, draw(attribute_sets()), draw(st.permutations(range(n))), draw(st.sampled_from(['', '', 'd', 'x y'])), draw(st.booleans())


def run_links(case, rec):
    from toron import DataSpace
    cands, state, default, sets, order, domain, edit = case
    n = len(cands)
    current = [s == 'ok' for s in state]
    fails = None
    if not any(current):
        fails = 'no current link'
    elif default == n or not current[default]:
        fails = 'no current default'
    # A link is only chosen through its selectors if it is current and locally complete.
    usable = [(sels, ok and cur, as_list) for (sels, ok, as_list), cur in zip(cands, current)]
    wants = {}
    for attrs in sets:
        k, contest, kind = choose(usable, default, dict(attrs, domain=domain) if domain else attrs)
        wants[tuple(sorted(attrs.items()))] = k
        if fails:
            continue
        rec.event(kind)
        if contest:
            rec.nontrivial()
    rec.event(fails or 'translated')
    level = b'\x80'
    for turn, seq in enumerate([range(n), order]):
        src, dst = DataSpace(), DataSpace()
        src.add_index_columns('A')
        src.set_registered_attributes(ATTRS)
        if domain:
            src.set_domain(domain)
        src.add_weight_group('w', make_default=True)
        src.insert_index([('s1', 1), ('s2', 1)], ['A', 'w'])
        dst.add_index_columns('T')
        dst.insert_index([(f't{i}',) for i in range(6)], ['T'])
        ids = [next(dst.select_index(header=False, T=f't{i}'))[0] for i in range(6)]
        for phase in ('stale', 'rest'):
            if phase == 'rest':
                src.insert_index([('s3', 1)], ['A', 'w'])
            src_ids = [next(src.select_index(header=False, A=a))[0] for a in (['s1', 's2'] if phase == 'stale' else ['s1', 's2', 's3'])]
            for k in seq:
                if (state[k] == 'stale') != (phase == 'stale'):
                    continue
                sels, complete, as_list = cands[k]
                kw = {} if edit and turn else {'selectors': given(sels, as_list)}
                dst.add_link(src, f'l{k}', is_default=(k == default), **kw)
                if edit and turn:
                    dst.edit_link(src, f'l{k}', selectors=given(sels, True))
                w = vector(k)
                targets = list(range(6))
                if not complete:
                    targets.remove((k + turn) % 6)
                use = src_ids[1:] if state[k] == 'partial source' else src_ids
                rows = [(s, ids[t], level, w[t]) for s in use for t in targets]
                dst.insert_mappings2(src, f'l{k}', rows, ['other_index_id', 'index_id', 'mapping_level', f'l{k}'])
        src.insert_quantities2(value_column='v', data=[dict(BLANK, **dict(a, A=s, v=30.0)) for a in sets for s in ('s1', 's2', 's3')])
        reader = src()
        try:
            reader.translate(dst)
        except Exception as e:
            require(fails, f'translation failed: {e!r}', case)
            continue
        require(not fails, f'translation did not fail although there is {fails}', case)
        got = {}
        cols = reader.columns
        for r in reader:
            d = dict(zip(cols, r))
            key = tuple(sorted((a, d[a]) for a in ATTRS if d.get(a) is not None))
            got.setdefault(key, {})[int(d['T'][1:])] = d['value']
        for key, k in wants.items():
            w = vector(k)
            ts = list(range(6))
            if not cands[k][1]:
                ts.remove((k + turn) % 6)
            want = {t: 90.0 * w[t] / sum(w[x] for x in ts) for t in ts}
            require(same_rows(got.get(key, {}), want), f'{dict(key)} is translated as {got.get(key)}, expected link {k}',
                    cands, state, default, list(seq))


SUBS = [Sub('weights', weight_case, run_weights, 2100, 16800),
        Sub('links', link_case, run_links, 1800, 14400)]
