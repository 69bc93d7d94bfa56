"""P31: the description of a space (repr, "info") says what the space holds."""
import re
from contextlib import closing, redirect_stdout
from io import StringIO
from fractions import Fraction

from hypothesis import strategies as st

import p16
from engine import Engine, history
from harness import Sub, require

PROPERTY = 'P31'
RULE = ('non-trivial: a description with at least two weight groups, links or partitions was compared ("descriptions"), or '
        'at least two different values that agree in the first three decimals ("figures")')
ASSUMPTIONS = ['the order of the listed partitions is not judged beyond the figures being those of their own partition',
               'the text of the creation time is not judged']

HISTORY = dict(p16.WEIGHTS, addg=6, editg=3, addl=6, editl=3, dropg=2, dropl=2, insw=4, fillw=5, fillm=5, insm2=4, addp=5, addps=3,
               ins=4, domain=3, attrs=3)
HEADS = ['domain', 'partitions', 'weights', 'attributes', 'incoming links', 'created']


def peel(text, items):
    """Is the text the *items*, in some order and separated by ', '?  (The items may contain commas.)"""
    if not items:
        return text == 'None'
    seen = set()

    def go(pos, left):
        if (pos, left) in seen:
            return False
        seen.add((pos, left))
        for k, x in enumerate(left):
            if text.startswith(x, pos):
                end, rest = pos + len(x), left[:k] + left[k + 1:]
                if not rest:
                    if end == len(text):
                        return True
                elif text.startswith(', ', end) and go(end + 2, rest):
                    return True
        return False
    return go(0, tuple(sorted(items)))


def sections(text):
    out, pos = {}, 0
    for name, following in zip(HEADS, HEADS[1:] + [None]):
        start = text.find(f'\n{name}:\n  ', pos)
        require(start >= 0, 'no section', name, text)
        begin = start + len(f'\n{name}:\n  ')
        end = text.find(f'\n{following}:\n  ', begin) if following else len(text)
        out[name] = text[begin:end]
        pos = end if following else pos
    return out


def flags(default, complete, word):
    notes = (['default'] if default else []) + ([] if complete else [word])
    return f" ({', '.join(notes)})" if notes else ''


def judge(text, e, rec, where):
    m, ctx = e.model, (where, text, e.history())
    s = sections(text)
    require(s['domain'] == (m.domain or 'None'), 'domain', m.domain, *ctx)
    groups = [n + flags(n == m.default_group, g['is_complete'], 'incomplete') for n, g in m.groups.items()]
    require(peel(s['weights'], groups), 'weights', groups, *ctx)
    require(peel(s['attributes'], list(m.attributes)), 'attributes', m.attributes, *ctx)
    # Links by source.
    by = {}
    for x in m.links:
        by.setdefault(x['uid'], []).append(x)
    lines = s['incoming links'].split('\n  ')
    if not by:
        require(lines == ['None'], 'links', *ctx)
    else:
        require(len(lines) == len(by), 'one line per linked space', *ctx)
        options = []
        for uid, links in by.items():
            names = [x['name'] + flags(x['is_default'], x['is_locally_complete'], 'locally incomplete') for x in links]
            hints = [x['hint'] for x in links]
            refs = [h for h in hints if h] + ([f'[{uid[:7]}]'] if not all(hints) else [])
            options.append([k for k, t in enumerate(lines) if any(t.startswith(r + ': ') and peel(t[len(r) + 2:], names) for r in refs)])
            require(options[-1], 'links', refs, names, *ctx)
        require(pairs(options), 'links', options, *ctx)
    # Partitions.
    wanted = {frozenset(p) for p in m.partitions} | ({frozenset(m.columns)} if m.columns else set())
    wanted.discard(frozenset())
    order = {c: k for k, c in enumerate(m.display_order())}
    accepted = m.structure()
    figures = {}
    lines = s['partitions'].split('\n  ')
    if not wanted:
        require(lines == ['None'], 'partitions', *ctx)
    else:
        require(len(lines) == len(wanted), 'one line per partition', wanted, *ctx)
        require(len({t.index('  ', len(t) - len(t.lstrip())) for t in lines}) == 1, 'alignment', *ctx)
        for line in lines:
            value, _, names = line.lstrip().partition('  ')
            hit = [p for p in wanted if names == ', '.join(sorted(p, key=order.get))]
            require(len(hit) == 1, 'partition', names, wanted, *ctx)
            wanted.remove(hit[0])
            bits = tuple(int(c in hit[0]) for c in m.columns)
            while bits and not bits[-1]:
                bits = bits[:-1]
            exact = m.granularity(hit[0]) if bits in {strip(b) for b in accepted} else None
            if exact is None:
                require(value == 'None', 'granularity', exact, line, *ctx)
            else:
                digits = len(value.partition('.')[2])
                require(digits >= 3 and abs(float(value) - exact) <= 0.51 * 10.0 ** -digits + 1e-9, 'granularity', exact, line, *ctx)
            figures.setdefault(value, []).append(exact)
        for value, exact in figures.items():
            if exact[0] is not None:
                require(max(exact) - min(exact) < 1e-9, 'partitions of different granularity look the same', value, exact, *ctx)
    if max(len(groups), len(m.links), len(figures)) >= 2:
        rec.nontrivial()
        for name, n in [('groups', len(groups)), ('links', len(m.links)), ('sources', len(by)), ('figures', len(figures))]:
            if n >= 2:
                rec.event(f'several {name}')


def pairs(options, taken=()):
    """Can every list give another item?"""
    return not options or any(pairs(options[1:], taken + (k,)) for k in options[0] if k not in taken)


def strip(bits):
    bits = tuple(bits)
    while bits and not bits[-1]:
        bits = bits[:-1]
    return bits


def run(case, rec):
    world, ops = case
    if any('\n' in x for x in texts_of(world)):
        rec.event('names with line breaks (not compared)')
        return
    with closing(Engine(world, rec=rec)) as e:
        for k, op in enumerate(ops):
            e.step(op)
            if k % 3 == 2 or k == len(ops) - 1:
                before = p16.dump(e)
                text = repr(e.space)
                judge(text, e, rec, 'repr()')
                require(p16.dump(e) == before, 'the space was changed by describing it', e.history())
        if e.path:
            from toron.cli.main import main
            out = StringIO()
            with redirect_stdout(out):
                try:
                    code = main([e.path, 'info'])
                except SystemExit as err:
                    code = err.code
            require(not code, 'info failed', code, out.getvalue(), e.history())
            judge(re.sub('\x1b\\[[0-9;]*m', '', out.getvalue()), e, rec, 'info')
            rec.event('info compared')


def texts_of(obj):
    if isinstance(obj, str):
        yield obj
    elif isinstance(obj, dict):
        for k, v in obj.items():
            yield from texts_of(k)
            yield from texts_of(v)
    elif isinstance(obj, (list, tuple, set, frozenset)):
        for x in obj:
            yield from texts_of(x)


def strategy():
    return history(HISTORY, 4, 14, prelude=['index', 'part', 'group2', 'link2'])


# --------------------------------------------------------------------------
# Figures
# --------------------------------------------------------------------------
def figures_case():
    base = st.one_of(st.floats(0, 64).map(lambda x: round(x, 12)), st.sampled_from([0.0, 0.5, 1.0, 12.65, 8.2972, 9.9995, 99.99951, 0.0004, 3e-7]))
    close = st.tuples(base, st.lists(st.tuples(st.integers(1, 9), st.integers(3, 12)), max_size=4)).map(
        lambda p: [p[0]] + [p[0] + k * 10.0 ** -d for k, d in p[1]])
    return st.lists(st.one_of(close, base.map(lambda x: [x]), base.map(lambda x: [x, x]), st.just([None])), max_size=4).map(
        lambda p: [x for q in p for x in q]).flatmap(st.permutations)


def figures_run(case, rec):
    from toron.formatters import format_granularity
    values = list(case)
    got = format_granularity(values)
    require(len(got) == len(values), 'number of values', values, got)
    if not values:
        return
    require(len({len(t) for t in got}) == 1, 'alignment', values, got)
    digits = {len(t.partition('.')[2]) for t, x in zip(got, values) if x is not None}
    require(len(digits) <= 1, 'decimals', values, got)
    for t, x in zip(got, values):
        if x is None:
            require(t.strip() == 'None', 'no value', values, got)
            continue
        d = len(t.partition('.')[2])
        require(d >= 3, 'at least three decimals', values, got)
        require(abs(Fraction(t.strip()) - Fraction(x)) <= Fraction(1, 2 * 10 ** d), 'rounding', x, t, values)
    for a, x in zip(got, values):
        for b, y in zip(got, values):
            require((a == b) == (x == y), 'two values look the same although they differ', x, y, got)
        if x:
            require(a.strip().strip('0.') != '', 'a value looks like zero', x, a, values)
    # No more decimals than necessary.
    if digits and digits != {3}:
        d = digits.pop() - 1
        some = {x for x in values if x is not None} | {0.0}
        require(len({f'{x:.{d}f}' for x in some}) < len(some), 'more decimals than necessary', values, got)
    if len({x for x in values if x is not None}) > len({f'{x:.3f}' for x in values if x is not None}):
        rec.nontrivial()


SUBS = [Sub('descriptions', strategy, run, 1600, 16000),
        Sub('figures', figures_case, figures_run, 8000, 80000)]
