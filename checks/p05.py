"""P05: the selector language."""
from hypothesis import strategies as st

from harness import Sub, require

PROPERTY = 'P05'
RULE = ('non-trivial: the selector is nested or compound, or uses an operator with a value, and '
        'the rows include both a match and a non-match (language); the text is one edit away from '
        'a selector (rejection)')
ASSUMPTIONS = [
    'case-insensitive parts use letters whose upper/lower mapping is one-to-one',
    'row values contain no non-ASCII white space (the set of word separators beyond ASCII is not specified)',
    'repeated printing is compared through parsing, not character by character',
]

OPS = ['=', '~=', '|=', '^=', '$=', '*=']

# AST: ('attr', name, op|None, value|None, icase) | ('is'|'not'|'where', [ast...]) | ('and', [ast...])


# -- oracle -------------------------------------------------------------------
def matches(ast, row):
    kind = ast[0]
    if kind == 'attr':
        _, name, op, val, icase = ast
        cell = row.get(name, '')
        if op is None:
            return cell != ''
        if icase:
            cell, val = cell.lower(), val.lower()
        if op == '=':
            return cell == val
        if op == '~=':
            return val in cell.split()
        if op == '|=':
            return cell == val or cell[:len(val) + 1] == val + '-'
        if op == '^=':
            return cell[:len(val)] == val
        if op == '$=':
            return len(cell) >= len(val) and cell[len(cell) - len(val):] == val
        return any(cell[i:i + len(val)] == val for i in range(len(cell)))
    inner = [matches(a, row) for a in ast[1]]
    if kind == 'and':
        return all(inner)
    if kind == 'not':
        return not any(inner)
    return any(inner)


def specificity(ast):
    kind = ast[0]
    if kind == 'attr':
        return (1, 0) if ast[2] is None else (1, 1)
    if kind == 'where':
        return (0, 0)
    inner = [specificity(a) for a in ast[1]]
    if kind == 'and':
        return (sum(a for a, _ in inner), sum(b for _, b in inner))
    return max(inner)


def is_first(c):
    return ('a' <= c <= 'z') or ('A' <= c <= 'Z') or ('\u00a0' <= c <= '\uffff') or c == '_'


class Reject(Exception):
    pass


def recognize(text):
    """Recursive-descent reader of the published grammar; returns an AST."""
    pos = 0
    n = len(text)

    def ws():
        nonlocal pos
        while pos < n and text[pos] in ' \t\f\r\n':
            pos += 1

    def lit(s):
        nonlocal pos
        ws()
        if text.startswith(s, pos):
            pos += len(s)
            return True
        return False

    def need(s):
        if not lit(s):
            raise Reject(f'{s!r} expected at {pos}')

    def ident():
        nonlocal pos
        ws()
        start = pos
        p = pos
        if p < n and text[p] == '-':
            p += 1
        if p < n and is_first(text[p]):
            p += 1
            while p < n and (is_first(text[p]) or text[p] in '0123456789-'):
                p += 1
            pos = p
        elif p > start:
            pos = p               # a lone hyphen
        else:
            raise Reject('identifier expected')
        return text[start:pos]

    def value():
        nonlocal pos
        ws()
        if pos < n and text[pos] in '"\'':
            quote = text[pos]
            p = pos + 1
            out = []
            while True:
                if p >= n or text[p] == '\n':
                    raise Reject('unterminated string')
                if text[p] == '\\' and p + 1 < n:
                    if text[p + 1] == '\n':
                        raise Reject('line break')
                    out.append(text[p + 1] if text[p + 1] in ('\\', quote) else text[p:p + 2])
                    p += 2
                    continue
                if text[p] == quote:
                    break
                out.append(text[p])
                p += 1
            pos = p + 1
            val = ''.join(out)
        else:
            val = ident()
        if not val:
            raise Reject('empty value')
        return val

    def selector():
        for kind in ('is', 'not', 'where'):
            if lit(f':{kind}('):
                parts = [selector()]
                while lit(','):
                    parts.append(selector())
                need(')')
                return (kind, parts)
        need('[')
        name = ident()
        if lit(']'):
            return ('attr', name, None, None, False)
        for op in OPS:
            if lit(op):
                break
        else:
            raise Reject('operator expected')
        val = value()
        icase = lit('i') or lit('I')
        need(']')
        return ('attr', name, op, val, icase)

    parts = [selector()]
    while True:
        ws()
        if pos >= n:
            break
        parts.append(selector())
    return parts[0] if len(parts) == 1 else ('and', parts)


# -- generation -----------------------------------------------------------------
NAMES = ['a', 'b', 'Bc', '_x', 'i', 'I', '-', '-q', 'n-1', 'caf\u00e9', 'is', 'not', '\u00a0z', 'where']
VAL_ALPHA = 'aAbBx-i \t"\'\\,)(]:[=é0'


def values():
    return st.one_of(
        st.sampled_from(['x', 'foo', 'a b', 'a-b', 'xyz', 'i', '"', "'", '\\', 'a\\', '\\"', "\\'", '\\\\',
                         'a"b', "a'b", ']', '[a]', 'a,b', ')', ' ', ' x', '\U0001f600', '\u00e9', '-']),
        st.text(VAL_ALPHA, min_size=1, max_size=6))


@st.composite
def attr_ast(draw):
    name = draw(st.sampled_from(NAMES))
    op = draw(st.sampled_from([None] + OPS * 2))
    if op is None:
        return ('attr', name, None, None, False)
    return ('attr', name, op, draw(values()), draw(st.booleans()))


def part_ast(depth):
    if depth == 0:
        return attr_ast()
    inner = st.lists(part_ast(depth - 1), min_size=1, max_size=3)
    return st.one_of(attr_ast(), attr_ast(), st.tuples(st.sampled_from(['is', 'not', 'where']), inner))


def full_ast():
    part = part_ast(3)
    return st.one_of(part, st.lists(part, min_size=2, max_size=4).map(lambda p: ('and', p)))


def is_ident(s):
    if s == '-':
        return True
    t = s[1:] if s[:1] == '-' else s
    return bool(t) and is_first(t[0]) and all(is_first(c) or c in '0123456789-' for c in t[1:])


@st.composite
def rendered(draw, ast):
    sp = lambda: draw(st.sampled_from(['', '', '', ' ', '\t', ' \n ']))
    kind = ast[0]
    if kind == 'attr':
        _, name, op, val, icase = ast
        if op is None:
            return f'[{sp()}{name}{sp()}]'
        styles = ['"', "'"]
        if is_ident(val):
            styles.append('')
        q = draw(st.sampled_from(styles))
        if q:
            esc = val.replace('\\', '\\\\').replace(q, '\\' + q)
            if draw(st.booleans()):
                # a backslash in front of another character may stay as it is
                other = '"' if q == "'" else "'"
                if '\\' not in val:
                    pass
                elif all(i + 1 < len(val) and val[i + 1] not in ('\\', q)
                         and (i == 0 or val[i - 1] != '\\')
                         for i, c in enumerate(val) if c == '\\'):
                    esc = val.replace(q, '\\' + q)
            body = q + esc + q
        else:
            body = val
        flag = ''
        if icase:
            flag = (sp() if q else ' ') + draw(st.sampled_from('iI'))
        return f'[{sp()}{name}{sp()}{op}{sp()}{body}{flag}{sp()}]'
    parts = [draw(rendered(a)) for a in ast[1]]
    if kind == 'and':
        out = parts[0]
        for p in parts[1:]:
            out += sp() + p
        return out
    return f':{kind}({sp()}' + f'{sp()},{sp()}'.join(parts) + f'{sp()})'


def leaves(ast):
    if ast[0] == 'attr':
        return [ast]
    return [x for a in ast[1] for x in leaves(a)]


@st.composite
def rows_for(draw, ast):
    lv = leaves(ast)
    out = []
    for _ in range(draw(st.integers(2, 5))):
        row = {}
        for _, name, op, val, icase in lv:
            how = draw(st.integers(0, 11))
            base = val if val else draw(st.sampled_from(['x', 'foo']))
            cell = [base, base, base + 'x', 'x' + base, base + '-x', 'x ' + base + ' y', base.swapcase(),
                    base[:-1], None, '', base + ' ' + base, 'q' + base + 'r'][how]
            if cell is None:
                continue
            row[name] = cell
        if draw(st.booleans()):
            row['other'] = 'x'
        out.append(row)
    return out


@st.composite
def language_case(draw):
    ast = draw(full_ast())
    text = draw(rendered(ast))
    rows = draw(rows_for(ast))
    return ast, text, rows


def check_selector(sel, ast, rows, label):
    for row in rows:
        expected = matches(ast, row)
        got = sel(dict(row))
        require(bool(got) == expected, f'{label}: match of row is {got!r}, expected {expected}', row, ast)
    require(tuple(sel.specificity) == specificity(ast),
            f'{label}: specificity {sel.specificity!r}, expected {specificity(ast)!r}', ast)


def run_language(case, rec):
    from toron.selectors import parse_selector
    import json
    from toron.selectors import convert_text_selectors
    ast, text, rows = case
    if recognize(text) != ast and not same(recognize(text), ast):
        from harness import HarnessError
        raise HarnessError(f'oracle reads {text!r} as {recognize(text)!r}, not {ast!r}')
    sel = parse_selector(text)
    check_selector(sel, ast, rows, f'{text!r}')
    printed = str(sel)
    try:
        again = parse_selector(printed)
    except Exception as e:
        require(False, f'printed form {printed!r} of {text!r} does not parse: {e}')
    require(again == sel and not (again != sel), f'{text!r} printed as {printed!r} parses to a different selector', sel, again)
    require(hash(again) == hash(sel), f'hash differs after printing {text!r}')
    check_selector(again, ast, rows, f'{printed!r} (printed form of {text!r})')
    conv = convert_text_selectors(json.dumps([text, printed]))
    require(len(conv) == 2 and conv[0] == sel and conv[1] == sel, 'list of selector texts', text)
    res = {matches(ast, r) for r in rows}
    rec.event(f'kind={ast[0]}')
    for leaf in leaves(ast):
        rec.event(f'op={leaf[2]}' + (' i' if leaf[4] else ''))
    if len(res) == 2 and (ast[0] != 'attr' or ast[2]):
        rec.nontrivial()


def norm(ast):
    if ast[0] == 'attr':
        return tuple(ast)
    return (ast[0], tuple(norm(a) for a in ast[1]))


def same(a, b):
    return norm(a) == norm(b)


# -- rejection -------------------------------------------------------------------
@st.composite
def reject_case(draw):
    if draw(st.integers(0, 5)) == 0:
        return draw(st.text('[]:isnotwhere(),="\'\\ ab-~|^$*\n', max_size=14)), [{}]
    ast = draw(full_ast())
    text = draw(rendered(ast))
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(text)))
        how = draw(st.integers(0, 3))
        c = draw(st.sampled_from('[]()",\'\\ =:~iIx1-.#*\n'))
        if how == 0:
            text = text[:i] + text[i + 1:]
        elif how == 1:
            text = text[:i] + c + text[i:]
        elif how == 2:
            text = text[:i] + c + text[i + 1:]
        else:
            text = text[:i]
    return text, draw(rows_for(ast))


def run_reject(case, rec):
    from toron.selectors import parse_selector
    text, rows = case
    try:
        ast = recognize(text)
    except Reject:
        ast = None
    if ast is None:
        try:
            sel = parse_selector(text)
        except Exception:
            rec.event('rejected')
            rec.nontrivial()
            return
        require(False, f'{text!r} is not a selector but was accepted as {sel!r}')
    else:
        # Still a selector after the edit.
        if any(leaf[3] and leaf[4] and not leaf[3].isascii() for leaf in leaves(ast)):
            return
        sel = parse_selector(text)
        check_selector(sel, ast, rows, f'{text!r}')
        rec.event('still a selector')


SUBS = [
    Sub('language', language_case, run_language, 27000, 216000),
    Sub('reject', reject_case, run_reject, 27000, 216000),
]
