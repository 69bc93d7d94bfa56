"""P23: wide/long reshaping; every form of tabular input gives the same result."""
import csv
import io
from collections import OrderedDict, namedtuple
from types import MappingProxyType

from hypothesis import strategies as st

import matching
from engine import AVAL_POOL, COLUMN_POOL, VALUE_POOL
from harness import HarnessError, Sub, require

PROPERTY = 'P23'
RULE = ('non-trivial: at least two rows and two stacked columns (reshape); at least two forms loaded something that '
        'changed the stored data (load)')
ASSUMPTIONS = ['rows given as dictionaries of one table have the same keys',
               'column names of a table are distinct; the two new columns have different names',
               'wide_to_narrow() documents a sequence of columns to stack, so iterators are given to wide_to_long() only']

NAMES = ['A', 'B', 'C', 'variable', 'value', 'x y', 'é', '', 'var', 'val', '1', "q'", 'D', 'index_id']
CELLS = st.one_of(st.sampled_from(['x', '', None, 0, 1, 2.5, -3, 'a,b', '"', '\n', False, 'value']), st.integers(), st.text(max_size=4))


class Row(tuple):
    """A sequence that is no list."""


def forms(columns, rows, text):
    """Name and maker of (data, columns) for every form the table can be given in."""
    columns = list(columns)
    rows = [list(r) for r in rows]
    n = len(columns)
    full = all(len(r) == n for r in rows)
    dicts = [dict(zip(columns, r + [None] * (n - len(r)))) for r in rows]

    def buffer():
        f = io.StringIO(newline='')
        w = csv.writer(f)
        w.writerow(columns)
        w.writerows(rows)
        f.seek(0)
        return f
    out = {
        'rows': lambda: ([columns] + rows, None),
        'tuples': lambda: (tuple(map(tuple, [columns] + rows)), None),
        'iterator': lambda: (iter([columns] + rows), None),
        'generator': lambda: ((Row(r) for r in [columns] + rows), None),
        'columns': lambda: (rows, columns),
        'columns, generator': lambda: ((r for r in rows), tuple(columns)),
    }
    if rows:
        out.update({
            'dicts': lambda: (dicts, None),
            'dict generator': lambda: ((dict(d) for d in dicts), None),
            'ordered dicts': lambda: ((OrderedDict(d) for d in dicts), None),
            'mappings': lambda: ([MappingProxyType(d) for d in dicts], None),
            'shuffled dicts': lambda: ([dicts[0]] + [dict(reversed(d.items())) for d in dicts[1:]], None),
            'dicts, columns': lambda: ((dict(reversed(d.items())) for d in dicts), columns),
            'wider dicts, columns': lambda: ([dict(d, other='z') for d in dicts], columns),
        })
        try:
            T = namedtuple('T', [f'f{k}' for k in range(n)])
            if full:
                out['named tuples'] = lambda: ([T(*columns)] + [T(*r) for r in rows], None)
        except ValueError:
            pass
    if text and n > 0 and all(any(r) or n > 1 for r in rows):
        out['csv reader'] = lambda: (csv.reader(buffer()), None)
        out['dict reader'] = lambda: (csv.DictReader(buffer()), None)
        out['csv reader, columns'] = lambda: (skip(csv.reader(buffer())), columns)
    return out


def skip(reader):
    next(reader)
    return reader


# -- reshaping ------------------------------------------------------------------

@st.composite
def reshape_case(draw):
    header = draw(st.lists(st.one_of(st.sampled_from(NAMES), st.text(max_size=3)), min_size=1, max_size=6, unique=True))
    text = draw(st.booleans())
    n = draw(st.integers(0, 6))
    cell = st.sampled_from(['x', 'y', '1', '', ' ', 'a,b', '"q"', 'l\nm']) if text else CELLS
    lengths = draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, -1]), min_size=n, max_size=n)) if not text else [0] * n
    rows = [draw(st.lists(cell, min_size=max(0, len(header) - k), max_size=max(0, len(header) - k))) for k in lengths]
    stack = draw(st.lists(st.sampled_from(header), min_size=1, max_size=4, unique=True))
    if draw(st.integers(0, 7)) == 0:
        stack.append(draw(st.sampled_from(['missing', 'A', 'value'])))
    names = draw(st.one_of(st.none(), st.lists(st.sampled_from(NAMES), min_size=2, max_size=2, unique=True)))
    return header, rows, text, list(dict.fromkeys(stack)), names, draw(st.integers(0, 3))


def long_table(header, rows, stack, var, val):
    """The reference: what the documentation says, as list of dictionaries; None if it must be refused."""
    if any(c not in header for c in stack):
        return None
    keep = [c for c in header if c not in stack]
    if var in keep or val in keep:
        return None
    out = []
    for row in rows:
        cells = dict(zip(header, list(row) + [None] * (len(header) - len(row))))
        for c in stack:
            d = {k: cells[k] for k in keep}
            d[var] = c
            d[val] = cells[c]
            out.append(d)
    return out


def identical(a, b):
    return repr(a) == repr(b)


def reshape_run(case, rec):
    from toron import wide_to_long, wide_to_narrow
    header, rows, text, stack, names, how = case
    var, val = names or ('variable', 'value')
    expected = long_table(header, rows, stack, var, val)
    given = () if names is None else (var, val)
    keep = [c for c in header if c not in stack]
    short = any(len(r) < len(header) for r in rows)
    longer = any(len(r) > len(header) for r in rows)
    for name, make in forms(header, rows, text).items():
        data, columns = make()
        if columns is not None:
            continue
        what = [list, tuple, iter, dict.fromkeys][how](stack)
        if len(stack) == 1 and how == 1:
            what = stack[0]
        as_dicts = 'dict' in name or name == 'mappings'
        try:
            result = list(wide_to_long(data, what, *given))
        except ValueError:
            result = None
        if expected is None:
            # A table without rows given as dictionaries has no columns to check.
            require(result is None or not rows and as_dicts and not result, f'wide_to_long accepts a bad table ({name})', result)
        else:
            require(result is not None, f'wide_to_long refuses the table ({name})')
            if as_dicts and 'reader' not in name or name == 'dict reader':
                got = [list(d.items()) for d in result]
                want = [list(d.items()) for d in expected]
                if name == 'dict reader' and not rows:
                    want = []
            else:
                got = [tuple(r) for r in result]
                want = [tuple(keep) + (var, val)] + [tuple(d.values()) for d in expected]
            require(identical(got, want), f'wide_to_long ({name})', got, want)
        if longer and not as_dicts:
            continue
        data, columns = make()
        try:
            result = list(wide_to_narrow(data, stack, *given))
        except (ValueError, KeyError):
            result = None
        if expected is None:
            # A row without the cell of the clashing column clashes with nothing.
            require(result is None or not rows or short and not as_dicts, f'wide_to_narrow accepts a bad table ({name})', result)
        elif result is None:
            require(short and not as_dicts or var in header or val in header, f'wide_to_narrow refuses the table ({name})')
        else:
            got = result
            if short and not as_dicts:
                got = [{k: d.get(k) for k in keep + [var, val]} for d in result]
            require(identical([sorted(d.items(), key=repr) for d in got], [sorted(d.items(), key=repr) for d in expected]),
                    f'wide_to_narrow ({name})', got, expected)
    for empty in ([], (), iter([]), (x for x in ()), csv.reader([]), csv.DictReader([])):
        for function in (wide_to_long, wide_to_narrow):
            try:
                require(list(function(empty, stack, *given)) == [], f'{function.__name__} of nothing', empty)
            except TypeError:
                require(isinstance(empty, csv.DictReader), f'{function.__name__} of nothing', empty)
    if expected is not None and len(rows) > 1 and len(stack) > 1:
        rec.nontrivial()
    if expected is None:
        rec.event('refused')
    if short:
        rec.event('short rows')


# -- loading --------------------------------------------------------------------

LOADERS = ['insert_index', 'insert_index ids', 'update_index', 'delete_index', 'insert_weights', 'update_weights',
           'delete_weights', 'insert_mappings2', 'insert_mappings', 'update_mappings', 'delete_mappings',
           'insert_quantities2', 'insert_quantities', 'load_mapping', 'stacked quantities', 'delete_quantities']
NUMBERS = [1, 0, 2, 0.5, 10, 7.25]


@st.composite
def load_case(draw):
    n = draw(st.integers(1, 3))
    columns = draw(st.lists(st.sampled_from(COLUMN_POOL), min_size=n, max_size=n, unique_by=str.lower))
    values = draw(st.lists(st.sampled_from(VALUE_POOL), min_size=2, max_size=3, unique=True))
    label = st.lists(st.integers(0, 3), min_size=n, max_size=n)
    return (columns, values, draw(st.lists(label, min_size=1, max_size=5)), draw(st.sampled_from(LOADERS)),
            draw(st.lists(st.tuples(st.integers(0, 6), label, st.sampled_from(NUMBERS), st.integers(0, 6), st.booleans()),
                          min_size=1, max_size=5)),
            draw(st.booleans()), draw(st.lists(st.integers(0, 99), min_size=3, max_size=3)),
            draw(st.sampled_from(['replace', 'ignore', 'replace', 'sum', 'abort'])), draw(st.integers(0, 99)))


def dump(space):
    """All stored rows, by table."""
    out = {}
    with space._managed_cursor() as cur:
        for name, in cur.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
            rows = cur.execute(f'SELECT * FROM "{name}"').fetchall()
            if name == 'property':
                rows = [r for r in rows if r[0] not in ('unique_id', 'created_date')]
            out[name] = sorted(rows, key=repr)
    return out


def load_run(case, rec):
    import toron
    from toron.graph import load_mapping
    columns, values, index, loader, picks, text, extra, conflict, order = case
    columns = [c for c in columns if c not in ('index_id',)]
    pool = values + ['-']
    index = list(dict.fromkeys(tuple(pool[k % len(pool)] for k in r) for r in index))
    index = [r for r in index if set(r) != {'-'}]

    def build():
        space = toron.DataSpace()
        space.add_index_columns(*columns)
        space.add_partition_definitions(*[set(columns[:k + 1]) for k in range(len(columns))])
        space.add_weight_group('w')
        if index:
            space.insert_index([r + (k + 1,) for k, r in enumerate(index)], columns + ['w'])
        space.set_registered_attributes(['attr'])
        return space

    other = build()
    ids = [0] + list(range(1, len(index) + 1))
    records = [('-',) * len(columns)] + index
    used = set()
    rows, cols, kwds, fixed = [], None, {}, 0
    for k, lab, v, j, right in picks:
        lab = tuple(pool[x % len(pool)] for x in lab)
        i, o = ids[k % len(ids)], ids[j % len(ids)]
        if index and k < 5:
            i = 1 + k % len(index)
        if loader in ('update_mappings', 'delete_mappings') and j < 5:
            o = i
        if loader == 'update_index':
            if i in used and k != 6 and extra[1] % 3:
                continue
            used.add(i)
        if right and loader != 'update_index':
            lab = records[i]
        if loader == 'insert_index':
            cols = columns + ['w']
            rows.append(lab + (v,))
        elif loader == 'insert_index ids':
            cols = ['index_id'] + columns + ['w']
            rows.append((i,) + lab + (v,))
        elif loader == 'update_index':
            cols = ['index_id'] + columns
            rows.append((i,) + lab)
        elif loader == 'delete_index':
            cols = ['index_id'] + columns
            rows.append((i,) + lab)
        elif loader == 'insert_weights':
            cols = columns + ['w']
            rows.append(lab + (v,))
        elif loader == 'update_weights':
            cols = ['index_id'] + columns + ['w']
            rows.append((i,) + lab + (v,))
        elif loader == 'delete_weights':
            cols = ['index_id'] + columns
            rows.append((i,) + lab)
        elif loader == 'insert_mappings2':
            cols = ['other_index_id', 'index_id', 'mapping_level', 'm']
            rows.append((o, i, matching.level_bytes(tuple(range(len(columns)))), v))
        elif loader in ('insert_mappings', 'update_mappings', 'delete_mappings'):
            cols, fixed = ['other_index_id', 'm', 'index_id'] + columns, 3
            rows.append((o, v, i) + lab)
            if loader != 'delete_mappings':
                cols = cols + ['mapping_level']
                rows[-1] += (matching.level_bytes(tuple(range(len(columns)))),)
        elif loader in ('insert_quantities2', 'insert_quantities', 'delete_quantities'):
            cols = columns + ['attr', 'quantity']
            rows.append(lab + (AVAL_POOL[j], v))
        elif loader == 'stacked quantities':
            cols = columns + AVAL_POOL[:3]
            rows.append(lab + (v, v + 1, 2 * v))
        elif loader == 'load_mapping':
            cols = columns + ['m']
            rows.append(lab + (v,))
    if loader == 'load_mapping':
        cols = columns + ['m'] + columns
        rows = [r + tuple(records[picks[k][3] % len(records)]) for k, r in enumerate(rows)]
        fixed = 99
    if loader not in ('load_mapping',) and extra[0] % 3 == 0:
        cols = cols + ['other col']
        rows = [r + ('?',) for r in rows]
    typed, as_text = rows, text
    if loader in ('insert_mappings', 'update_mappings', 'insert_mappings2'):
        text = False   # mapping levels are bytes
    if as_text and not text:
        rows = [tuple(x if isinstance(x, bytes) else str(x) for x in r) for r in rows]
    if text:
        rows = [tuple(str(x) for x in r) for r in rows]

    def do(space, data, names):
        if loader.startswith('insert_index'):
            rule = {'sum': 'replace'}.get(conflict, conflict)
            space.insert_index(data, names, on_label_conflict=rule, on_weight_conflict=rule)
        elif loader == 'update_index':
            space.update_index(data, names, merge_on_conflict=conflict != 'abort')
        elif loader == 'delete_index':
            space.delete_index(data, names)
        elif loader == 'insert_weights':
            space.insert_weights('w', data, names, on_conflict=conflict)
        elif loader == 'update_weights':
            space.update_weights('w', data, names)
        elif loader == 'delete_weights':
            space.delete_weights('w', data, names)
        elif 'mappings' in loader:
            getattr(space, loader)(other, 'm', data, names)
        elif loader == 'insert_quantities2':
            space.insert_quantities2(value_column='quantity', data=data, columns=names, on_existing=conflict,
                                     allow_invalid_label=True)
        elif loader == 'insert_quantities':
            space.insert_quantities(value='quantity', attributes='attr', data=data, columns=names)
        elif loader == 'delete_quantities':
            space.insert_quantities2(value_column='quantity', data=data, columns=names, on_existing='ignore',
                                     allow_invalid_label=True)
        elif loader == 'stacked quantities':
            stack = toron.wide_to_long if extra[1] % 2 else toron.wide_to_narrow
            if names is None:
                data = stack(data, AVAL_POOL[:3], 'attr', 'quantity')
            else:
                data = stack([tuple(names)] + list(map(as_sequence(names), data)), AVAL_POOL[:3], 'attr', 'quantity')
            space.insert_quantities2(value_column='quantity', data=data, on_existing=conflict, allow_invalid_label=True)
        elif loader == 'load_mapping':
            load_mapping(other, '->', space, 'm', data, names, match_limit=99, allow_overlapping=True)
        else:
            raise HarnessError(loader)

    def outcome(make):
        space = build()
        if 'mappings' in loader:
            space.add_link(other, 'm')
            space.insert_mappings2(other, 'm', [(i, i, matching.level_bytes(tuple(range(len(columns)))), 1) for i in ids[1:]],
                                   ['other_index_id', 'index_id', 'mapping_level', 'm'])
        before = dump(space)
        try:
            do(space, *make())
            error = None
        except Exception as e:
            error = type(e).__name__
        after = dump(space)
        require(error is None or after == before, f'a refused load changes the space ({loader}): {error}')
        for t in after.values():
            for k, r in enumerate(t):
                t[k] = tuple(x for x in r if x != other.unique_id)
        return error, after, after != before

    table = {'': (cols, rows)}
    if fixed < 99:
        free = list(range(fixed, len(cols)))
        turned = list(range(fixed)) + free[order % len(free):] + free[:order % len(free)]
        if extra[2] % 2:
            turned[fixed:] = turned[:fixed - 1 if fixed else None:-1]
        table['columns in another order: '] = ([cols[k] for k in turned], [[r[k] for k in turned] for r in rows])
    want, changed = None, 0
    for prefix, (c, r) in table.items():
        for name, make in forms(c, r, text).items():
            if len(set(c)) < len(c) and 'dict' in name + ' ' or fixed == 99 and name == 'mappings':
                continue
            if 'shuffled' in name and fixed:
                pass
            got = outcome(make)
            if want is None:
                want = got
            require(got[:2] == want[:2], f'{loader}: {prefix}{name} loads something else than a list of rows',
                    got[0], want[0], {t: (v, want[1][t]) for t, v in got[1].items() if v != want[1].get(t)}, (c, r))
            changed += got[2]
    if as_text:
        got = outcome(lambda: (list(typed), list(cols)))
        require(got[:2] == want[:2], f'{loader}: numbers load something else than the same numbers as text', got[0], want[0],
                {t: (v, want[1][t]) for t, v in got[1].items() if v != want[1].get(t)}, (cols, typed))
    if changed > 1:
        rec.nontrivial()
    rec.event(loader + (' refused' if want[0] else ' changed' if changed else ' no change'))


def as_sequence(names):
    return lambda row: [row[n] for n in names] if hasattr(row, 'keys') else row


SUBS = [
    Sub('reshape', reshape_case, reshape_run, 5000, 100000, shards=3),
    Sub('load', load_case, load_run, 1100, 20000, shards=5),
]
