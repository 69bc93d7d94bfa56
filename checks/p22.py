"""P22: what the command line exports can be imported again; index codes."""
import csv
import io
import os
import random
import shutil
import tempfile
import uuid
from binascii import crc32

from hypothesis import strategies as st

import matching
import p20
from engine import COLUMN_POOL, VALUE_POOL
from harness import Sub, require
from model import level_bits

PROPERTY = 'P22'
RULE = ('non-trivial: at least two records (or quantities, or mappings) went through an export and an import, or a '
        'damaged or foreign index code was presented')
ASSUMPTIONS = ['text contains no NUL characters and no lone surrogates (CSV and UTF-8 cannot carry them)',
               'labels are not themselves valid index codes of one of the two spaces',
               'the command line runs in-process on streams set up like the real standard streams']

SPECIAL = ['a,b', '"', 'x "y" z', 'l1\nl2', 'l1\r\nl2', 'l1\rl2', "'", ' lead', 'trail ', '日本', '\ufeffbom', 'é', '-',
           '99999999999999999999X0', '1X00000000', '0', '1e5', 'nan', '#', ';', '\t', '\u2028', '\x1c', '\x85', '=1+1', '\\', '\\n']
TEXT = st.one_of(st.sampled_from(SPECIAL), st.sampled_from(VALUE_POOL),
                 st.text(st.characters(blacklist_categories=('Cs',), blacklist_characters='\0'), min_size=1, max_size=6))
NAMES = st.lists(st.one_of(st.sampled_from(COLUMN_POOL + ['a,b', 'l1\nl2', 'quantity2', 'x_index_code']),
                           TEXT.filter(lambda t: t.strip() == t)), min_size=1, max_size=3, unique_by=str.lower)
RESERVED = {'_granularity', 'index_id', '_structure_id', '_location_id', 'domain', 'value', 'weight', 'quantity',
            'm', 'index_code', 'other_index_id', 'mapping_level', 'mapping_value', ''}
WEIGHT = st.one_of(st.sampled_from([0, 1, 2.5, 0.1, 1e-9, 123456789.125, 1e300, 3, None]),
                   st.floats(0, 1e12, allow_nan=False))
QUANT = st.one_of(st.sampled_from([0, 1, -2.5, 0.1, 1e-9, 1e300, 3]), st.floats(-1e12, 1e12, allow_nan=False))


class Terminal(io.StringIO):
    def isatty(self):
        return True


class Output:
    def __init__(self):
        self.buffer = io.BytesIO()

    def isatty(self):
        return False


def cli(*args, stdin=None):
    """Run the command line program; return (exit code, stdout bytes, log text)."""
    from toron.cli.main import main
    out, err = Output(), io.StringIO()
    stream = Terminal() if stdin is None else io.TextIOWrapper(io.BytesIO(stdin), encoding='utf-8')
    try:
        code = int(main([str(a) for a in args], stdin=stream, stdout=out, stderr=err))
    except SystemExit as e:
        code = e.code
    return code, out.buffer.getvalue(), err.getvalue()


def must(*args, stdin=None):
    code, out, err = cli(*args, stdin=stdin)
    require(code == 0, f'exit code {code} of: {" ".join(map(repr, args))}', err, stdin if stdin is None else stdin[:2000])
    return out


def parse(raw):
    return list(csv.reader(io.StringIO(raw.decode('utf-8'), newline='')))


def code_of(i, unique_id):
    crc = crc32(i.to_bytes(8, 'big') + uuid.UUID(unique_id).bytes) & 0xffffffff
    return f'{i}X{crc:08X}'


def all_of(iterator):
    return [tuple(r) for r in iterator]


def contents(path):
    """Everything that can be read from a file, except the file's id."""
    import toron
    space = toron.bind_file(path, mode='ro')
    out = {'index': all_of(space.select_index()), 'domain': space.domain, 'columns': space.index_columns,
           'partitions': sorted(map(sorted, space.partition_definitions)), 'attributes': space.get_registered_attributes()}
    out['weights'] = {}
    for g in space.weight_groups:
        with space._managed_cursor() as cur:
            out['weights'][g.name] = sorted(cur.execute(
                'SELECT index_id, weight_value FROM weight WHERE weight_group_id=?', (g.id,)).fetchall())
        out['weights'][g.name].append(bool(g.is_complete))
    out['links'] = {}
    for x in space.links:
        with space._managed_cursor() as cur:
            maps = {}
            for o, i, v in cur.execute('SELECT other_index_id, index_id, mapping_value FROM mapping WHERE link_id=?',
                                       (x.id,)).fetchall():
                maps[o, i] = maps.get((o, i), 0) + v
        out['links'][x.other_unique_id, x.name] = (maps, bool(x.is_default), bool(x.is_locally_complete), x.other_index_hash)
    if out['attributes']:
        out['quantities'] = sorted(map(repr, space.select_quantities2()))
    return out


def names_from(raw):
    out = []
    for n in raw:
        if n.lower() not in RESERVED and n not in out:
            out.append(n)
    return out or ['A']


class Files:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
        return self

    def path(self, name):
        return os.path.join(self.dir, name)

    def __exit__(self, *args):
        shutil.rmtree(self.dir, ignore_errors=True)


def new_space(columns, domain='', groups=(), partitions=(), attributes=()):
    import toron
    space = toron.DataSpace()
    if domain:
        space.set_domain(domain)
    space.add_index_columns(*columns)
    if partitions:
        space.add_partition_definitions(*partitions)
    for g in groups:
        space.add_weight_group(g)
    if attributes:
        space.set_registered_attributes(list(attributes))
    return space


# -- index ---------------------------------------------------------------------

@st.composite
def index_case(draw):
    n = draw(st.integers(0, 7))
    return (draw(NAMES), draw(st.lists(st.lists(TEXT, min_size=3, max_size=3), min_size=n, max_size=n)),
            draw(st.lists(st.lists(WEIGHT, min_size=n, max_size=n), max_size=2)),
            draw(st.lists(st.integers(0, 9), max_size=2)), draw(st.sampled_from(['', 'D', 'my dom', ' é,"x"'])),
            draw(st.sampled_from(['w', 'pop,2000', 'w "q"'])),
            draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 1), WEIGHT), max_size=3)), draw(st.booleans()),
            draw(st.integers(0, 3)))


def index_run(case, rec):
    import toron
    raw, labels, weights, dropped, domain, gname, changes, backup, order = case
    columns = names_from(raw)
    groups = [gname, gname + '2'][:len(weights)]
    labels = list(dict.fromkeys(tuple(r[:len(columns)]) for r in labels))
    labels = [r for r in labels if r != ('-',) * len(columns)]
    space = new_space(columns, domain, groups)
    if len(groups) == 2 and order % 2:
        space.set_default_weight_group(space.get_weight_group(groups[1]))
    rows = [r + tuple(w[k] for w in weights) for k, r in enumerate(labels)]
    if rows:
        space.insert_index(rows, columns + groups)
    for d in dropped:
        found = all_of(space.select_index(header=False))[1:]
        if found:
            space.delete_index([found[d % len(found)]], ['index_id'] + columns)
    index = all_of(space.select_index(header=False))
    if order % 3 == 0 and len(columns) > 1:
        space.change_label_order(columns[0], 1)
    with Files() as f:
        path, empty = f.path('x.toron'), f.path('y.toron')
        space.to_file(path)
        before = contents(path)
        out = must(path, 'index')
        require(contents(path) == before, 'exporting changes the file')
        table = parse(out)
        require(len(table) == len(index) + 1, 'number of exported rows', table, index)
        by_group = {g: dict(before['weights'][g][:-1]) for g in groups}
        header = table[0][1 + len(columns):]
        require(table[0][1:1 + len(columns)] == columns and sorted(header) == sorted(groups), 'exported header', table[0])
        for got, row in zip(sorted(table[1:], key=lambda r: int(r[0].split('X')[0])), sorted(index)):
            want = [code_of(row[0], space.unique_id)] + list(row[1:])
            require(got[:len(want)] == want, 'exported record', got, want)
            for g, cell in zip(header, got[len(want):]):
                weight = by_group[g].get(row[0], 0.0 if row[0] == 0 else None)
                require((float(cell) if cell else None) == weight, 'exported weight', cell, weight, row, g)
        # Into the same file: nothing changes.
        flags = [] if backup else ['--no-backup']
        if not any(by_group.values()):
            must(path, 'index', *flags, stdin=out)
            require(contents(path) == before, 'importing the export (abort) changes the file', before, contents(path))
        for rule in ('ignore', 'replace'):
            must(path, 'index', '--on-weight-conflict', rule, *flags, stdin=out)
            require(contents(path) == before, f'importing the export ({rule}) changes the file', before, contents(path))
        if backup:
            require(contents(f.path('backup-x.toron')) == before, 'the backup differs')
        # After weights were changed or lost: restored.
        changed = False
        ids = [r[0] for r in index if r[0]]
        with_changes = toron.bind_file(path, mode='rw')
        for i, g, w in changes:
            if groups and ids:
                i, g = ids[i % len(ids)], groups[g % len(groups)]
                row = next(r for r in index if r[0] == i)
                if i in by_group[g]:
                    changed = True
                    if w is None:
                        with_changes.delete_weights(g, [row], ['index_id'] + columns)
                    else:
                        with_changes.update_weights(g, [row + (w,)], ['index_id'] + columns + [g])
        if changed:
            must(path, 'index', '--on-weight-conflict', 'replace', '--no-backup', stdin=out)
            now = contents(path)
            require(now == before, 'importing does not restore changed weights', before, now)
            rec.event('weights restored')
        # Into an empty space with the same columns and groups.
        new_space(columns, domain, groups).to_file(empty)
        must(empty, 'index', '--no-backup', stdin=out)
        now = contents(empty)
        require(sorted(r[1:] for r in now['index']) == sorted(r[1:] for r in before['index']), 'labels after import',
                before['index'], now['index'])
        for g in groups:
            names = [{r[0]: r[1:] for r in c['index'][1:]} for c in (before, now)]
            a, b = [{n[i]: w for i, w in c['weights'][g][:-1]} for n, c in zip(names, (before, now))]
            require(a == b, 'weights after import', a, b)
            require(len(index) < 2 or now['weights'][g][-1] == (set(b) - {('-',) * len(columns)} == {
                    r[1:] for r in now['index'] if r[0]}), 'completeness after import', now)
        if len(index) > 2:
            rec.nontrivial()


# -- quantities ------------------------------------------------------------------

@st.composite
def quantity_case(draw):
    n = draw(st.integers(1, 5))
    return (draw(NAMES), draw(st.lists(st.lists(TEXT, min_size=3, max_size=3), min_size=n, max_size=n)),
            draw(NAMES), draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 7),
                                                 st.lists(st.one_of(TEXT, st.just(''), st.just('')), min_size=3, max_size=3),
                                                 QUANT), min_size=1, max_size=8)),
            draw(st.sampled_from(['', 'D', 'my dom', ' é,"x"'])), draw(st.booleans()), draw(st.lists(st.integers(1, 7), max_size=3)))


def quantity_run(case, rec):
    raw, labels, raw_attrs, quantities, domain, invalid, masks = case
    columns = names_from(raw)
    lower = {c.lower() for c in columns}
    attrs = [a for a in names_from(raw_attrs) if a.lower() not in lower] or ['attr?']
    labels = list(dict.fromkeys(tuple(r[:len(columns)]) for r in labels))
    labels = [r for r in labels if r != ('-',) * len(columns)]
    parts = [{c for k, c in enumerate(columns) if m >> k & 1} for m in masks]
    parts = [p for p in parts if p]
    space = new_space(columns, domain, partitions=parts + [set(columns)], attributes=attrs)
    if labels:
        space.insert_index(labels, columns)
    pool = labels + [('-',) * len(columns)]
    rows = []
    for k, mask, values, value in quantities:
        lab = [x if mask >> j & 1 or not invalid else '' for j, x in enumerate(pool[k % len(pool)])]
        rows.append(lab + values[:len(attrs)] + [''] * (len(attrs) - 3) + [value])
    space.insert_quantities2(value_column='quantity', data=rows, columns=columns + attrs + ['quantity'],
                             allow_invalid_label=True, allow_invalid_partition=True, on_existing='replace')
    with Files() as f:
        path, empty = f.path('x.toron'), f.path('y.toron')
        space.to_file(path)
        before = contents(path)
        out = must(path, 'quantity')
        table = parse(out)
        want = [[str(x) if isinstance(x, float) else (x or '') for x in r] for r in space.select_quantities2()]
        require(table == want, 'exported quantities', table, want)
        require(contents(path) == before, 'exporting changes the file')
        count = len(table) - 1
        for rule in ('ignore', 'replace'):
            must(path, 'quantity', '--no-backup', '--on-existing', rule, '--allow-invalid-partition', stdin=out)
            require(contents(path) == before, f'importing the export ({rule}) changes the file', before, contents(path))
        if count:
            code, _, _ = cli(path, 'quantity', '--no-backup', '--allow-invalid-partition', stdin=out)
            require(code == 1 and contents(path) == before, 'existing quantities are not refused', code)
        target = new_space(columns, domain, partitions=parts + [set(columns)], attributes=attrs)
        if labels:
            target.insert_index(labels, columns)
        target.to_file(empty)
        must(empty, 'quantity', *(['--allow-invalid-partition'] if invalid else []), stdin=out)
        require(contents(empty) == before, 'quantities after import', before, contents(empty))
        must(empty, 'quantity', '--no-backup', '--on-existing', 'sum', '--allow-invalid-partition', stdin=out)
        import toron
        def by_key(sp):
            return {tuple(r[:-1]): r[-1] for r in list(sp.select_quantities2())[1:]}
        a, b = by_key(toron.bind_file(path, mode='ro')), by_key(toron.bind_file(empty, mode='ro'))
        require(a.keys() == b.keys() and all(b[k] == 2 * a[k] for k in a), 'quantities after adding the export', a, b)
        if count > 1:
            rec.nontrivial()


# -- mappings --------------------------------------------------------------------

@st.composite
def mapping_case(draw):
    return (draw(p20.spec('x')), draw(p20.spec('x' if draw(st.booleans()) else 'y')),
            draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(0, 15),
                                    st.one_of(st.sampled_from([1, 2, 0, 0.1, 1e-9, 7.5]), st.floats(0, 1e12))),
                          min_size=1, max_size=10, unique_by=lambda t: t[:3])),
            draw(st.sampled_from(['', 'D', 'my dom'])), draw(st.sampled_from(['right', 'left', 'both'])),
            draw(st.sampled_from([1, 1, 2, 50])), draw(st.booleans()),
            draw(st.integers(0, 4)))


def mapping_run(case, rec):
    spec1, spec2, mappings, domain, direction, limit, overlap, seed = case
    space1, side1 = matching.build_side(__import__('toron'), spec1)
    space2, side2 = matching.build_side(__import__('toron'), spec2)
    if domain:
        space1.set_domain(domain)
    name = ['m', 'pop 2000', 'é, "l"', 'total: size', 'l1\nl2'][seed]
    with Files() as f:
        p1, p2, q1, q2 = (f.path(n) for n in ('x.toron', 'y.toron', 'q.toron', 'r.toron'))
        for sp, other in ((space2, space1), (space1, space2)):
            sp.add_link(other, name)
        space1.to_file(q1)
        space2.to_file(q2)
        levels = sorted(matching.side_model(side2).structure() - {()})
        done = {}
        rows = []
        for a, b, lev, v in mappings:
            o, i = sorted(side1['index'])[a % len(side1['index'])], sorted(side2['index'])[b % len(side2['index'])]
            level = matching.level_bytes(levels[lev % len(levels)])
            if (o, i) != (0, 0) and (o, i, level) not in done:
                done[o, i, level] = v
                rows.append((o, i, level, v))
        if rows:
            space2.insert_mappings2(space1, name, rows, ['other_index_id', 'index_id', 'mapping_level', name])
        space1.to_file(p1)
        space2.to_file(p2)
        before = contents(p1), contents(p2)
        out = must(p1, 'mapping', p2, name)
        require((contents(p1), contents(p2)) == before, 'exporting changes a file')
        expected = {}
        for o, i, _, v in rows:
            expected[o, i] = expected.get((o, i), 0) + v
        # The exported text itself.
        n1, n2 = len(side1['columns']), len(side2['columns'])
        seen, vague = {}, []
        covered = [set(), set()]
        for row in parse(out)[1:]:
            c1, lab1, v, c2, lab2 = row[0], row[1:1 + n1], row[1 + n1], row[2 + n1], row[3 + n1:3 + n1 + n2]
            ids = []
            for c, lab, side, sp, k in ((c1, lab1, side1, space1, 0), (c2, lab2, side2, space2, 1)):
                i = int(c.split('X')[0]) if c else None
                if c:
                    require(c == code_of(i, sp.unique_id) and tuple(lab) == side['index'][i], 'exported side', row)
                    covered[k].add(i)
                else:
                    require(not any(lab) and v == '', 'exported side without a code', row)
                ids.append(i)
            if None not in ids and ids != [0, 0]:
                seen[tuple(ids)] = seen.get(tuple(ids), 0) + float(v)
                vague.append((*ids, float(v), row[3 + n1 + n2] if len(row) > 3 + n1 + n2 else ''))
        require(matching.close(expected, seen), 'exported mapping', expected, seen)
        told = [(o, i, v, ', '.join(c for c, b in zip(side2['columns'], list(level_bits(lev)) + [0] * n2) if not b)) for o, i, lev, v in rows]
        require(sorted(vague) == sorted(told), 'columns named as ambiguous', sorted(vague), sorted(told))
        require(covered == [set(side1['index']), set(side2['index'])], 'records missing from the export', covered)
        # Import into the spaces as they were without the mapping.
        complete = ({o for o, _ in expected} | {0} == set(side1['index'])
                    and {i for _, i in expected} | {0} == set(side2['index']))
        args = [] if direction == 'both' else ['--' + direction]
        args += ['--match-limit', limit] + (['--allow-overlapping'] if overlap else [])
        pristine = contents(q1), contents(q2)
        code, _, err = cli(q1, 'mapping', q2, name, '--no-backup', *args, stdin=out)
        require((code == 0) == complete, f'incomplete mapping: exit code {code}, complete: {complete}', err, expected)
        if code:
            require((contents(q1), contents(q2)) == pristine, 'a refused mapping leaves something behind')
            must(q1, 'mapping', q2, name, '--no-backup', '--allow-incomplete', *args, stdin=out)
        now = contents(q1), contents(q2)
        for k, sp, other, wanted, want in (
                (1, space2, space1, direction in ('right', 'both'), expected),
                (0, space1, space2, direction in ('left', 'both'), {(i, o): v for (o, i), v in expected.items()})):
            got = now[k]['links'][other.unique_id, name]
            require(matching.close(got[0], want if wanted else {}), f'mapping after import ({direction})', got[0], want)
            if k == 1 and wanted and want:
                old = before[1]['links'][space1.unique_id, name]
                require(got[1:] == old[1:], 'link after import', got, old)
        if len(expected) > 1:
            rec.nontrivial()
        if not complete:
            rec.event('incomplete mapping')


@st.composite
def import_case(draw):
    limit = draw(st.sampled_from([1, 2, 3, 5, 20]))
    pick = st.tuples(st.sampled_from(['id', 'lab', 'lab', 'lab', 'wrong']), st.integers(0, 12), st.integers(0, 15))
    return (draw(p20.spec('x')), draw(p20.spec('y')),
            draw(st.lists(st.tuples(pick, pick, p20.VALUES), min_size=1, max_size=8)),
            limit, draw(st.booleans()), draw(st.sampled_from(['right', 'left', 'both'])),
            draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 99)), draw(st.sampled_from([None] * 6 + ['blank', 'foreign', 'typo'])))


def import_run(case, rec):
    """A mapping typed by a user, with codes, labels or both on each side."""
    spec1, spec2, picks, limit, overlap, direction, codes1, codes2, seed, broken = case
    import toron
    space1, side1 = matching.build_side(toron, spec1)
    space2, side2 = matching.build_side(toron, spec2)
    rows = []
    for a, b, v in picks:
        if not codes1:
            a = ('lab',) + a[1:] if a[0] == 'id' else a
        if not codes2:
            b = ('lab',) + b[1:] if b[0] == 'id' else b
        rows.append([matching.row_side(side1, a, False), matching.row_side(side2, b, False), v])
    swap = codes1 and codes2 and seed % 3 == 0 and all(any(r[k][0] == 'id' for r in rows) for k in (0, 1))
    reorder = seed % 2
    table = []
    for n, (a, b, v) in enumerate(rows):
        cells = []
        for ref, side, sp, codes in ((a, side1, space1, codes1), (b, side2, space2, codes2)):
            if ref[0] == 'id':
                labels = list(side['index'].get(ref[1], ('',) * len(side['columns'])))
                if seed % 5 == 0:
                    labels = [''] * len(labels)
                code = code_of(ref[1], sp.unique_id)
            else:
                labels, code = list(ref[1]), ''
            cells.append(([code] if codes else []) + labels)
        table.append((cells, v))
    broken_row = seed % len(rows)
    if broken == 'blank':
        table[broken_row] = (table[broken_row][0], '')
    elif broken and codes1:
        ids = [k for k, r in enumerate(rows) if r[0][0] == 'id']
        if len(ids) < 2:
            broken = None
        else:
            k = ids[-1]
            i = rows[k][0][1]
            bad = code_of(i, str(uuid.UUID(int=12345))) if broken == 'foreign' else code_of(i, space1.unique_id).replace('X', '1X')
            table[k][0][0][0] = bad
    elif broken:
        broken = None
    header = [(['one_code'] if codes1 else []) + side1['columns'], (['two_code'] if codes2 else []) + side2['columns']]
    text = io.StringIO()
    writer = csv.writer(text, lineterminator='\r\n' if seed % 4 == 0 else '\n')
    sides = [1, 0] if swap else [0, 1]
    writer.writerow(header[sides[0]] + ['m'] + header[sides[1]] + (['extra'] if seed % 7 == 0 and all(
        any(r[k][0] == 'id' for r in rows) for k in (0, 1)) else []))
    for cells, v in table:
        writer.writerow(cells[sides[0]] + [v] + cells[sides[1]] + (['x'] if seed % 7 == 0 and all(
            any(r[k][0] == 'id' for r in rows) for k in (0, 1)) else []))
    if any(c and not any(r[k][0] == 'id' for r in rows) for k, c in ((0, codes1), (1, codes2))):
        rec.excluded('a code column without any code')
        return
    if (codes1 or codes2) and not (codes1 and codes2) and False:
        return
    with Files() as f:
        p1, p2 = f.path('x.toron'), f.path('y.toron')
        space2.add_link(space1, 'm')
        space1.add_link(space2, 'm')
        space1.to_file(p1)
        space2.to_file(p2)
        before = contents(p1), contents(p2)
        args = ['--match-limit', limit] + (['--allow-overlapping'] if overlap else []) + (
            [] if direction == 'both' else ['--' + direction])
        good = [matching.side_model(s).structure() for s in (side1, side2)]
        require(all(matching.level_of(s, r[k]) in good[k] for r in rows for k, s in ((0, side1), (1, side2))), 'harness')
        code, _, err = cli(p1, 'mapping', p2, 'm', '--no-backup', *args, stdin=text.getvalue().encode())
        if broken in ('foreign', 'typo'):
            require(code == 1 and (contents(p1), contents(p2)) == before, f'a {broken} code is accepted', code, text.getvalue())
            rec.event(f'{broken} code refused')
            rec.nontrivial()
            return
        if broken == 'blank':
            rows.pop(broken_row)
        stats = {}
        expected = matching.outcomes(side1, side2, [tuple(r) for r in rows], (limit, limit), (overlap, overlap), 0.0, stats=stats)
        if expected is None:
            rec.excluded('too many levels of equal granularity')
            return
        defined = [{i for i in s['index'] if i} for s in (side1, side2)]
        full = {e[2] - {0} == defined[0] and e[3] - {0} == defined[1] for e in expected}
        require((code == 0) in full, f'exit code {code}, fully matched: {full}', err, text.getvalue(), side1, side2)
        if code:
            require((contents(p1), contents(p2)) == before, 'a refused mapping leaves something behind')
            must(p1, 'mapping', p2, 'm', '--no-backup', '--allow-incomplete', *args, stdin=text.getvalue().encode())
        now = contents(p1), contents(p2)
        ok = False
        for e in expected:
            good = True
            for k, other, flag in ((1, space1, 'right'), (0, space2, 'left')):
                want = {}
                if direction in (flag, 'both'):
                    for (o, i, _), v in e[k].items():
                        want[o, i] = want.get((o, i), 0) + v
                good = good and matching.close(want, now[k]['links'][other.unique_id, 'm'][0])
            ok = ok or good
        require(ok, 'the loaded mappings differ from the documented matching', text.getvalue(), side1, side2,
                [n['links'] for n in now], [e[:2] for e in expected][:1])
        for k in stats:
            rec.event(k)
        if len(rows) > 1:
            rec.nontrivial()


@st.composite
def large_case(draw):
    return (draw(p20.BIG), draw(p20.BIG), draw(p20.big_rows(st.sampled_from([0, 1, 7, 8, 100, 250]))), draw(st.sampled_from([1, 2, 50, 1000])),
            draw(st.booleans()), draw(st.sampled_from(['right', 'left', 'both'])), draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 99)))


def large_run(case, rec):
    big1, big2, rows, limit, overlap, direction, codes1, codes2, seed = case
    picks = p20.big_picks(rows)
    import_run((matching.big_spec('x', big1), matching.big_spec('y', big2), picks, limit, overlap, direction, codes1, codes2, seed, None), rec)


# -- codes -----------------------------------------------------------------------

@st.composite
def code_case(draw):
    return (draw(st.one_of(st.integers(0, 20), st.integers(0, 2 ** 31), st.integers(0, 2 ** 62))),
            draw(st.integers(0, 2 ** 128 - 1)), draw(st.integers(0, 2 ** 128 - 1)),
            draw(st.sampled_from(['replace', 'replace', 'insert', 'delete', 'swap', 'cut', 'none', 'text'])),
            draw(st.integers(0, 40)), draw(st.one_of(st.sampled_from('0123456789ABCDEFX abcdefx-+_.,\n١'), st.characters())),
            draw(st.one_of(st.text(max_size=8), st.from_regex(r'\A[0-9]{0,25}X[0-9A-F]{0,9}\Z'))))


def code_run(case, rec):
    from toron.cli.common import get_index_code_position, index_code_to_id, index_id_to_code
    i, u, u2, kind, k, char, text = case
    ub, ub2 = u.to_bytes(16, 'big'), u2.to_bytes(16, 'big')
    code = index_id_to_code(i, ub)
    require(code == code_of(i, str(uuid.UUID(int=u))), 'not the documented code', code)
    require(index_code_to_id(code, ub) == i, 'a code does not give back its id', code)

    def read(c, unique):
        try:
            return index_code_to_id(c, unique)
        except ValueError:
            return None
    if u != u2:
        require(read(code, ub2) is None, 'a code of another space is accepted', code)
    k %= len(code)
    if kind == 'replace':
        bad = code[:k] + char + code[k + 1:]
    elif kind == 'insert':
        bad = code[:k] + char + code[k:]
    elif kind == 'delete':
        bad = code[:k] + code[k + 1:]
    elif kind == 'swap':
        bad = code[:k] + code[k + 1:k + 2] + code[k:k + 1] + code[k + 2:]
    elif kind == 'cut':
        bad = code[:k]
    elif kind == 'text':
        bad = text
    else:
        bad = code
    got = read(bad, ub)
    if kind == 'text':
        right = got is not None and code_of(got, str(uuid.UUID(int=u))) == bad.upper()
        require(got is None or right or int(bad.partition('X')[0]) == got, 'text is taken for a code', bad, got)
    elif i < 2 ** 31:
        require(got in (None, i), 'a damaged code denotes another record', code, bad, got)
        if got is not None and bad != code:
            rec.event('harmless damage accepted')
    if bad != code:
        rec.nontrivial()
    # The column holding the codes is found among columns of other text.
    other = [['A', 'B', 'C'], [text, code, '1'], [bad if got is None else 'x', '', text], ['', code, '2']]
    if read(text, ub) is None:
        require(get_index_code_position(other, ub) == 1, 'code column not found', other)


# -- streams with codes --------------------------------------------------------------
DAMAGE = ['none', 'none', 'digits only', 'cut digits', 'cut', 'other id', 'other checksum', 'foreign', 'unknown id', 'raw id',
          'negative', 'X']


@st.composite
def coded_case(draw):
    return (draw(st.integers(1, 30)), draw(st.integers(1, 2)), draw(st.sampled_from(DAMAGE)), draw(st.integers(0, 40)),
            draw(st.integers(0, 10 ** 6)), draw(st.booleans()), draw(st.sampled_from(['abort', 'ignore', 'replace'])),
            draw(st.sampled_from(['replace', 'replace', 'abort', 'ignore'])), draw(st.integers(0, 3)),
            draw(st.integers(0, 10 ** 9)), draw(st.sampled_from([0, 0, 1, 9, 10, 11, 25, 300])), draw(st.sampled_from([None, None, 0, 1, 20])))


def damaged(how, codes, i, pick, unique_id):
    """Text that is no code of the space, though made from one."""
    code = codes[i]
    j = pick % len(codes)
    number, _, crc = code.partition('X')
    bad = {'digits only': number, 'cut digits': number[:1 + pick % len(number)], 'cut': code[:1 + pick % (len(code) - 1)],
           'other id': f'{j}X{crc}', 'other checksum': number + 'X' + codes[j].partition('X')[2],
           'foreign': code_of(i, str(uuid.UUID(int=pick + 1))), 'unknown id': f'{len(codes) + pick}X{crc}',
           'raw id': str(j), 'negative': '-' + code, 'X': 'X' + crc}[how]
    return None if bad in codes.values() else bad


def coded_run(case, rec):
    n, ngroups, damage, at, pick, with_labels, on_label, on_weight, place, shuffle, lead, edit = case
    lead = lead if with_labels else 0
    with Files() as files:
        path = files.path('a.toron')
        groups = ['w', 'v'][:ngroups]
        sp = new_space(['A', 'B'], groups=groups)
        rows = [(f'a{i}', f'b{i % 4}') for i in range(1, n + 1)]
        sp.insert_index([r + (i, 2 * i)[:ngroups] if i % 3 else r + ('',) * ngroups for i, r in enumerate(rows, 1)],
                        ['A', 'B'] + groups)
        unique_id = sp.unique_id
        sp.to_file(path, fsync=False)
        labels = {r[0]: tuple(r[1:]) for r in sp.select_index()}
        codes = {i: code_of(i, unique_id) for i in labels}
        order = [i for i in labels if i]
        random.Random(shuffle).shuffle(order)
        at = at % len(order)
        bad = None
        if damage != 'none' and len(order) > 1:
            bad = damaged(damage, codes, order[at], pick, unique_id)
        cells = {i: codes[i] for i in order}
        if bad is not None:
            cells[order[at]] = bad
        header = ['any_code'] + (['A', 'B'] if with_labels else []) + groups
        typed = dict(labels)
        if edit is not None and with_labels:     # other labels for a record named by its code
            edit = order[edit % len(order)]
            typed[edit] = ('edited', 'label')
        else:
            edit = None
        body = [['', f'new {k}', 'z'] + [k, 3 * k][:ngroups] for k in range(lead)]
        body += [[cells[i]] + (list(typed[i]) if with_labels else []) + [100 + i, 200 + i][:ngroups] for i in order]
        # The columns may come in any order.
        turn = place % len(header)
        header, body = header[turn:] + header[:turn], [r[turn:] + r[:turn] for r in body]
        text = io.StringIO()
        csv.writer(text).writerows([header] + body)
        before = contents(path)
        args = [path, 'index', '--no-backup', '--on-weight-conflict', on_weight, '--on-label-conflict', on_label]
        code, _, err = cli(*args, stdin=text.getvalue().encode())
        after = contents(path)
        if bad is not None:
            require(code != 0 and after == before, f'a damaged code is accepted ({damage}): {bad!r}, exit code {code}', text.getvalue())
            rec.event(f'refused: {damage}' + (', late' if at >= 9 else ''))
            rec.nontrivial()
            return
        want = dict(before, weights=dict(before['weights']))
        clash = False
        for k, g in enumerate(groups):
            old = dict(x for x in before['weights'][g][:-1])
            clash |= bool(old)
            new = {i: (old[i] if i in old and on_weight == 'ignore' else float([100, 200][k] + i)) for i in order}
            new.update({max(order) + 1 + j: float([j, 3 * j][k]) for j in range(lead)})
            want['weights'][g] = sorted(new.items()) + [True]
        if lead:
            want['index'] = before['index'] + [(max(order) + 1 + j, f'new {j}', 'z') for j in range(lead)]
        if edit is not None and on_label == 'replace':
            want['index'] = [(i, *typed[i]) if i == edit else r for r in want['index'] for i in [r[0]]]
        if clash and on_weight == 'abort':
            require(code != 0 and after == before, 'existing weights are not refused', code, text.getvalue())
        elif edit is not None and on_label == 'abort':
            require(code != 0 and after == before, 'other labels for a record named by its code are not refused', code, text.getvalue())
        else:
            require(code == 0 and after == want, f'import by codes, exit code {code}', err, after, want, text.getvalue())
            rec.event('imported by codes')
            rec.nontrivial()


SUBS = [
    Sub('index', index_case, index_run, 960, 7680),
    Sub('quantities', quantity_case, quantity_run, 960, 7680),
    Sub('mappings', mapping_case, mapping_run, 1040, 8320),
    Sub('typed mappings', import_case, import_run, 1200, 9600),
    Sub('coded streams', coded_case, coded_run, 1600, 12800),
    Sub('large mappings', large_case, large_run, 100, 1000),
    Sub('codes', code_case, code_run, 12000, 96000, shards=2),
]
