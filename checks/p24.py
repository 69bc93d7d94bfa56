"""P24: names given by users never collide, corrupt or escape."""
import os
import shutil
import tempfile

from hypothesis import strategies as st

import toron
from engine import COLUMN_POOL, RESERVED, VALUE_POOL
from harness import Sub, require

PROPERTY = 'P24'
RULE = ('non-trivial: at least four operations were accepted and one was refused, or a name with characters beyond '
        'ASCII letters, digits, space and underscore was stored')
ASSUMPTIONS = [
    'the store may refuse, but never alter: empty column names, column names that differ from another one or from a '
    'reserved name only in case, text with NUL characters as column names, and text that UTF-8 cannot encode',
    'label columns are dropped only from spaces without records (C15 judges what happens to records)',
]
ASSUMPTIONS[-1] = ASSUMPTIONS[-1].replace('C15', 'P15')

SPECIAL = ['', ' ', 'a', 'A', 'b', 'B', ' a', 'a ', 'é', 'e\u0301', 'É', 'ß', 'SS', 'ı', 'İ', 'i', 'I', '日本', '😀', '\0', 'x\0y', '\ud800',
           'x\udfff', '\n', '\r\n', '\t', '\ufeff', '\u200b', '"', '""', "'", "''", '`', '[', ']', '[a]', '%', '%s', '{}', '{0}',
           '?', '?1', ':a', '@a', '$a', ';', '--', '/*', '*/', '); DROP TABLE main.link; --', '"); DROP TABLE main.link; --',
           '\\', '\\"', '\\u0061', 'null', 'NULL', 'None', 'true', '0', '1', '-1', '1e5', 'nan', '-', 'select', 'rowid', 'oid', '_rowid_',
           'main', 'label_index', 'attributes', 'quantity', 'quantity_value', 'header', 'self', 'data', 'columns', 'x' * 300,
           'Index_ID', 'INDEX_ID', '_Granularity', 'Domain', 'VALUE', 'Weight', 'weight ', 'other_index_id', 'mapping_level',
           *sorted(RESERVED)]
TEXT = st.one_of(st.sampled_from(SPECIAL), st.sampled_from(SPECIAL[:20]), st.sampled_from(COLUMN_POOL), st.text(max_size=5),
                 st.text(st.characters(), min_size=1, max_size=2))
GOOD = st.one_of(st.sampled_from(COLUMN_POOL), st.sampled_from(['a', 'b', 'c', 'd', 'é', '日本', '"', "'", '%s', ';', '\n', '{}']))
NAME = st.one_of(TEXT, GOOD, GOOD)
K = st.integers(0, 5)
MAYBE = st.one_of(st.none(), TEXT)
TEXTS = st.lists(TEXT, max_size=3)
LOCATION = st.tuples(K, TEXTS, st.sampled_from([1, 2.5, 0, -1]))

OPERATIONS = st.one_of(
    st.tuples(st.just('domain'), TEXT),
    st.tuples(st.just('addc'), st.lists(NAME, min_size=1, max_size=3)),
    st.tuples(st.just('addc'), st.lists(GOOD, min_size=1, max_size=3, unique=True)),
    st.tuples(st.just('ren'), K, NAME),
    st.tuples(st.just('rens'), st.lists(st.tuples(K, NAME), min_size=1, max_size=3)),
    st.tuples(st.just('swap'), K, K),
    st.tuples(st.just('dropc'), K),
    st.tuples(st.just('attrs'), st.lists(NAME, max_size=4)),
    st.tuples(st.just('attrs'), st.lists(GOOD, max_size=4, unique=True)),
    st.tuples(st.just('attrs like columns'), K, st.lists(GOOD, max_size=2)),
    st.tuples(st.just('columns like attrs'), K, st.booleans()),
    st.tuples(st.just('orda'), K, st.integers(-5, 5)),
    st.tuples(st.just('ordc'), K, st.integers(-5, 5)),
    st.tuples(st.just('addg'), TEXT, MAYBE, st.one_of(st.none(), TEXTS, TEXT)),
    st.tuples(st.just('editg'), K, st.sampled_from(['name', 'description', 'selectors']), TEXT),
    st.tuples(st.just('addl'), st.integers(0, 1), TEXT, MAYBE, st.one_of(st.none(), TEXTS, TEXT), MAYBE),
    st.tuples(st.just('editl'), K, st.sampled_from(['name', 'description', 'selectors', 'other_filename_hint']), TEXT),
    st.tuples(st.just('index'), st.lists(st.lists(TEXT, min_size=4, max_size=4), min_size=1, max_size=3)),
    st.tuples(st.just('index'), st.lists(st.lists(TEXT, min_size=4, max_size=4), min_size=1, max_size=3)),
    st.tuples(st.just('quant'), st.lists(LOCATION, min_size=1, max_size=3)),
    st.tuples(st.just('quant'), st.lists(LOCATION, min_size=1, max_size=3)),
    st.tuples(st.just('save'), st.booleans()),
)


def case():
    return st.tuples(st.lists(GOOD, min_size=1, max_size=3, unique_by=lambda t: t.lower()),
                     st.lists(OPERATIONS, min_size=3, max_size=14))


def storable(text):
    try:
        text.encode('utf-8')
    except UnicodeEncodeError:
        return False
    return True


class Names:
    """The reference."""

    def __init__(self, columns):
        self.domain = ''
        self.columns = list(columns)
        self.display = []
        self.attrs = []
        self.groups = {}
        self.links = {}
        self.index = []        # dicts
        self.quantities = []   # (labels dict, attributes dict, value)

    def shown(self):
        return self.display + [c for c in self.columns if c not in self.display]

    def new_columns(self, names, gone=()):
        """(must be refused, may be refused)"""
        others = [c for c in self.columns if c not in gone]
        must = (any(n in RESERVED or n in self.attrs or n in self.columns for n in names) or len(set(names)) < len(names))
        low = [x.lower() for x in names]
        taken = [x.lower() for x in [*others, *RESERVED, 'rowid', 'oid', '_rowid_', *gone]]
        may = (must or any(not n or '\0' in n or not storable(n) for n in names) or len(set(low)) < len(low)
               or any(x in taken for x in low))
        # SQLite folds ASCII letters only, but leave the judgement of other folding to it too.
        return must, may


def view(space, m):
    """What the space reports, in the form of see_model()."""
    out = {'domain': space.domain, 'columns': space.index_columns, 'display': space.get_label_columns(),
           'attributes': space.get_registered_attributes()}
    out['partitions ok'] = all(p <= set(m.columns) for p in space.partition_definitions)
    out['groups'] = {g.name: (g.description, g.selectors) for g in space.weight_groups}
    out['links'] = {(x.other_unique_id, x.name): (x.description, x.selectors, x.other_filename_hint) for x in space.links}
    rows = list(space.select_index(header=True))
    out['index header'] = tuple(rows[0])
    out['index'] = sorted((dict(zip(rows[0][1:], r[1:])) for r in rows[1:] if r[0]), key=repr)
    if m.attrs:
        table = list(space.select_quantities2())
        skip = 1 if m.domain else 0
        n = skip + len(m.columns)
        out['quantity columns'] = table[0][skip:-1]
        out['quantities'] = sorted((sorted(zip(table[0][skip:n], r[skip:n])),
                                    sorted((a, v) for a, v in zip(table[0][n:-1], r[n:-1]) if v), r[-1]) for r in table[1:])
        require(not skip or table[0][0] == 'domain' and all(r[0] == m.domain for r in table[1:]), 'domain column', table)
    repr(space)
    return out


def see_model(m):
    out = {'domain': m.domain, 'columns': m.columns, 'display': m.shown(), 'attributes': m.attrs, 'partitions ok': True}
    out['groups'] = m.groups
    out['links'] = m.links
    out['index header'] = ('index_id', *m.columns)
    out['index'] = sorted(m.index, key=repr)
    if m.attrs:
        out['quantity columns'] = m.columns + m.attrs
        out['quantities'] = sorted((sorted(lab.items()), sorted((a, v) for a, v in at.items() if a in m.attrs and v), value)
                                   for lab, at, value in m.quantities)
    return out


def run(case, rec):
    columns, ops = case
    others = [toron.DataSpace(), toron.DataSpace()]
    space = toron.DataSpace()
    m = Names(columns)
    space.add_index_columns(*columns)
    directory = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    history = [f'add_index_columns(*{columns})']
    accepted = refused = odd = 0
    try:
        for op in ops:
            kind, must, may = op[0], False, False
            new = Names([])
            new.__dict__.update({k: (v.copy() if hasattr(v, 'copy') else v) for k, v in m.__dict__.items()})
            if kind == 'domain':
                name = op[1]
                must = False
                new.domain = name

                def do():
                    space.set_domain(name)
            elif kind in ('addc', 'columns like attrs'):
                if kind == 'addc':
                    names = op[1]
                elif m.attrs:
                    names = [m.attrs[op[1] % len(m.attrs)]]
                else:
                    continue
                if len(m.columns) + len(names) > 6:
                    continue
                if kind == 'addc' or not op[2]:
                    must, may = m.new_columns(names)
                    new.columns = m.columns + names
                    new.index = [{**r, **{n: '-' for n in names}} for r in m.index]
                    new.quantities = [({**lab, **{n: '' for n in names}}, a, v) for lab, a, v in m.quantities]

                    def do():
                        space.add_index_columns(*names)
                else:
                    old = m.columns[op[1] % len(m.columns)]
                    must = may = True

                    def do():
                        space.rename_label_column(old, names[0])
            elif kind in ('ren', 'rens', 'swap'):
                pairs = {'ren': lambda: [(op[1], op[2])], 'rens': lambda: op[1],
                         'swap': lambda: [(op[1], None), (op[2], None)]}[kind]()
                mapping = {m.columns[k % len(m.columns)]: n for k, n in pairs}
                if kind == 'swap':
                    a, b = m.columns[op[1] % len(m.columns)], m.columns[op[2] % len(m.columns)]
                    mapping = {a: b, b: a}
                must, may = m.new_columns(list(mapping.values()), list(mapping))

                def ren(seq):
                    return [mapping.get(c, c) for c in seq]
                new.columns, new.display = ren(m.columns), ren(m.display)
                new.index = [dict(zip(ren(r), r.values())) for r in m.index]
                new.quantities = [(dict(zip(ren(lab), lab.values())), a, v) for lab, a, v in m.quantities]

                def do():
                    if kind == 'ren':
                        space.rename_label_column(*next(iter(mapping.items())))
                    else:
                        space.rename_index_columns(mapping)
            elif kind == 'dropc':
                if m.index or m.quantities:
                    continue
                name = m.columns[op[1] % len(m.columns)]
                must = may = len(m.columns) == 1
                new.columns = [c for c in m.columns if c != name]
                new.display = [c for c in m.display if c != name]

                def do():
                    space.drop_index_columns(name)
            elif kind in ('attrs', 'attrs like columns'):
                names = list(op[1]) if kind == 'attrs' else list(op[2]) + [m.columns[op[1] % len(m.columns)]]
                used = {a for _, at, _ in m.quantities for a, v in at.items() if v}
                if not used <= set(names):
                    names += [a for a in m.attrs if a in used and a not in names]
                must = may = len(set(names)) < len(names) or any(n in RESERVED or n in m.columns for n in names)
                new.attrs = names

                def do():
                    space.set_registered_attributes(names)
            elif kind in ('orda', 'ordc'):
                seq = m.attrs if kind == 'orda' else m.shown()
                if not seq:
                    continue
                name, offset = seq[op[1] % len(seq)], op[2]
                to = max(0, min(len(seq) - 1, seq.index(name) + offset))
                seq = [x for x in seq if x != name]
                seq.insert(to, name)
                if kind == 'orda':
                    new.attrs = seq
                else:
                    new.display = seq

                def do():
                    (space.change_attribute_order if kind == 'orda' else space.change_label_order)(name, offset)
            elif kind == 'addg':
                _, name, desc, sel = op
                must = may = name in m.groups
                may = may or not all(storable(x) for x in (name, desc or ''))
                new.groups = {**m.groups, name: (desc, [sel] if isinstance(sel, str) else sel or None)}
                def do():
                    space.add_weight_group(name, desc, sel)
            elif kind == 'editg':
                if not m.groups:
                    continue
                name = list(m.groups)[op[1] % len(m.groups)]
                desc, sel = m.groups[name]
                change = {op[2]: [op[3]] if op[2] == 'selectors' else op[3]}
                must = may = op[2] == 'name' and op[3] in m.groups and op[3] != name
                may = may or not storable(op[3])
                new.groups = {(op[3] if n == name and op[2] == 'name' else n):
                              v if n != name else (op[3] if op[2] == 'description' else desc,
                                                   [op[3]] if op[2] == 'selectors' else sel) for n, v in m.groups.items()}

                def do():
                    space.edit_weight_group(name, **change)
            elif kind == 'addl':
                _, k, name, desc, sel, hint = op
                key = others[k].unique_id, name
                must = may = key in m.links
                may = may or not all(storable(x) for x in (name, desc or '', hint or ''))
                new.links = {**m.links, key: (desc, [sel] if isinstance(sel, str) else sel or None, hint)}

                def do():
                    space.add_link(others[k], name, description=desc, selectors=sel, other_filename_hint=hint)
            elif kind == 'editl':
                if not m.links:
                    continue
                key = list(m.links)[op[1] % len(m.links)]
                other = next(o for o in others if o.unique_id == key[0])
                value = [op[3]] if op[2] == 'selectors' else op[3]
                names = ['description', 'selectors', 'other_filename_hint']
                new_key = (key[0], value) if op[2] == 'name' else key
                must = may = new_key != key and new_key in m.links
                may = may or not storable(op[3])
                new.links = {(new_key if k == key else k): v if k != key else tuple(
                    value if n == op[2] else x for n, x in zip(names, v)) for k, v in m.links.items()}

                def do():
                    space.edit_link(other, key[1], **{op[2]: value})
            elif kind == 'index':
                if set(m.groups) & set(m.columns):
                    continue     # the labels would be taken for weights as well
                rows = [dict(zip(m.columns, r + ['x', 'y'])) for r in op[1]]
                may = not all(storable(x) for r in rows for x in r.values())
                new.index = list(m.index)
                for r in rows:
                    if '' not in r.values() and r not in new.index and set(r.values()) != {'-'}:
                        new.index.append(r)

                def do():
                    space.insert_index([list(r.values()) for r in rows], m.columns)
            elif kind == 'quant':
                if not m.index or not m.attrs:
                    continue
                rows = []
                for k, values, number in op[1]:
                    lab = m.index[k % len(m.index)]
                    rows.append((lab, dict(zip(m.attrs, values)), number))
                may = not all(storable(x) for _, at, _ in rows for x in at.values()) or any(at.get('') for _, at, _ in rows)
                new.quantities = []
                plain = [(lab, {a: v for a, v in at.items() if v}, n) for lab, at, n in rows
                         if any(at.values())]
                found = [(lab, {a: v for a, v in at.items() if v}, n) for lab, at, n in m.quantities]
                for lab, at, n in found + plain:
                    for j, q in enumerate(new.quantities):
                        if q[:2] == (lab, at):
                            new.quantities[j] = (lab, at, q[2] + n)
                            break
                    else:
                        new.quantities.append((lab, at, n))
                data = [[lab[c] for c in m.columns] + [at.get(a, '') for a in m.attrs] + [n] for lab, at, n in rows]
                names = m.columns + m.attrs
                if 'the number' in names:
                    continue

                def do():
                    space.insert_quantities2(value_column='the number', data=data, columns=names + ['the number'],
                                             on_existing='sum', allow_invalid_partition=True)
            elif kind == 'save':
                path = os.path.join(directory, 'x.toron')
                space.to_file(path, fsync=False)
                space = toron.read_file(path) if op[1] else toron.bind_file(path, mode='rw')
                history.append(f'save and reopen {op[1]}')

                def do():
                    pass
            error = None
            try:
                do()
            except Exception as e:
                error = e
            history.append(f'{op} -> {type(error).__name__ if error else "ok"}')
            require(not (must and error is None), 'a name is accepted that must be refused', history)
            require(error is None or may, f'refused: {error!r}', history)
            if error is None:
                m = new
                accepted += kind != 'save'
                odd += any(not (c.isascii() and (c.isalnum() or c in ' _')) for c in repr(op[1:]) if c not in '[](),\'')
            else:
                refused += 1
            got, want = view(space, m), see_model(m)
            for key in want:
                require(got[key] == want[key], f'{key}: expected, found', want[key], got[key], history)
            names = got['columns'] + got['attributes']
            require(len(set(names)) == len(names) and not set(names) & RESERVED, 'names collide', names, history)
        for c in m.columns:
            if c in ('self', 'header'):
                continue
            for r in m.index[:2]:
                if not storable(r[c]):
                    continue
                found = [x[1:] for x in space.select_index(**{c: r[c]}) if x[0]]
                want = [tuple(x[k] for k in m.columns) for x in m.index if x[c] == r[c]]
                require(sorted(found) == sorted(want), 'selecting by a label', c, r[c], found, want, history)
        if odd or accepted > 3 and refused:
            rec.nontrivial()
        if refused:
            rec.event('refused operation')
    finally:
        shutil.rmtree(directory, ignore_errors=True)


SUBS = [Sub('names', case, run, 6000, 60000, shards=8)]
