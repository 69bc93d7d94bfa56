"""P19: files of older formats, and files that are none of ours."""
import json
import os
import shutil
import sqlite3
import tempfile
from contextlib import closing

from hypothesis import strategies as st

import toron
from engine import OPS, Engine, history, same
from harness import HarnessError, Sub, require
from p16 import WEIGHTS as OP_WEIGHTS
from p17 import OBSERVED, difference, dump_file, observe

PROPERTY = 'P19'
RULE = ('non-trivial: the old file holds index records and at least one quantity, weight or mapping (old); '
        'the file was refused (other)')
ASSUMPTIONS = [
    'the older formats are 0.2.0 and 0.3.0, as given by the migration code and the fixture of the existing tests',
    'in format 0.2.0 the registered attributes are those in use',
]

WEIGHTS = {k: v for k, v in OP_WEIGHTS.items() if k not in ('reload', 'ordc', 'orda')}
LATER = dict(WEIGHTS, insq=5, insqi=5, insm2=5, upd=5, insw=4, ins=5, dropg=2, dropl=2, delr=4)


def old_case():
    names = [n for n, k in LATER.items() for _ in range(k)]
    op = st.sampled_from(names).flatmap(lambda n: OPS[n])
    return st.tuples(history(WEIGHTS, 0, 5, prelude=['index', 'group', 'link', 'part', 'quant']),
                     st.sampled_from(['0.2.0', '0.2.0', '0.3.0']),
                     st.sampled_from(['read', 'cache', 'bind', 'bind']),
                     st.lists(st.integers(0, 9), min_size=4, max_size=4), st.lists(op, min_size=1, max_size=5))


def ident(name):
    return '"' + name.replace('"', '""') + '"'


def set_property(con, key, value):
    con.execute('DELETE FROM property WHERE key=?', (key,))
    con.execute('INSERT INTO property VALUES (?, ?)', (key, value))


def downgrade(path, version, quirks):
    """Rewrite a current file in an older format; returns the domain that the upgrade must give."""
    domain = None
    with closing(sqlite3.connect(path, isolation_level=None)) as con:
        now = con.execute("SELECT value FROM property WHERE key='toron_schema_version'").fetchone()
        if now != ('"0.3.1"',):
            raise HarnessError(f'the current format is {now}, the conversion expects 0.3.1')
        con.execute('PRAGMA foreign_keys=OFF')
        con.execute('BEGIN')
        con.execute("DELETE FROM property WHERE key IN ('user_properties', 'created_date')")
        set_property(con, 'toron_schema_version', json.dumps(version))
        if version == '0.3.0':
            con.execute('COMMIT')
            return None
        cols = [r[1] for r in con.execute("PRAGMA table_info('label_index')")][1:]
        for kind, name in con.execute("SELECT type, name FROM sqlite_master WHERE type IN ('index', 'trigger') "
                                      "AND sql IS NOT NULL").fetchall():
            con.execute(f'DROP {kind} {ident(name)}')
        seq = con.execute("SELECT seq FROM sqlite_sequence WHERE name='label_index'").fetchone()
        names = ', '.join(ident(c) for c in cols)
        con.execute('CREATE TABLE node_index(index_id INTEGER PRIMARY KEY AUTOINCREMENT' + ''.join(
            f', {ident(c)} TEXT NOT NULL CHECK ({ident(c)} != \'\') DEFAULT \'-\'' for c in cols) + ')')
        con.execute('CREATE TABLE location(_location_id INTEGER PRIMARY KEY' + ''.join(
            f', {ident(c)} TEXT NOT NULL DEFAULT \'\'' for c in cols) + ')')
        con.execute('CREATE TABLE structure(_structure_id INTEGER PRIMARY KEY, _granularity REAL' + ''.join(
            f', {ident(c)} INTEGER NOT NULL CHECK ({ident(c)} IN (0, 1)) DEFAULT 0' for c in cols) + ')')
        for old, new, first in [('label_index', 'node_index', 'index_id'), ('label_location', 'location', '_location_id'),
                                ('label_structure', 'structure', '_structure_id, _granularity')]:
            con.execute(f'INSERT INTO {new} ({first}, {names}) SELECT {first}, {names} FROM {old}')
            con.execute(f'DROP TABLE {old}')
        con.execute("DELETE FROM sqlite_sequence")
        con.execute("INSERT INTO sqlite_sequence VALUES ('node_index', ?)", seq or (0,))
        con.execute("""CREATE TABLE old_weight(
            weight_id INTEGER PRIMARY KEY, weight_group_id INTEGER, index_id INTEGER CHECK (index_id > 0),
            weight_value REAL NOT NULL,
            FOREIGN KEY(weight_group_id) REFERENCES weight_group(weight_group_id) ON DELETE CASCADE,
            FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED,
            UNIQUE (index_id, weight_group_id))""")
        con.execute('INSERT INTO old_weight SELECT * FROM weight')
        con.execute('DROP TABLE weight')
        con.execute('ALTER TABLE old_weight RENAME TO weight')
        con.execute("""CREATE TABLE old_quantity(
            quantity_id INTEGER PRIMARY KEY, _location_id INTEGER, attribute_group_id INTEGER,
            quantity_value NUMERIC NOT NULL,
            FOREIGN KEY(_location_id) REFERENCES location(_location_id) ON DELETE CASCADE,
            FOREIGN KEY(attribute_group_id) REFERENCES attribute_group(attribute_group_id) ON DELETE CASCADE)""")
        con.execute('INSERT INTO old_quantity SELECT * FROM quantity')
        con.execute('DROP TABLE quantity')
        con.execute('ALTER TABLE old_quantity RENAME TO quantity')
        # The old format allowed several quantities of a location and attribute group.
        rows = con.execute('SELECT * FROM quantity ORDER BY quantity_id').fetchall()
        for k, (qid, loc, group, value) in enumerate(rows):
            if (k + quirks[0]) % 3 == 0 and quirks[1] % 2:
                parts = [1, value - 1] if (quirks[0] + k) % 2 else [0, 0, value]
                con.execute('UPDATE quantity SET quantity_value=? WHERE quantity_id=?', (parts[0], qid))
                con.executemany('INSERT INTO quantity (_location_id, attribute_group_id, quantity_value) VALUES (?, ?, ?)',
                                [(loc, group, p) for p in parts[1:]])
        con.execute("""CREATE TABLE crosswalk(
            crosswalk_id INTEGER PRIMARY KEY, other_unique_id TEXT NOT NULL, other_filename_hint TEXT,
            name TEXT NOT NULL, description TEXT, selectors TEXT_SELECTORS,
            is_default INTEGER CHECK (is_default IS NULL OR is_default=1) DEFAULT NULL,
            user_properties TEXT_USERPROPERTIES, other_index_hash TEXT,
            is_locally_complete INTEGER NOT NULL CHECK (is_locally_complete IN (0, 1)) DEFAULT 0,
            UNIQUE (name, other_unique_id), UNIQUE (is_default, other_unique_id))""")
        con.execute('INSERT INTO crosswalk SELECT * FROM link')
        con.execute('DROP TABLE link')
        con.execute("""CREATE TABLE relation(
            relation_id INTEGER PRIMARY KEY, crosswalk_id INTEGER,
            other_index_id INTEGER NOT NULL CHECK (TYPEOF(other_index_id) = 'integer'), index_id INTEGER,
            mapping_level BLOB_BITFLAGS,
            relation_value REAL NOT NULL CHECK (TYPEOF(relation_value) = 'real' AND 0.0 <= relation_value),
            proportion REAL CHECK (0.0 <= proportion AND proportion <= 1.0),
            FOREIGN KEY(crosswalk_id) REFERENCES crosswalk(crosswalk_id) ON DELETE CASCADE,
            FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED,
            UNIQUE (crosswalk_id, other_index_id, index_id))""")
        con.execute('INSERT INTO relation SELECT * FROM mapping')
        con.execute('DROP TABLE mapping')
        whole = sum(1 << (7 - k % 8) << (8 * ((len(cols) - 1) // 8 - k // 8)) for k in range(len(cols)))
        whole = whole.to_bytes((len(cols) + 7) // 8, 'big')
        for (rid, level) in con.execute('SELECT relation_id, mapping_level FROM relation').fetchall():
            if level == whole and (rid + quirks[2]) % 2:
                con.execute('UPDATE relation SET mapping_level=NULL WHERE relation_id=?', (rid,))
        if quirks[2] % 2:
            for (cid,) in con.execute('SELECT crosswalk_id FROM crosswalk').fetchall():
                con.execute('INSERT INTO relation (crosswalk_id, other_index_id, index_id, mapping_level, relation_value, '
                            'proportion) VALUES (?, 0, 0, NULL, 0.0, 1.0)', (cid,))
        con.execute("UPDATE property SET key='discrete_categories' WHERE key='partition_definitions'")
        con.execute("DELETE FROM property WHERE key='registered_attributes'")
        row = con.execute("SELECT value FROM property WHERE key='domain'").fetchone()
        domain = json.loads(row[0]) if row else ''
        kind = quirks[3] % 4
        if domain and kind < 2:
            set_property(con, 'domain', json.dumps({'domain': domain}))
        elif kind == 2:
            set_property(con, 'domain', json.dumps({'foo': 'bar', "b'z": 'q x'}))
            domain = "b'z_q x_foo_bar"
        elif kind == 3:
            set_property(con, 'domain', '{}')
            domain = ''
        else:
            con.execute("DELETE FROM property WHERE key='domain'")
            domain = ''
        con.execute(f'CREATE UNIQUE INDEX unique_index_label_columns ON node_index({names})')
        con.execute(f'CREATE UNIQUE INDEX unique_location_label_columns ON location({names})')
        con.execute(f'CREATE UNIQUE INDEX unique_structure_label_columns ON structure({names})')
        con.execute("""CREATE TRIGGER trigger_on_update_for_undefined
            BEFORE UPDATE ON node_index FOR EACH ROW WHEN OLD.index_id = 0
            BEGIN SELECT RAISE(FAIL, 'cannot modify undefined record (index_id 0)'); END""")
        con.execute("""CREATE TRIGGER trigger_on_delete_for_undefined
            BEFORE DELETE ON node_index FOR EACH ROW WHEN OLD.index_id = 0
            BEGIN SELECT RAISE(FAIL, 'cannot delete undefined record (index_id 0)'); END""")
        bad = con.execute('PRAGMA foreign_key_check').fetchall()
        if bad:
            raise HarnessError(f'conversion broke references: {bad}')
        con.execute('COMMIT')
    return domain


def layout(path):
    """Tables, columns, references and triggers of a file."""
    with closing(sqlite3.connect(path)) as con:
        out = {}
        for kind, name in con.execute('SELECT type, name FROM sqlite_master').fetchall():
            out[kind, name] = None
            if kind == 'table':
                out[kind, name] = (con.execute(f"PRAGMA table_info({ident(name)})").fetchall(),
                                   sorted(con.execute(f"PRAGMA foreign_key_list({ident(name)})").fetchall()),
                                   sorted(con.execute(f"PRAGMA index_list({ident(name)})").fetchall()))
        return out


def tables(path):
    d = {k: v for k, v in dump_file(path).items() if not k.startswith('sql of ')}
    props = {k: v for k, v in d['property'] if k != 'registered_attributes'}
    d['property'] = {k: (sorted(map(sorted, json.loads(v))) if k == 'partition_definitions' else json.loads(v))
                     for k, v in props.items()}
    d['property'].setdefault('domain', '')
    d.pop('sqlite_sequence', None)
    return d


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def run_old(case, rec):
    (world, ops), version, how, quirks, later = case
    scratch = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        with closing(Engine(dict(world, mode='given'), space=toron.DataSpace(), rec=rec)) as e:
            for op in ops:
                e.step(op)
            path = os.path.join(scratch, 'x.toron')
            e.space.to_file(path, fsync=False)
            uid = e.space.unique_id
            want = tables(path)
            form = layout(path)
            shutil.copy(path, os.path.join(scratch, 'current'))
            m = e.model
            if any(len({k[:2] for k in link['mappings']}) < len(link['mappings']) for link in m.links):
                version = '0.3.0'  # 0.2.0 had one mapping of a pair of records
            domain = downgrade(path, version, quirks)
            registered = list(m.attributes)
            if version == '0.2.0':
                m.attributes = sorted({a for _, attrs in m.quantities for a, _ in attrs})
                m.domain = domain
                want['property']['domain'] = domain
            old = content(path)
            # Read-only use of an old file is refused (it cannot be upgraded).
            try:
                ro = toron.bind_file(path, mode='ro')
            except Exception:
                rec.event('read-only refused')
            else:
                require(ro.unique_id == uid, 'unique_id')
                del ro
            require(content(path) == old, 'binding an old file read-only changed it')
            e.space = None
            if how == 'bind':
                e.space = toron.bind_file(path, mode='rw')
                got = path
            else:
                e.space = toron.read_file(path, **({'cache_to_drive': True} if how == 'cache' else {}))
                require(content(path) == old, 'reading an old file changed it')
                got = os.path.join(scratch, 'upgraded')
                e.space.to_file(got, fsync=False)
            require(sorted(os.listdir(scratch)) == sorted({'x.toron', 'current', os.path.basename(got)}),
                    'files left behind', os.listdir(scratch))
            require(e.space.unique_id == uid, 'unique_id')
            upgraded = tables(got)
            require(upgraded == want, 'stored data differ after the upgrade', difference(upgraded, want), e.history())
            require(layout(got) == form, 'the layout differs from that of a current file', difference(layout(got), form))
            if not m.attributes and registered:
                # Nothing can be read until attributes are registered again.
                e.space.set_registered_attributes(registered)
                m.attributes = registered
            e.check(OBSERVED)
            e.log.append(f'format {version}, {how}')
            # It behaves like a file of the current format.
            for op in later:
                if e.step(op) != 'skip':
                    e.check(['index', 'weights', 'groups', 'links', 'mappings', 'quantities', 'disagg', 'columns'])
            if how == 'bind':
                e.space = None
                e.space = toron.bind_file(path, mode='ro')
                e.check(OBSERVED)
            else:
                require(content(path) == old, 'an old file that was only read has changed')
            if m.ids and (m.quantities or m.links or any(g['weights'] for g in m.groups.values())):
                rec.nontrivial()
            rec.event(f'{version} {how}')
    finally:
        shutil.rmtree(scratch)


# -- files that are none of ours ---------------------------------------------------
def other_case():
    return st.one_of(
        st.tuples(st.just('bytes'), st.binary(max_size=300)),
        st.tuples(st.just('sqlite+bytes'), st.binary(max_size=300)),
        st.tuples(st.just('header'), st.integers(0, 90), st.integers(1, 255)),
        st.tuples(st.just('short'), st.integers(0, 4000)),
        st.tuples(st.just('database'), st.integers(0, 7)),
        st.tuples(st.just('version'), st.one_of(
            st.sampled_from(['"0.1.0"', '"0.3.2"', '"0.4.0"', '"1.0"', '0.31', 'null', '""', '"0.2"', '"0.30"', '"0.3.10"',
                             '"0.3.1 "', None, '[]', '{"a": 1}']),
            st.tuples(st.integers(0, 3), st.integers(0, 30), st.integers(0, 30)).map(lambda t: '"%d.%d.%d"' % t))),
    ).flatmap(lambda x: st.tuples(st.just(x), st.sampled_from(['read', 'cache', 'ro', 'rw', 'rwc'])))


_base = []


def base():
    if not _base:
        scratch = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
        sp = toron.DataSpace()
        sp.add_index_columns('A', 'B')
        sp.add_weight_group('w', make_default=True)
        sp.insert_index([('x', 'y', 1), ('x', 'z', 2)], ['A', 'B', 'w'])
        sp.set_registered_attributes(['attr'])
        sp.add_partition_definition({'A'})
        sp.insert_quantities2(value_column='v', data=[['A', 'B', 'attr', 'v'], ['x', '', 'a', 5]])
        sp.to_file(os.path.join(scratch, 'f'), fsync=False)
        _base.append(content(os.path.join(scratch, 'f')))
        shutil.rmtree(scratch)
    return _base[0]


def run_other(case, rec):
    what, how = case
    scratch = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    path = os.path.join(scratch, 'f.toron')
    try:
        kind = what[0]
        data = base()
        if kind == 'bytes':
            data = what[1]
        elif kind == 'sqlite+bytes':
            data = b'SQLite format 3\0' + what[1]
        elif kind == 'header':
            # One changed byte of the file's identification.
            pos = list(range(16)) + list(range(60, 64)) + list(range(68, 72))
            k = pos[what[1] % len(pos)]
            data = data[:k] + bytes([data[k] ^ what[2]]) + data[k + 1:]
        elif kind == 'short':
            data = data[:what[1]]
        with open(path, 'wb') as f:
            f.write(data)
        if kind == 'database':
            os.unlink(path)
            with closing(sqlite3.connect(path, isolation_level=None)) as con:
                if what[1] & 1:
                    con.execute(f"PRAGMA application_id={int.from_bytes(b'Toro', 'big')}")
                if what[1] & 2:
                    con.execute('CREATE TABLE property(key TEXT, value TEXT)')
                if what[1] & 4:
                    con.execute(f"PRAGMA user_version={int.from_bytes(b'DAL2', 'big')}")
                con.execute('CREATE TABLE t(x)')
        if kind == 'version':
            with closing(sqlite3.connect(path, isolation_level=None)) as con:
                if what[1] in ('"0.2.0"', '"0.3.0"', '"0.3.1"'):
                    return
                if what[1] is None:
                    con.execute("DELETE FROM property WHERE key='toron_schema_version'")
                else:
                    set_property(con, 'toron_schema_version', what[1])
        data = content(path)
        try:
            if how in ('read', 'cache'):
                sp = toron.read_file(path, **({'cache_to_drive': True} if how == 'cache' else {}))
            else:
                sp = toron.bind_file(path, mode=how)
        except Exception as e:
            pass
        else:
            require(False, f'{what} was opened ({how})')
        require(content(path) == data, 'a file that was refused has changed', what, how)
        require(os.listdir(scratch) == ['f.toron'], 'files left behind', os.listdir(scratch))
        rec.event(f'{kind}: refused')
        rec.nontrivial()
    finally:
        shutil.rmtree(scratch)


SUBS = [Sub('old', old_case, run_old, 3000, 24000), Sub('other', other_case, run_other, 5000, 40000)]
