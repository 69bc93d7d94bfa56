"""P28: the editing commands of the command line program."""
import csv
import io
import json
import os
import re
import shutil
import tempfile
from contextlib import redirect_stdout

from hypothesis import strategies as st

import p22
from harness import Sub, require

PROPERTY = 'P28'
RULE = ('non-trivial: at least three commands of the history changed a file, and one was refused or listed at least one '
        'element with info')
ASSUMPTIONS = ['names given as arguments do not start with "-" and contain no line breaks',
               'commands on two files are judged per file: one that is refused may have completed one of its two directions',
               'the two files are different and lie in one folder',
               'the command line runs in-process on streams set up like the real standard streams']

COLS = ['county', 'state', 'B c', "d'q", 'e,f', '日本', 'SELECT', 'G"g', 'h[i]', '%s']
LABS = ['x', 'y', 'z w', '01', "o'k", 'é']
ATTRS = ['category', 'sex', 'a"t', 'at,tr', 'ñ', 'group']
GROUPS = ['population', 'w two', "w'3", 'é4']
LINKS = ['l1', 'l 2', "l'3"]
DOMAINS = ['D', 'my dom', 'é "x"', 'a,b']
SELECTORS = ['[category]', '[category="c1"]', '[sex="m"]', '[category][sex]', '[category="c1"]:not([sex])', '[sex^="m" i]']
BAD = ['[category', 'category=', '[="x"]']

INT = st.integers(0, 11)
OPS = ['label', 'label', 'label', 'group', 'group', 'part', 'part', 'attr', 'attr', 'link', 'link', 'unlink', 'mlabel', 'mattr', 'uweight',
       'uweight', 'rlabel', 'rdomain', 'index', 'index', 'index', 'quantity', 'quantity', 'info', 'info', 'show']
OP = st.tuples(st.sampled_from(OPS), st.integers(0, 1), INT, INT, INT, st.integers(0, 63))
START = [('label', 0, 0, 2, 0, 0), ('label', 1, 2, 1, 0, 0)]
FULL = START + [('group', 0, 0, 0, 1, 3), ('group', 0, 1, 0, 2, 0), ('group', 1, 1, 0, 2, 1), ('attr', 0, 0, 1, 0, 1),
                ('index', 0, 0, 3, 1, 0), ('part', 0, 0, 2, 0, 1), ('part', 0, 1, 1, 0, 1), ('link', 0, 0, 0, 1, 2)]


@st.composite
def case(draw):
    return (draw(st.sampled_from(DOMAINS + [None, None, ''])), draw(st.sampled_from(['one.toron', 'o ne.toron', 'one', '.one', 'é.x'])),
            draw(st.booleans()), draw(st.sampled_from([0, 1, 1, 2, 2, 2])), draw(st.lists(OP, min_size=2, max_size=16)))


def contents(path):
    """Everything a file holds, in a form that does not depend on internal numbers."""
    import toron
    sp = toron.bind_file(path, mode='ro')
    out = {'domain': sp.domain, 'order': list(sp.get_label_columns()), 'columns': list(sp.index_columns)}
    out['attributes'] = sp.get_registered_attributes()
    with sp._managed_cursor() as cur:
        def q(sql, *a):
            return cur.execute(sql, a).fetchall()
        out['structure'] = sorted(((r.granularity, *r.bits) for r in sp._dal.StructureRepository(cur).get_all()),
                                  key=lambda r: r[1:])
        default = dict(q('SELECT key, value FROM property')).get('default_weight_group_id')
        default = json.loads(default) if isinstance(default, str) else default
    out['index'] = sorted(map(tuple, list(sp.select_index())[1:]))
    out['partitions'] = sorted(map(sorted, sp.partition_definitions))
    out['groups'] = {}
    for g in sp.weight_groups:
        with sp._managed_cursor() as cur:
            w = sorted(cur.execute('SELECT index_id, weight_value FROM weight WHERE weight_group_id=?', (g.id,)).fetchall())
        out['groups'][g.name] = (g.description, sorted(map(str, g.selectors or [])), bool(g.is_complete), default == g.id, w)
    out['links'] = {}
    for x in sp.links:
        out['links'][x.other_unique_id, x.name] = (
            os.path.basename(x.other_filename_hint or ''), x.description, sorted(map(str, x.selectors or [])), bool(x.is_default),
            bool(x.is_locally_complete))
    if out['attributes'] and out['columns']:
        out['quantities'] = sorted(map(repr, list(sp.select_quantities2())[1:]))
    return out


def csv_text(rows):
    s = io.StringIO()
    csv.writer(s).writerows(rows)
    return s.getvalue().encode('utf-8')


def moved(seq, name, offset):
    seq = list(seq)
    k = seq.index(name)
    seq.insert(max(0, k + offset), seq.pop(k))
    return seq


class World:
    def __init__(self, d, names, relative):
        self.dir, self.names, self.relative = d, names, relative
        self.real = [os.path.join(d, 'real', n) for n in names]
        self.twin = [os.path.join(d, 'twin', n) for n in names]
        self.backup = [os.path.join(d, 'real', 'backup-' + n) for n in names]
        for n in ('real', 'twin'):
            os.mkdir(os.path.join(d, n))

    def arg(self, k):
        return self.names[k] if self.relative else self.real[k]


def run_cli(w, argv, stdin=None):
    """Return (refused, text written to the screen)."""
    old, screen = os.getcwd(), io.StringIO()
    os.chdir(os.path.join(w.dir, 'real'))
    try:
        with redirect_stdout(screen):
            code, out, err = p22.cli(*argv, stdin=stdin)
        return code != 0, screen.getvalue() + out.decode('utf-8')
    except Exception as e:
        return True, repr(e)
    finally:
        os.chdir(old)


def pick(seq, k):
    seq = list(seq)
    return seq[k % len(seq)] if seq else None


def split_args(names, mode):
    """Names as separate arguments, as one CSV argument, or padded."""
    def quote(n):
        s = io.StringIO()
        csv.writer(s, lineterminator='').writerow([n])
        return s.getvalue()
    quoted = [quote(n) for n in names]
    if mode % 3 == 0:
        return quoted
    if mode % 3 == 1:
        return [','.join(quoted)]
    return [' ' + n + ' ' if '"' not in n else n for n in quoted]


def plan(op, w, state):
    """Return (argv, stdin, [(k, action), ...] or None for a refusal, kind)."""
    kind, k, a, b, c, flags = op
    st_ = state[k]
    path = w.arg(k)
    def names_of(pool, n):
        return list(dict.fromkeys(pool[(a + j * (1 + c % 3)) % len(pool)] for j in range(1 + n % 3)))
    if kind == 'label':
        new = names_of(COLS, b)
        return ['add', 'label', *split_args(new, flags)], None, [(k, lambda sp: sp.add_index_columns(*new))]
    if kind == 'part':
        pool = st_['columns'] or COLS
        new = names_of(pool if flags % 8 else COLS, b)[:len(pool)]
        return ['add', 'partition', *split_args(new, flags)], None, [(k, lambda sp: sp.add_partition_definition(set(new)))]
    if kind == 'attr':
        pool = ATTRS + (st_['columns'][:1] if flags % 8 == 0 else [])
        new = names_of(pool, b)
        def act(sp):
            have = sp.get_registered_attributes()
            sp.set_registered_attributes(have + [n for n in new if n not in have])
        return ['add', 'attribute', *split_args(new, flags)], None, [(k, act)]
    if kind == 'group':
        name = GROUPS[a % len(GROUPS)]
        sels = [pick(BAD if flags % 16 == 0 else SELECTORS, b + j) for j in range(c % 3)]
        argv = ['add', 'weight', name]
        desc = 'text %d' % b if flags & 1 else None
        if desc:
            argv += ['--description', desc]
        if flags & 2:
            argv += ['--default']
        if sels:
            argv += ['--selectors', *sels]
        return argv, None, [(k, lambda sp: sp.add_weight_group(name, description=desc, selectors=sels or None,
                                                               make_default=True if flags & 2 else None))]
    if kind == 'uweight':
        name = pick(st_['groups'], a) if st_['groups'] and flags % 16 else GROUPS[a % len(GROUPS)]
        argv = ['update', 'weight', name]
        changes = {}
        if flags & 1:
            changes['description'] = 'new %d' % b
            argv += ['--description', changes['description']]
        have = st_['groups'].get(name, (None, []))[1]
        add, rem = [], []
        if flags & 2:
            add = [pick(BAD if b % 4 == 3 else SELECTORS, c + j) for j in range(1 + b % 2)]
            argv += ['--add-selector', *add]
        if flags & 4:
            rem = [pick(have or SELECTORS, b)]
            argv += ['--remove-selector', *rem]
        if add or rem:
            changes['selectors'] = sorted(set(have + add) - set(rem))
        if flags & 8:
            argv += ['--default']
        if name not in st_['groups']:
            return argv, None, None
        def act(sp):
            if changes:
                sp.edit_weight_group(name, **changes)
            if flags & 8:
                sp.set_default_weight_group(sp.get_weight_group(name))
        return argv, None, [(k, act)]
    if kind in ('link', 'unlink'):
        other = 1 - k
        names = sorted(n for h in (0, 1) for _, n in state[h]['links'])
        name = pick(names, a) if kind == 'unlink' and names and flags % 8 else LINKS[a % len(LINKS)]
        way = ['both', 'right', 'left'][b % 3]
        argv = ['add' if kind == 'link' else 'remove', 'link', w.arg(other), name] + ([] if way == 'both' else ['--' + way])
        heads = {'both': [other, k], 'right': [other], 'left': [k]}[way]
        ids = [s['id'] for s in state]
        if kind == 'unlink':
            found = [h for h in heads if (ids[1 - h], name) in state[h]['links']]
            if not found:
                return argv, None, None
            return argv, None, [(h, lambda sp, h=h: sp.drop_link(ids[1 - h], name)) for h in found]
        sels = [pick(BAD if flags % 16 == 0 else SELECTORS, b + j) for j in range(c % 3)]
        desc = 'text %d' % b if flags & 1 else None
        if desc:
            argv += ['--description', desc]
        if flags & 2:
            argv += ['--default']
        if sels:
            argv += ['--selectors', *sels]
        def add_link(sp, h):
            import toron
            tail = toron.bind_file(w.twin[1 - h], mode='ro')
            sp.add_link(tail, name, other_filename_hint=w.names[1 - h], description=desc, selectors=sels or None,
                        is_default=True if flags & 2 else None)
        return argv, None, [(h, lambda sp, h=h: add_link(sp, h)) for h in heads]
    if kind in ('mlabel', 'mattr'):
        what, key, api = (('label', 'order', 'change_label_order') if kind == 'mlabel'
                          else ('attribute', 'attributes', 'change_attribute_order'))
        name = pick(st_[key], a) if st_[key] and flags % 16 else 'nothing'
        n = b % 5
        argv = ['update', what, name, '--move-left' if flags & 1 else '--move-right'] + ([] if n == 1 and c % 2 else [str(n)])
        if name not in st_[key] or not n:
            return argv, None, None
        if kind == 'mattr':
            return argv, None, [(k, lambda sp: sp.set_registered_attributes(moved(st_[key], name, -n if flags & 1 else n)))]
        return argv, None, [(k, lambda sp: sp.change_label_order(name, -n if flags & 1 else n))]
    if kind == 'rlabel':
        old = pick(st_['columns'], a) if st_['columns'] and flags % 16 else 'nothing'
        new = COLS[b % len(COLS)]
        return ['rename', 'label', old, new], None, [(k, lambda sp: sp.rename_label_column(old, new))]
    if kind == 'rdomain':
        return ['rename', 'domain', DOMAINS[a % len(DOMAINS)]], None, [(k, lambda sp: sp.set_domain(DOMAINS[a % len(DOMAINS)]))]
    if kind == 'index':
        cols = st_['columns'] or ['county']
        groups = list(st_['groups'])[:c % 3]
        rows = [[LABS[(a + j * (i + 1)) % len(LABS)] for i in range(len(cols))] + [str((b + j) % 4)] * len(groups)
                for j in range(1 + b % 4)]
        rules = ['abort', 'ignore', 'replace']
        r1, r2 = rules[flags % 3], rules[flags // 3 % 3]
        argv = ['index', '--on-label-conflict', r1, '--on-weight-conflict', r2]
        table = [cols + groups] + rows
        return argv, csv_text(table), [(k, lambda sp: sp.insert_index([list(r) for r in table], on_label_conflict=r1,
                                                                      on_weight_conflict=r2))]
    if kind == 'quantity':
        cols, attrs = st_['columns'] or ['county'], st_['attributes'] or ['category']
        rec = [r[1:] for r in st_['index'][1:]] or [('x',) * len(cols)]
        attrs = attrs[:1 + c % 2]
        rows = []
        for j in range(1 + b % 3):
            r = list(pick(rec, a + j))
            if (flags >> j) & 1 and (flags >= 16 or c % 3 == 0):
                r[(a + j) % len(r)] = ['', 'unknown'][b % 2]
            rows.append(r + ['c%d' % ((a + j) % 3)] * len(attrs) + [str(b + j)])
        rule = ['abort', 'ignore', 'replace', 'sum'][flags // 8 % 4]
        inv, part = bool(flags & 16), bool(flags & 32)
        argv = (['quantity', '--on-existing', rule, '--column', 'amount'] + (['--allow-invalid-label'] if inv else [])
                + (['--allow-invalid-partition'] if part else []))
        table = [cols + attrs + ['amount']] + rows
        return argv, csv_text(table), [(k, lambda sp: sp.insert_quantities2(
            value_column='amount', data=[list(r) for r in table], allow_invalid_label=inv, allow_invalid_partition=part,
            on_existing=rule))]
    raise AssertionError(kind)


def sections(text):
    out, name = {}, None
    for line in re.sub('\x1b\\[[0-9;]*m', '', text).splitlines():
        if line.startswith('  '):
            out.setdefault(name, []).append(line[2:])
        else:
            name = line.rstrip(':')
    return out


def peel(text, items):
    """Are *items*, in some order and separated by ', ', the text?  (The items may contain commas.)"""
    if not items:
        return text == 'None'
    def go(text, items):
        if not items:
            return text == ''
        for x in set(items):
            if text.startswith(x):
                rest = items[:]
                rest.remove(x)
                tail = text[len(x):]
                if (not rest and tail == '') or (rest and tail.startswith(', ') and go(tail[2:], rest)):
                    return True
        return False
    return go(text, list(items))


def check_info(text, st_, loaded, rec):
    s = sections(text)
    require(s['domain'] == [st_['domain'] or 'None'], 'info: domain', s, st_['domain'])
    flag = {(False, True): '', (False, False): ' (incomplete)', (True, True): ' (default)', (True, False): ' (default, incomplete)'}
    groups = [n + flag[bool(g[3]), g[2]] for n, g in st_['groups'].items()]
    require(peel('\n'.join(s['weights']), groups), 'info: weights', s['weights'], groups)
    require(peel('\n'.join(s['attributes']), st_['attributes']), 'info: attributes', s['attributes'], st_['attributes'])
    lflag = {(False, True): '', (False, False): ' (locally incomplete)', (True, True): ' (default)',
             (True, False): ' (default, locally incomplete)'}
    links = [n + lflag[x[3], x[4]] for (_, n), x in st_['links'].items()]
    got = s['incoming links']
    if links:
        ref = next(iter(st_['links'].values()))[0]
        require(len(got) == 1 and os.path.basename(got[0].split(': ')[0]) == ref and peel(got[0].split(': ', 1)[1], links),
                'info: links', got, links)
    else:
        require(got == ['None'], 'info: links', got)
    parts = [p for p in st_['partitions']]
    if parts:
        # (combinations of partitions may be listed as well)
        got = s['partitions']
        left = [[c for c, bit in zip(st_['columns'], r[1:]) if bit] for r in st_['structure']]
        for line in got:
            value, cols = line.strip().split('  ', 1) if '  ' in line.strip() else (line.strip(), '')
            hit = [p for p in left if peel(cols, p)]
            require(hit, 'info: partition', line, parts, left)
            left.remove(hit[0])
            stored = [r[0] for r in st_['structure'] if {c for c, bit in zip(st_['columns'], r[1:]) if bit} == set(hit[0])]
            if stored and stored[0] is not None and value != 'None':
                digits = len(value.partition('.')[2])
                require(abs(float(value) - stored[0]) <= 0.6 * 10.0 ** -digits, 'info: granularity', line, stored)
        missing = [p for p in parts if set(p) in map(set, left)]
        require(not missing, 'info: partitions are missing', missing, got)
    else:
        require(s['partitions'] == ['None'], 'info: partitions', s['partitions'])
    if st_['groups'] or links or st_['attributes'] or parts:
        rec.event('info lists something')
        return 1
    return 0


def run(case, rec):
    import toron
    domain, name1, relative, start, ops = case
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        w = World(d, [name1, 'two.toron'], relative)
        for k in (0, 1):
            dom = domain if k == 0 else 'T'
            argv = [w.arg(k), 'init'] + ([] if dom is None else ['--domain', dom])
            refused, text = run_cli(w, argv)
            require(not refused and os.path.exists(w.real[k]), 'init is refused', argv, text)
            got = contents(w.real[k])
            require(got['domain'] == (dom or os.path.splitext(w.names[k])[0]), 'domain of the new file', got, argv)
            require(got['columns'] == [] and not got['groups'] and not got['links'] and not got['partitions'], 'new file', got)
            raw = open(w.real[k], 'rb').read()
            refused, _ = run_cli(w, argv)
            require(refused and open(w.real[k], 'rb').read() == raw, 'init over an existing file')
            shutil.copy(w.real[k], w.twin[k])
        ids = [toron.bind_file(p, mode='ro').unique_id for p in w.twin]
        require(ids[0] != ids[1], 'new files have the same id')
        changed = refusals = listed = 0
        for op in [[], START, FULL][start] + ops:
            before = [contents(p) for p in w.real]
            state = [dict(b, id=i) for b, i in zip(before, ids)]
            kind, k = op[:2]
            need = {'quantity': 'attributes', 'mattr': 'attributes', 'uweight': 'groups', 'rlabel': 'columns', 'mlabel': 'columns'}.get(kind)
            if need and not before[k][need] and op[5] % 8:
                op = (kind, k := 1 - k) + op[2:]
            old_backup = [open(p, 'rb').read() if os.path.exists(p) else None for p in w.backup]
            if kind in ('info', 'show'):
                raw = [open(p, 'rb').read() for p in w.real]
                argv = [w.arg(k)] + (['info'] if op[2] % 2 else []) if kind == 'info' else [w.arg(k), pick(['index', 'quantity'], op[2])]
                if kind == 'show' and argv[1] == 'quantity' and not (before[k]['columns'] and before[k]['attributes']):
                    continue
                refused, text = run_cli(w, argv)
                require(not refused, 'refused', argv, text)
                require(raw == [open(p, 'rb').read() for p in w.real], 'a command that shows something changes a file', argv)
                require(old_backup == [open(p, 'rb').read() if os.path.exists(p) else None for p in w.backup],
                        'a command that shows something makes a backup', argv)
                if kind == 'info':
                    listed += check_info(text, before[k], None, rec)
                continue
            argv, stdin, actions = plan(op, w, state)
            keep = op[5] & 1 or op[4] % 4 == 0
            argv = [w.arg(k)] + argv
            if not keep:
                at = 2 if argv[1] in ('index', 'quantity') else 3
                argv.insert(at, '--no-backup')
            # The twin: the library calls.
            expected, error = [dict(b) for b in before], actions is None
            for h, action in actions or []:
                copy = w.twin[h] + '.save'
                shutil.copy(w.twin[h], copy)
                try:
                    action(toron.bind_file(w.twin[h], mode='rw'))
                except Exception as e:
                    os.replace(copy, w.twin[h])
                    error = repr(e)
                else:
                    os.remove(copy)
                expected[h] = contents(w.twin[h])
            refused, text = run_cli(w, argv, stdin)
            require(refused == bool(error), 'the command is ' + ('refused' if refused else 'accepted') + ', the library call is not',
                    argv, text, error, stdin)
            after = [contents(p) for p in w.real]
            for h in (0, 1):
                if error and len(actions or []) == 2 and after[h] != expected[h]:
                    require(after[h] == before[h], 'a refused command leaves something else behind', argv, before[h], after[h])
                    shutil.copy(w.real[h], w.twin[h])
                    continue
                require(after[h] == expected[h], f'effect of the command on file {h + 1}', argv, stdin, expected[h], after[h])
            # Backups.
            touched = [0, 1] if kind in ('link', 'unlink') else [k]
            for h in (0, 1):
                now = open(w.backup[h], 'rb').read() if os.path.exists(w.backup[h]) else None
                if h in touched and keep:
                    if after[h] != before[h]:
                        require(now is not None, 'no backup was made', argv)
                        require(contents(w.backup[h]) == before[h], 'the backup differs from the previous contents', argv)
                else:
                    require(now == old_backup[h], 'a backup was made or changed', argv)
            require(set(os.listdir(os.path.join(d, 'real'))) <= set(w.names) | {os.path.basename(p) for p in w.backup}, 'stray files',
                    os.listdir(os.path.join(d, 'real')))
            changed += after != before
            refusals += refused
            rec.event(kind + (' refused' if refused else ''))
        if changed >= 3 and (refusals or listed):
            rec.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


SUBS = [Sub('commands', case, run, quick=900, thorough=9000)]
