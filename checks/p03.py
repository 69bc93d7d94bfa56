"""P03: translation over links, against exact matrix products of the mapping values."""
import os
import tempfile
from contextlib import closing

from hypothesis import strategies as st

import engine
import p05
from harness import Sub, require
from model import Model, Refused, level_bytes

PROPERTY = 'P03'
RULE = ('non-trivial: a value was translated over a link that splits it between several records, or the '
        'translation was refused because the link was made for another state of the source')
ASSUMPTIONS = ['values agree up to a relative error of 1e-9', 'results of zero are not distinguished from no result']

ATTRS = ['k', 'm']
VALUES = [1, 0, 2, 3, 0.5, 10, 7.25, 0.1, 0, 1000000]
QUANT = [1, 3, 10, 0.5, -2, 0, 7.75, 1e6, 0.1, 5]
SELECTORS = [None, None, ['[k]'], ['[k="a"]'], ['[m]', '[k="b"]'], [':not([m])'], ['[dom]', '[domain="D"]']]


@st.composite
def case_strategy(draw):
    n = draw(st.sampled_from([2, 2, 3, 3, 4]))
    spaces = [(draw(st.integers(1, 5)), draw(st.booleans()), draw(st.integers(0, 5)) == 0) for _ in range(n)]
    k, v = st.integers(0, 5), st.integers(0, 9)
    pairs = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).filter(lambda p: p[0] != p[1]), max_size=2))
    pairs = [(i, i + 1) for i in range(n - 1)] + pairs
    links = []
    for p in pairs:
        links.append((p, draw(st.integers(0, 6)), draw(st.sampled_from([None, None, None, True, False])),
                      draw(st.sampled_from(['fill', 'fill', 'fill', 'fill', 'rows'])),
                      draw(st.lists(st.tuples(k, k, v), min_size=2, max_size=9)), draw(st.integers(1, 2))))
        if draw(st.integers(0, 3)) == 0:
            links.append((p, draw(st.integers(0, 6)), draw(st.sampled_from([None, True])), 'fill',
                          draw(st.lists(st.tuples(k, k, v), min_size=2, max_size=9)), 1))
    edit = st.one_of(
        st.tuples(st.just('ins'), st.integers(0, n - 1), k),
        st.tuples(st.just('del'), st.integers(0, n - 1), k),
        st.tuples(st.just('merge'), st.integers(0, n - 1), k, k),
        st.tuples(st.just('label'), st.integers(0, n - 1), k),
        st.tuples(st.just('updm'), k, k, k, v), st.tuples(st.just('updm'), k, k, k, v),
        st.tuples(st.just('delm'), k, k),
        st.tuples(st.just('addm'), k, k, k, v),
        st.tuples(st.just('refill'), k, k, v),
    )
    edits = draw(st.lists(edit, max_size=draw(st.sampled_from([0, 0, 2, 4]))))
    late = draw(st.lists(edit, max_size=draw(st.sampled_from([0, 0, 0, 2]))))
    quantities = draw(st.lists(st.tuples(k, st.integers(0, 5), v), min_size=1, max_size=6))
    path = draw(st.sampled_from([list(range(n))] * 4 + [[p[1] for p in pairs[-1:]]]))
    if path[0] != 0:
        path = [0] + path
    return (spaces, links, edits, late, quantities, path, draw(st.booleans()), draw(st.booleans()),
            draw(st.sampled_from(['', '', 'D'])), draw(st.integers(0, 3)), draw(st.sampled_from([None, None, 0, 1])))


ATTR_SETS = [{'k': 'a'}, {'k': 'b'}, {'m': 'a'}, {'k': 'a', 'm': 'b'}, {'k': 'b b', 'm': 'é'}]
ATTR_SETS += [{'k': 'A'}]


class Node:
    def __init__(self, n, two, bound, number):
        import toron
        self.path = None
        if bound:
            fd, self.path = tempfile.mkstemp(suffix='.toron', dir=os.environ.get('VERIF_SCRATCH'))
            os.close(fd)
            os.unlink(self.path)
            self.space = toron.bind_file(self.path, mode='rwc')
        else:
            self.space = toron.DataSpace()
        self.model = m = Model()
        m.columns = [f'N{number}'] + (['B'] if two else [])
        m.index = {0: ('-',) * len(m.columns)}
        self.space.add_index_columns(*m.columns)
        self.space.add_weight_group('w', make_default=True)
        m.partitions = {frozenset(m.columns)}
        self.count = 0
        for _ in range(n):
            self.insert()

    def insert(self):
        self.count += 1
        labels = (f'x{self.count}',) + (('y',) if len(self.model.columns) == 2 else ())
        self.space.insert_index([labels + (1,)], self.model.columns + ['w'])
        i = next(self.space.select_index(header=False, **dict(zip(self.model.columns, labels))))[0]
        require(i not in self.model.used_ids, 'id given twice', i)
        self.model.used_ids.add(i)
        self.model.index[i] = labels
        for link in self.model.links:
            link['is_locally_complete'] = False

    def rid(self, k, zero=True):
        ids = self.model.ids
        if zero:
            ids = [0] + ids
        return ids[k % len(ids)] if ids else None

    def close(self):
        if self.path and os.path.exists(self.path):
            os.unlink(self.path)


class World:
    def __init__(self, spaces):
        self.nodes = [Node(n, two, bound, i) for i, (n, two, bound) in enumerate(spaces)]
        self.links = []        # (source, target, name)
        self.log = []

    def link(self, k):
        return self.links[k % len(self.links)]

    def insert_mappings(self, src, dst, name, rows):
        s, d = self.nodes[src], self.nodes[dst]
        rows = [r for r in rows if r[:2] != (0, 0)]
        if not rows:
            return
        level = level_bytes([1] * len(d.model.columns))
        rows = [(o, i, level, v) for o, i, v in rows]
        d.space.insert_mappings2(s.space, name, [['other_index_id', 'index_id', 'mapping_level', name]] + rows)
        d.model.insert_mappings2(s.space.unique_id, name, rows)
        self.log.append(('map', src, dst, name, rows))

    def fill(self, src, dst, name, seeds, per=1):
        """Map every source record that is not mapped yet, and some of them several times."""
        s, d = self.nodes[src], self.nodes[dst]
        have = {k[:2] for k in d.model.link(s.space.unique_id, name)['mappings']}
        done = {k[0] for k in have}
        rows = {}
        for j, o in enumerate(s.model.ids):
            if o in done:
                continue
            for t in range(per):
                a, b, v = seeds[(j + t) % len(seeds)]
                rows[o, d.rid(b + t)] = VALUES[v]
        for a, b, v in seeds:
            key = (s.rid(a), d.rid(b))
            if key not in have:
                rows[key] = VALUES[v]
        self.insert_mappings(src, dst, name, [k + (v,) for k, v in sorted(rows.items())])

    def edit(self, op):
        what = op[0]
        self.log.append(op)
        if what in ('ins', 'del', 'merge', 'label'):
            node = self.nodes[op[1]]
            m = node.model
            if what == 'ins':
                node.insert()
                return
            i = node.rid(op[2], zero=False)
            if i is None:
                return
            if what == 'del':
                node.space.delete_index([(i,) + m.index[i]], ['index_id'] + m.columns)
                m.delete_index_rows([(i, m.index[i])])
            elif what == 'merge':
                j = node.rid(op[3], zero=False)
                if i != j:
                    labels = m.index[j]
                    node.space.update_index([(i,) + labels], ['index_id'] + m.columns, merge_on_conflict=True)
                    m.update_index([(i, labels)], True)
            else:
                node.count += 1
                labels = (f'x{node.count}',) + m.index[i][1:]
                node.space.update_index([(i,) + labels], ['index_id'] + m.columns)
                m.update_index([(i, labels)], False)
            return
        src, dst, name = self.link(op[1])
        s, d = self.nodes[src], self.nodes[dst]
        m, uid = d.model, s.space.unique_id
        if what == 'refill':
            self.fill(src, dst, name, [(op[2], op[2], op[3])])
            return
        link = m.link(uid, name)
        keys = sorted(link['mappings'])
        if what == 'addm':
            key = (s.rid(op[2]), d.rid(op[3]))
            if key not in {k[:2] for k in keys}:
                self.insert_mappings(src, dst, name, [key + (VALUES[op[4]],)])
            return
        if not keys:
            return
        o, i, level = keys[op[2] % len(keys)]
        cols = ['other_index_id', name, 'index_id'] + m.columns
        if what == 'updm':
            row = (o, VALUES[op[4]], i) + m.index[i] + (level,)
            d.space.update_mappings(s.space, name, [cols + ['mapping_level'], row])
            m.update_mappings(uid, name, [(o, VALUES[op[4]], i, m.index[i], level)])
        else:
            value = link['mappings'][o, i, level]['value']
            d.space.delete_mappings(s.space, name, [cols, (o, value, i) + m.index[i]])
            m.delete_mappings_rows(uid, name, [(o, value, i, m.index[i])])

    def translated(self, data, src, dst):
        """Expected results at dst: {(record, attributes): value}."""
        s, m = self.nodes[src], self.nodes[dst].model
        links = m.links_from(s.space.unique_id)
        links = [x for x in links if x['other_index_hash'] == s.model.fingerprint()]
        default = [x for x in links if x['is_default']]
        if not default:
            raise Refused('no current link' if not links else 'no current default link')
        cands = [x for x in links if x['selectors'] and x['is_locally_complete']]
        out, split = {}, False
        for (i, attrs), v in data.items():
            if i == 0:
                out[0, attrs] = out.get((0, attrs), 0.0) + v
                continue
            best = {}
            for x in cands:
                hits = [p05.specificity(a) for a in map(p05.recognize, x['selectors']) if p05.matches(a, dict(attrs))]
                if hits:
                    best.setdefault(max(hits), []).append(x)
            link = default[0]
            for spec in sorted(best, reverse=True):
                if len(best[spec]) == 1:
                    link = best[spec][0]
                    break
            rows = {k[1]: x['value'] for k, x in link['mappings'].items() if k[0] == i}
            total = sum(rows.values())
            split |= len(rows) > 1 and v != 0
            for j, x in rows.items():
                out[j, attrs] = out.get((j, attrs), 0.0) + (v * x / total if total else v / len(rows))
        return out, split


def results(reader, model):
    cols = list(reader.columns)
    require(cols[:len(model.columns)] == model.columns and cols[-1] == 'value', 'columns of the result', cols, model.columns)
    back = {v: i for i, v in model.index.items()}
    out = {}
    n = len(model.columns)
    for r in reader:
        labels = tuple(r[:n])
        require(labels in back, 'result at labels that are no record', labels, model.index)
        key = (back[labels], frozenset((c, v) for c, v in zip(cols[n:-1], r[n:-1]) if v is not None))
        require(key not in out, 'result appears twice', key)
        out[key] = r[-1]
    return out


def compare(got, want, *details):
    scale = {}
    for (i, a), v in want.items():
        scale[a] = max(scale.get(a, 0.0), abs(v))
    for key in set(got) | set(want):
        x, y = got.get(key, 0.0), want.get(key, 0.0)
        require(abs(x - y) <= 1e-9 * max(scale.get(key[1], 0.0), abs(y)), f'{key}: {x}, expected {y}', got, want, *details)


class Decoy(engine.DataSpace):
    unique_id = property(lambda self: self.fixed_id)


def add_decoy(s, d, name):
    """A link from another space whose id is alike, which never takes part."""
    space = Decoy()
    space.fixed_id = s.space.unique_id[:13] + '-0000-4000-8000-000000000000'[-23:]
    require(space.fixed_id != s.space.unique_id, 'ids')
    space.add_index_columns(*s.model.columns)
    space.add_weight_group('w', make_default=True)
    space.insert_index([s.model.index[i] + (1,) for i in s.model.ids], s.model.columns + ['w'])
    d.space.add_link(space, name, is_default=True, selectors=['[k]'])
    d.model.add_link(space.fixed_id, name, True, selectors=['[k]'])
    level = level_bytes([1] * len(d.model.columns))
    rows = [(o, d.model.ids[-1], level, 1) for o in s.model.ids]
    d.space.insert_mappings2(space, name, [['other_index_id', 'index_id', 'mapping_level', name]] + rows)
    d.model.insert_mappings2(space.fixed_id, name, rows)


def run(case, rec):
    spaces, links, edits, late, quantities, path, cache, shift, domain, peek, decoy = case
    w = World(spaces)
    try:
        for t, ((src, dst), sel, default, how, seeds, per) in enumerate(links):
            s, d = w.nodes[src], w.nodes[dst]
            name = f'l{t}'
            if t == decoy:
                add_decoy(s, d, name)
            d.space.add_link(s.space, name, is_default=default, selectors=SELECTORS[sel])
            d.model.add_link(s.space.unique_id, name, default, selectors=SELECTORS[sel])
            w.links.append((src, dst, name))
            if how == 'fill':
                w.fill(src, dst, name, seeds, per)
            else:
                w.insert_mappings(src, dst, name, [k + (v,) for k, v in sorted(
                    {(s.rid(a), d.rid(b)): VALUES[v] for a, b, v in seeds}.items())])
        for op in edits:
            w.edit(op)
        first = w.nodes[0]
        m = first.model
        if domain:
            first.space.set_domain(domain)
        first.space.set_registered_attributes(ATTRS)
        data = {}
        for k, a, v in quantities:
            data[first.rid(k), a] = QUANT[v]
        rows = [dict(dict.fromkeys(ATTRS, ''), **ATTR_SETS[a], **dict(zip(m.columns, m.index[i])), v=v)
                for (i, a), v in data.items()]
        first.space.insert_quantities2(value_column='v', data=rows)
        dom = {'domain': domain} if domain else {}
        want = {(i, frozenset(dict(ATTR_SETS[a], **dom).items())): float(v) for (i, a), v in data.items()}
        reader = first.space(cache_to_drive=cache)
        compare(results(first.space(cache_to_drive=cache), m), want, 'before', case)
        other = first.space()
        for op in late:
            if op[:2] not in (('del', 0), ('merge', 0)):
                w.edit(op)
        hops = 0
        for src, dst in zip(path, path[1:]):
            if peek == hops + 1 and want:
                compare(results(other, w.nodes[src].model), want, 'between', case, w.log)
            try:
                want, split = w.translated(want, src, dst)
                fails = None
            except Refused as e:
                fails = str(e)
            target = w.nodes[dst].space
            try:
                if shift:
                    reader = reader >> target
                else:
                    require(reader.translate(target) is None, 'translate returns something')
            except Exception as e:
                require(fails, f'translation failed: {e!r}', case, w.log)
                rec.event(fails)
                if edits or late:
                    rec.nontrivial()
                break
            if peek > hops + 1:
                other.translate(target)
            require(not fails, f'translation succeeded although there is {fails}', case, w.log)
            if split:
                rec.nontrivial()
            hops += 1
        else:
            compare(results(reader, w.nodes[path[-1]].model), want, 'after', case, w.log)
            rec.event(f'{hops} hops')
        reader.close()
        other.close()
    finally:
        for node in w.nodes:
            node.close()


# -- weights of a group as quantities --------------------------------------------

GROUP = 'k'                     # the values have the attribute weight="k"
WSELECTORS = [None, None, ['[weight]'], ['[weight="k"]'], ['[weight="x"]', '[k]'], [':not([m])'], ['[weight^="k"]:not([m])']]


@st.composite
def weights_case(draw):
    case = draw(case_strategy())
    return case + (draw(st.lists(st.integers(0, 9), min_size=6, max_size=6)), draw(st.integers(0, 3)))


def weights_run(case, rec):
    """Weights that are read as an iterator and translated with >>."""
    spaces, links, edits, late, _, path, _, _, domain, _, decoy, values, criteria = case
    w = World(spaces)
    try:
        for t, ((src, dst), sel, default, how, seeds, per) in enumerate(links):
            s, d = w.nodes[src], w.nodes[dst]
            if t == decoy:
                add_decoy(s, d, f'l{t}')
            d.space.add_link(s.space, f'l{t}', is_default=default, selectors=WSELECTORS[sel])
            d.model.add_link(s.space.unique_id, f'l{t}', default, selectors=WSELECTORS[sel])
            w.links.append((src, dst, f'l{t}'))
            w.fill(src, dst, f'l{t}', seeds, per)
            have = d.model.link(s.space.unique_id, f'l{t}')['mappings']
            if values[t % 6] != 9:      # let every target record occur
                missing = [j for j in d.model.ids if j not in {k[1] for k in have}]
                w.insert_mappings(src, dst, f'l{t}', [(s.rid(j + t), j, VALUES[values[t % 6]]) for j in missing])
        for op in edits:
            w.edit(op)
        first = w.nodes[0]
        m = first.model
        if domain:
            first.space.set_domain(domain)
        first.space.add_weight_group(GROUP)
        weights = {i: float(VALUES[v]) for i, v in zip(m.ids, values)}
        if weights:
            first.space.insert_weights(GROUP, [m.index[i] + (v,) for i, v in weights.items()], m.columns + [GROUP])
        which, rows = {}, None
        if criteria == 0 and m.ids:
            which = {m.columns[0]: m.index[m.ids[values[0] % len(m.ids)]][0]}
            weights = {i: v for i, v in weights.items() if m.index[i][0] == which[m.columns[0]]}
        attrs = frozenset({'weight': GROUP}.items())
        want = {(i, attrs): v for i, v in weights.items()}
        data = first.space.select_weights(GROUP, **which)
        for src, dst in zip(path, path[1:]):
            target = w.nodes[dst]
            fails = None
            try:
                defaults = [x for x in target.model.links_from(w.nodes[src].space.unique_id) if x['is_default']]
                if not defaults or not defaults[0]['is_locally_complete']:
                    raise Refused('default link missing or incomplete')
                want, split = w.translated(want, src, dst)
            except Refused as e:
                fails = str(e)
            try:
                data = data >> target.space
                if fails:
                    rows = list(data)
            except Exception as e:
                require(fails, f'translation failed: {e!r}', case, w.log)
                rec.event(fails)
                return
            # An empty set of values is translated without looking at the links.
            require(not fails or not rows, f'translation succeeded although there is {fails}', rows, case, w.log)
            if fails:
                return
            if split:
                rec.nontrivial()
        model = w.nodes[path[-1]].model
        cols = model.columns + (['domain'] if domain else []) + ['weight', 'value']
        require(list(data.columns) == cols, 'columns of translated weights', data.columns, cols)
        back = {v: i for i, v in model.index.items()}
        got = {}
        for r in data:
            require(len(r) == len(cols) and r[-2] == GROUP and (not domain or r[-3] == domain), 'row of translated weights', r)
            if r[-1] is not None:
                key = (back[tuple(r[:len(model.columns)])], attrs)
                got[key] = got.get(key, 0.0) + r[-1]
        compare(got, want, 'weights', case, w.log)
    finally:
        for node in w.nodes:
            node.close()


SUBS = [Sub('chains', case_strategy, run, 5000, 40000),
        Sub('weights', weights_case, weights_run, 2400, 19200)]
