"""P27: the legacy node: exact disaggregation and translation, contents kept when saved."""
import gc
import itertools
import os
import random
import shutil
import tempfile
import warnings
from contextlib import closing

from hypothesis import strategies as st

import p05
from engine import close
from harness import Sub, require
from toron import graph
from model import unions

PROPERTY = 'P27'
RULE = 'non-trivial: a quantity was split over several records'
ASSUMPTIONS = ['the weights of the first weighting cover every record (they are the default)',
               'labels and attribute values do not begin or end with white space and are not empty',
               'when two levels have the same granularity, their order in the adaptive method is not specified, '
               'only the totals are compared',
               'values agree up to a relative error of 1e-9']

COLUMNS = ['A', 'B', 'C', 'D e', 'it"s', "o'k", 'select', 'ünï', 'x-y', 'group', 'name', 'value_', 'index', '%s']
VALUES = ['x', 'y', 'z', 'x y', "o'x", '"q"', 'é', '0', '1', '-', 'X', 'a,b', '01', '1.0',
          'St.', 'a.', '.', 'x;', '(x)', 'X Y']
WEIGHTS = [1, 0, 2, 3, 0.5, 10, 7.25, 1e6, 0.1, 4]
QUANT = [1, 3, 10, 0.5, 0, 7.75, 1e6, 0.1, 5, 12, -2]
ATTRS = [{'attr': 'a'}, {'attr': 'b'}, {'kind': 'a'}, {'attr': 'a', 'kind': 'b'}, {'kind': 'c d', 'attr': 'é'},
         {'at tr': "'"}, {'attr': 'a', 'at tr': '"'}]
KEYS = ['attr', 'kind', 'at tr']
SELECTORS = [None, None, [], ['[attr]'], ['[kind="a"]', '[attr="b"]'], ['[attr="a"]'], ['[attr="a"][kind]', '[attr]'],
             [':is([attr="a"], [kind])'], ['[attr="É" i]', ':where([kind="a"])'], [':not([attr="b"])'], ['[kind]']]


@st.composite
def node(draw, cols=3, many=False):
    n = draw(st.integers(2 if many else 1, cols))
    crossed = n > 1 and draw(st.integers(0, 3)) == 0        # quantities at levels that cross each other
    if draw(st.booleans()):
        names = draw(st.lists(st.sampled_from(COLUMNS), min_size=n, max_size=n, unique_by=str.lower))
        vals = [draw(st.lists(st.sampled_from(VALUES), min_size=2, max_size=4, unique=True)) for _ in range(n)]
    else:
        names = COLUMNS[:n]
        vals = [['x', 'y', 'z']] * n
    if many:
        vals = [v + [f'{v[0]} {j}' for j in range(draw(st.integers(2, 12)))] for v in vals]
    labels = st.tuples(*[st.sampled_from(v) for v in vals]).filter(lambda r: set(r) != {'-'})
    if many:
        records = list(itertools.product(*vals))
        random.Random(draw(st.integers(0, 999))).shuffle(records)
        records = [r for r in records if set(r) != {'-'}][:draw(st.integers(17, 120))]
    else:
        records = draw(st.lists(labels, min_size=1, max_size=8, unique=True))
    k = st.integers(0, 9)
    small = st.integers(0, 7)
    return dict(
        columns=names, records=records, split=draw(st.integers(0, 8)),
        weights=draw(st.lists(st.tuples(st.integers(0, 10), st.lists(k, min_size=3, max_size=8), st.booleans(), small),
                              min_size=1, max_size=3)),
        partitions=[1, 2, 4] if crossed else draw(st.lists(st.integers(0, 7), max_size=3)),
        quantities=draw(st.lists(st.tuples(st.integers(0, 120) if many else small, small,
                                           st.integers(0, 1) if crossed else st.integers(0, 6), st.integers(0, 10),
                                           st.integers(0, 3 if crossed else 5)),
                                 min_size=3 if crossed else 1, max_size=9)),
        form=draw(st.integers(0, 5)))


def many_strategy():
    return strategy(True)


def strategy(many=False):
    small = st.integers(0, 120 if many else 7)
    read = st.tuples(st.booleans(),
                     st.one_of(st.none(), st.lists(st.sampled_from(KEYS), min_size=1, max_size=2, unique=True)),
                     st.one_of(st.none(), st.none(), st.tuples(small, small), st.integers(0, 5)))
    edges = st.lists(st.tuples(st.integers(0, 10), st.lists(st.tuples(small, small, st.integers(0, 9)), max_size=60 if many else 8),
                               st.booleans(), st.integers(0, 2)), min_size=1, max_size=2)
    return st.tuples(node(many=many), node(2), edges, st.lists(read, min_size=1, max_size=3),
                     st.sampled_from(['', 'mem', 'drive', 'open', 'openw', 'twice']), st.booleans())


# -- model -----------------------------------------------------------------------------
class Node:
    """A legacy node and what has to be in it."""

    def __init__(self, spec, drive=False):
        from toron import xNode
        self.spec = spec
        self.columns = list(spec['columns'])
        self.node = xNode(cache_to_drive=drive)
        self.log = []
        x, log = self.node, self.log
        cut = 1 + spec['split'] % len(self.columns)
        for part in (self.columns[:cut], self.columns[cut:]):
            if part:
                x.add_index_columns(part)
                log.append(f'add_index_columns({part})')
        self.records = {}
        half = spec['split'] % (len(spec['records']) + 1)
        for rows in (spec['records'][:half], spec['records'][half:]):
            if rows:
                table = self.table(self.columns + ['more'], [r + ('..',) for r in rows])
                x.add_index_records(table)
                log.append(f'add_index_records({table})')
        for i, r in enumerate(spec['records'], 1):
            self.records[i] = r
        self.weightings = []    # (name, selectors, {id: weight}, complete)
        self.partitions = [set(self.columns[:cut]), set(self.columns)]
        self.quantities = []    # (labels, attributes, value)

    def table(self, header, rows):
        form = self.spec['form']
        if form == 1:
            return [dict(zip(header, r)) for r in rows]
        if form == 2:
            order = sorted(range(len(header)), key=lambda j: header[j])
            return [[header[j] for j in order]] + [[r[j] for j in order] for r in rows]
        if form == 3:
            order = list(range(len(header)))[::-1]
            return [{header[j]: r[j] for j in order} for r in rows]
        return [list(header)] + [list(r) for r in rows]

    def add_weights(self, j):
        sel, codes, partial, k = self.spec['weights'][j]
        name = ['w', 'w 2', "w'3"][j]
        selectors = SELECTORS[sel]
        weights = {}
        for n, i in enumerate(self.records):
            if j and partial and (n + k) % 3 == 0:
                continue
            weights[i] = WEIGHTS[codes[(n + k) % len(codes)]]
        if weights or self.spec['form'] not in (1, 3):
            rows = [self.records[i] + (w,) for i, w in weights.items()]
            table = self.table(self.columns + [name], rows[::-1] if k % 2 else rows)
            self.node.add_weights(table, name, selectors=selectors, description='text' if k % 2 else None)
            self.log.append(f'add_weights({table}, {name!r}, {selectors})')
            self.weightings.append((name, selectors, weights, len(weights) == len(self.records)))

    def add_partitions(self):
        parts = []
        for mask in self.spec['partitions']:
            s = {c for b, c in enumerate(self.columns) if mask >> b & 1}
            if s and s not in parts:
                parts.append(s)
        if parts:
            self.node.add_partition_definitions([set(s) for s in parts])
            self.log.append(f'add_partition_definitions({parts})')
            self.partitions += parts

    def structure(self):
        return unions([frozenset(s) for s in self.partitions])

    def add_quantities(self, some):
        rows = []
        levels = sorted(sorted(s) for s in self.structure())
        for a, b, c, v, odd in some:
            i = 1 + a % len(self.records)
            use = levels[b % len(levels)]
            if odd == 5:
                use = self.columns[:1]
            labels = tuple(x if col in use else '' for col, x in zip(self.columns, self.records[i]))
            if odd == 4:
                labels = ('nowhere',) + labels[1:]
            rows.append((labels, ATTRS[c], QUANT[v]))
            self.quantities.append(rows[-1])
        header = self.columns + KEYS + ['the value']
        text = self.spec['form'] == 4
        table = self.table(header, [lab + tuple(at.get(key, '') for key in KEYS) + (str(v) if text else v,)
                                    for lab, at, v in rows])
        self.node.add_quantities(table, 'the value', KEYS if self.spec['split'] % 2 else None)
        self.log.append(f'add_quantities({table})')

    def build(self):
        self.add_weights(0)
        self.add_partitions()
        cut = self.spec['split'] % (len(self.spec['quantities']) + 1)
        if cut:
            self.add_quantities(self.spec['quantities'][:cut])
        for j in range(1, len(self.spec['weights'])):
            self.add_weights(j)
        if cut < len(self.spec['quantities']):
            self.add_quantities(self.spec['quantities'][cut:])
        return self

    def weighting(self, attrs):
        cands = {j: [p05.recognize(t) for t in sel] for j, (_, sel, _, done) in enumerate(self.weightings)
                 if done and sel}
        return self.weightings[best(cands, attrs, 0)][2]

    def matching(self, labels):
        return [i for i, r in self.records.items() if all(x in ('', y) for x, y in zip(labels, r))]

    def levels(self):
        """Levels by decreasing granularity; None if two of them have the same."""
        import math
        n = len(self.records)
        out = []
        for s in self.structure():
            groups = {}
            for r in self.records.values():
                key = tuple(x for c, x in zip(self.columns, r) if c in s)
                groups[key] = groups.get(key, 0) + 1
            out.append((math.log2(n) - sum(g / n * math.log2(g) for g in groups.values()), s))
        out.sort(key=lambda p: -p[0])
        used = {frozenset(c for c, x in zip(self.columns, lab) if x) for lab, _, _ in self.quantities}
        grans = [g for g, s in out if s in used]
        if any(abs(a - b) < 1e-9 for a, b in zip(grans, grans[1:])):
            return None
        return [s for _, s in out]

    def disaggregate(self, adaptive=False, keys=None, only=None):
        """{(id, attributes): value}; (only: attributes of the quantities)"""
        result = {}
        split = 0
        for level in self.levels() if adaptive else [None]:
            before = dict(result)
            for labels, attrs, value in self.quantities:
                here = frozenset(c for c, x in zip(self.columns, labels) if x)
                if here not in self.structure() or (level is not None and here != level):
                    continue
                if only is not None and any(attrs.get(k) != v for k, v in only.items()):
                    continue
                ids = self.matching(labels)
                if not ids:
                    continue
                weights = self.weighting(attrs)
                shares = None
                if adaptive:
                    sub = lambda at: {k: v for k, v in at.items() if keys is None or k in keys}
                    if sub(attrs):
                        prev = {}
                        for (i, at), v in before.items():
                            if i in ids and sub(dict(at)) == sub(attrs):
                                prev[i] = prev.get(i, 0.0) + v
                        total = sum(prev.values())
                        if prev and abs(total) > 1e-12:
                            shares = {i: prev.get(i, 0.0) / total for i in ids}
                        elif prev and any(prev.values()):
                            return None, 0      # (weights that cancel out)
                if shares is None:
                    total = sum(weights[i] for i in ids)
                    shares = {i: weights[i] / total if total else 1 / len(ids) for i in ids}
                split += len(ids) > 1 and value != 0
                for i in ids:
                    key = i, frozenset(attrs.items())
                    result[key] = result.get(key, 0.0) + value * shares[i]
        return result, split

    def totals(self, only=None):
        out = {}
        for labels, attrs, value in self.quantities:
            here = frozenset(c for c, x in zip(self.columns, labels) if x)
            if here in self.structure() and self.matching(labels) and \
                    not (only and any(attrs.get(k) != v for k, v in only.items())):
                key = frozenset(attrs.items())
                out[key] = out.get(key, 0.0) + value
        return out


def best(cands, attrs, default):
    """Candidate with the greatest unique specificity among those that match."""
    top = {}
    for j, asts in cands.items():
        hits = [p05.specificity(a) for a in asts if p05.matches(a, attrs)]
        if hits:
            top.setdefault(max(hits), []).append(j)
    for spec in sorted(top, reverse=True):
        if len(top[spec]) == 1:
            return top[spec][0]
    return default


def collect(rows, *details):
    out = {}
    for i, attrs, value in rows:
        key = i, frozenset(attrs.items())
        require(key not in out, f'result {key} appears twice', *details)
        out[key] = value
    return out


def compare(got, want, *details):
    scale = max([abs(v) for v in want.values()] + [1e-3])
    for k in got.keys() | want.keys():
        a, b = got.get(k, 0.0), want.get(k, 0.0)
        require(close(a, b) or abs(a - b) <= 1e-9 * scale, f'value of {k} is {a}, expected {b}', got, want, *details)


def sums(result):
    out = {}
    for (i, attrs), v in result.items():
        out[attrs] = out.get(attrs, 0.0) + v
    return out


def contents(dal, names, edges=()):
    """Everything that is stored in the node."""
    data = dal.get_data(['index_columns', 'partition_definitions'])
    return dict(
        id=dal.unique_id, columns=data['index_columns'],
        partitions=sorted(map(sorted, data['partition_definitions'])),
        structure=sorted(dal.structure()), records=sorted(dal.index_records()),
        weights={n: sorted(dal.weight_records(n), key=repr) for n in names},
        default=sorted(dal.weight_records(), key=repr),
        raw=sorted((sorted(r.items()) for r in dal.get_raw_quantities()), key=repr),
        static=sorted(((i, sorted(a.items()), round(v, 6)) for i, a, v in dal.static_disaggregate()), key=repr),
        edges={(u, n, reified): sorted(dal.get_incoming_edge(u, n, reified), key=repr)
               for u, n in edges for reified in (False, True)})


def check_contents(x, dal, *details):
    got = contents(dal, [w[0] for w in x.weightings])
    details = ('\n'.join(x.log),) + details
    require(list(got['columns']) == x.columns == list(dal.index_columns()), 'columns', got['columns'], *details)
    want = [(0,) + ('-',) * len(x.columns)] + [(i,) + r for i, r in x.records.items()]
    require(got['records'] == sorted(want), 'records', got['records'], want, *details)
    for name, _, weights, _ in x.weightings:
        want = [(0, None)] + [(i, weights.get(i)) for i in x.records]
        require(sorted(got['weights'][name], key=lambda r: r[0]) == want, f'weights {name}', got['weights'][name],
                want, *details)
    require(got['default'] == got['weights'][x.weightings[0][0]], 'default weights', got['default'], *details)
    want = sorted((sorted({**dict(zip(x.columns, lab)), **at, 'value': v}.items()) for lab, at, v in x.quantities),
                  key=repr)
    require(list(map(dict, got['raw'])) == list(map(dict, want)) or
            sorted(map(repr, map(norm, got['raw']))) == sorted(map(repr, map(norm, want))),
            'quantities', got['raw'], want, *details)
    want = sorted(tuple(int(c in s) for c in x.columns) for s in x.structure())
    require(got['structure'] == want, 'structure', got['structure'], want, *details)


def norm(items):
    return [(k, float(v) if k == 'value' else v) for k, v in items]


# -- running ------------------------------------------------------------------------------
def run(case, rec):
    old = tempfile.tempdir
    tempfile.tempdir = scratch = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        check(case, rec, scratch)
    finally:
        tempfile.tempdir = old
        gc.collect()
        shutil.rmtree(scratch, ignore_errors=True)


def check(case, rec, scratch):
    spec, spec2, edges, reads, how, drive = case
    x = Node(spec, drive).build()
    dal = x.node._dal
    y = None
    names = []
    if edges is not None:
        y = Node(spec2).build()
        names = connect(x, y, edges, rec)
    known = [(y.node._dal.unique_id, n) for n in names]
    check_contents(x, dal)
    details = '\n'.join(x.log)
    n = disaggregated(x, dal, reads, rec)
    if n:
        rec.nontrivial()
    translated(x, y, dal, edges, rec)
    if how:
        before = contents(dal, [w[0] for w in x.weightings], known)
        path = os.path.join(scratch, 'node.toron')
        x.node._dal.to_file(path, fsync=False)
        if how == 'twice':
            again = type(dal).from_file(path)
            again.to_file(path, fsync=False)
        if how.startswith('open'):
            copy = type(dal).open(path, 'readwrite' if how == 'openw' else None)
        else:
            from toron import xNode
            copy = xNode.from_file(path, cache_to_drive=how == 'drive')._dal
        after = contents(copy, [w[0] for w in x.weightings], known)
        for k in before:
            require(repr(after[k]) == repr(before[k]), f'{k} differs after reopening ({how})', after[k], before[k],
                    details)
        if how != 'open':
            # It goes on like the original.
            mark = len(x.quantities)
            for target in (x.node._dal, copy):
                class Proxy:
                    pass
                del x.quantities[mark:]
                keep, x.node = x.node, Proxy()
                x.node.add_quantities = lambda t, v, a, target=target: target.add_quantities(t, v, attributes=a)
                try:
                    x.add_quantities(spec['quantities'][:2])
                finally:
                    x.node = keep
        check_contents(x, copy, how)
        disaggregated(x, copy, reads[:1], rec)
        translated(x, y, copy, edges, rec)
        rec.event(f'reopened: {how}')
        if how.startswith('open'):
            with open(path, 'rb') as f:
                require(f.read(6) == b'SQLite', 'the file is gone')
        copy = target = None
    left = set(os.listdir(scratch)) - {'node.toron'}
    if not drive:
        gc.collect()
        left = set(os.listdir(scratch)) - {'node.toron'}
        require(not left, 'files are left behind', left, details)


def disaggregated(x, dal, reads, rec):
    split = 0
    for adaptive, keys, where in reads:
        details = ('\n'.join(x.log), f'adaptive={adaptive} keys={keys} where={where}')
        only, args, keep = None, {}, None
        if isinstance(where, tuple):
            c = x.columns[where[0] % len(x.columns)]
            label = list(x.records.values())[where[1] % len(x.records)][x.columns.index(c)]
            args = {c: label}
            keep = {i for i, r in x.records.items() if r[x.columns.index(c)] == label}
        elif isinstance(where, int):
            only = dict(list(ATTRS[where].items())[:1])
            args = dict(only)
        if adaptive:
            rows = dal.adaptive_disaggregate(keys, **args)
            want, n = x.disaggregate(True, keys, only) if x.levels() is not None else (None, 0)
        else:
            rows = dal.static_disaggregate(**args)
            want, n = x.disaggregate(False, None, only)
        got = collect(rows, *details)
        if keep is None:
            compare(sums(got), x.totals(only), 'totals', *details)
        if want is None:
            rec.event('adaptive: order of levels not specified')
            continue
        if keep is not None:
            want = {k: v for k, v in want.items() if k[0] in keep}
        compare(got, want, *details)
        split += n
        rec.event(('adaptive' if adaptive else 'static') + (' where label' if keep is not None else ' where attribute'
                                                            if only else ''))
        if adaptive and n and want and x.disaggregate(False, None, only)[0] != want:
            rec.event('adaptive differs from static')
    return split


def connect(x, y, edges, rec):
    """Edges from *y* to *x*."""
    names = []
    x.edges = []
    uid = y.node._dal.unique_id
    src, dst = list(y.records), list(x.records)
    for j, (sel, rows, full, default) in enumerate(edges):
        name = ['e', "e'2"][j]
        rel = {}
        for a, b, v in rows:
            rel[src[a % len(src)], dst[b % len(dst)]] = WEIGHTS[v]
        if full or j == 0:
            for n, o in enumerate(src):
                rel.setdefault((o, dst[n % len(dst)]), 1)
            for n, i in enumerate(dst):
                if not any(k[1] == i for k in rel):
                    rel[src[n % len(src)], i] = 2
        table = [(o, i, v, None) for (o, i), v in rel.items()]
        kw = {'selectors': SELECTORS[sel]} if SELECTORS[sel] is not None else {}
        if default == 1 and full:
            kw['make_default'] = True
        x.node._dal.add_incoming_edge(uid, name, table, **kw)
        x.log.append(f'add_incoming_edge({name!r}, {table}, {kw})')
        if kw.get('make_default'):
            for e in x.edges:
                e['default'] = False
        x.edges.append(dict(selectors=SELECTORS[sel], rel=rel, default=j == 0 or bool(kw.get('make_default')),
                            complete={i for _, i in rel} == set(dst)))
        names.append(name)
    return names


def translated(x, y, dal, edges, rec):
    from toron._utils import XQuantityIterator
    source, _ = y.disaggregate()
    other = y.node._dal
    details = ('\n'.join(x.log), '\n'.join(y.log))
    if not any(e['default'] and e['complete'] for e in x.edges):
        rec.event('translate: default edge not complete')
        return
    rows = XQuantityIterator(other.unique_id, other.static_disaggregate())
    with closing(dal.translate(rows)) as out:
        got = collect(out, *details)
        require(out.unique_id == dal.unique_id, 'id of translated quantities', *details)
    want = {}
    cands = {j: [p05.recognize(t) for t in e['selectors']] for j, e in enumerate(x.edges)
             if e['complete'] and e['selectors']}
    default = [j for j, e in enumerate(x.edges) if e['default']][0]
    kept = 0
    for (o, attrs), v in source.items():
        rel = x.edges[best(cands, dict(attrs), default)]['rel']
        mine = {i: w for (s, i), w in rel.items() if s == o}
        total = sum(mine.values())
        for i, w in mine.items():
            key = i, attrs
            want[key] = want.get(key, 0.0) + v * (w / total if total else 1 / len(mine))
        kept += bool(mine)
        if len(mine) > 1:
            rec.event('translate: split')
    compare(got, want, *details)
    if kept == len(source):
        compare(sums(got), sums(source), 'totals of the translation', *details)
        rec.event('translate: totals kept')


# -- edges from labelled rows --------------------------------------------------------------
def label_strategy():
    small = st.integers(0, 7)
    rows = st.lists(st.tuples(small, small, small, small, st.integers(0, 9)), min_size=1, max_size=9)
    edge = st.tuples(st.integers(0, 10), rows, st.booleans(), st.sampled_from([1, 2, 3, 4, 10, 10, 2.5]),
                     st.sampled_from([False, False, True]),
                     st.sampled_from(['->', '-->', '<->']), st.integers(0, 5))
    return st.tuples(node(), node(2), st.lists(edge, min_size=1, max_size=2))


class Unclear(Exception):
    pass


def blank(n, labels, k):
    """The labels at a level of the structure (or, seldom, at another one)."""
    levels = sorted((sorted(s) for s in n.structure() if s), key=lambda s: (len(s), s))
    use = n.columns[-1:] if k == 7 else levels[k % len(levels)]
    return tuple(t if c in use else '' for c, t in zip(n.columns, labels))


def side_matches(n, keys, limit, overlapping):
    """{labels: {id: share}} as the legacy matching defines it."""
    weights = n.weightings[0][2]
    out = {}
    ambiguous = []
    used = set()
    for key in set(keys):
        ids = n.matching(key)
        here = frozenset(c for c, x in zip(n.columns, key) if x)
        if len(ids) == 1:
            out[key] = {ids[0]: 1.0}
            used.add(ids[0])
        elif ids and here in n.structure() and len(ids) <= limit:
            ambiguous.append((len(ids), key, ids))
    ambiguous.sort()
    for k, key, ids in ambiguous:
        if not overlapping and any(k == k2 and key2 != key and set(ids) & set(ids2) for k2, key2, ids2 in ambiguous):
            raise Unclear('the order of equally ambiguous rows matters')
        if overlapping and any(set(ids) & set(other) for other in out.values()):
            raise Unclear('a record is matched at two levels')
        ids = [i for i in ids if overlapping or i not in used]
        if not ids:
            continue
        total = sum(weights[i] for i in ids)
        if not total:
            raise Unclear('the weights are zero')
        out[key] = {i: weights[i] / total for i in ids}
        used.update(ids)
    return out


def run_labels(case, rec):
    spec, spec2, edges = case
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x, y = Node(spec).build(), Node(spec2).build()
        x.edges = []
        for j, (sel, picks, full, limit, overlapping, direction, form) in enumerate(edges):
            name = ['e', "e'2"][j]
            rows = []
            for a, mask_a, b, mask_b, v in picks:
                la, lb = list(y.records.values())[a % len(y.records)], list(x.records.values())[b % len(x.records)]
                la, lb = blank(y, la, mask_a), blank(x, lb, mask_b)
                if v == 9 and mask_a == 3:
                    lb = ('nowhere',) + lb[1:]
                if any(la) and any(lb) and '-' not in la + lb:
                    rows.append((la, lb, WEIGHTS[v]))
            if full:
                # Something for every record that no row mentions.
                for n, (k, mine, theirs) in enumerate([(0, y, x), (1, x, y)] * 2):
                    for r in mine.records.values():
                        if not any(all(t in ('', u) for t, u in zip(row[k], r)) for row in rows):
                            pair = blank(mine, r, 0 if n < 2 else 1), blank(theirs, list(theirs.records.values())[n % len(theirs.records)], form)
                            rows.append((pair if k == 0 else pair[::-1]) + (2,))
                rows = [r for r in rows if '-' not in r[0] + r[1]]
            if not rows or 'name' in x.columns + y.columns:     # (an argument of weight_records)
                return
            try:
                left = side_matches(y, [r[0] for r in rows], limit, overlapping)
                right = side_matches(x, [r[1] for r in rows], limit, overlapping)
            except Unclear as e:
                rec.event(f'not judged: {e}')
                return
            rel = {}
            split = 0
            for a, b, v in rows:
                for o, p in left.get(a, {}).items():
                    for i, q in right.get(b, {}).items():
                        rel[o, i] = rel.get((o, i), 0.0) + v * p * q
                split += len(left.get(a, ())) * len(right.get(b, ())) > 1
            value = name if form % 2 else f'{name}: left {direction} right'
            table = [y.columns + [value] + x.columns]
            table += [list(a) + [str(v) if form == 3 else v] + list(b) for a, b, v in rows]
            if form == 2:
                ka, kb = len(y.columns), len(x.columns)
                order = list(range(ka))[::-1] + [ka] + list(range(ka + 1, ka + 1 + kb))[::-1]
                table = [[r[c] for c in order] for r in table]
            kw = dict(match_limit=limit, allow_overlapping=overlapping)
            if SELECTORS[sel] is not None:
                kw['selectors'] = SELECTORS[sel]
            graph.xadd_edge(table, name, y.node, direction, x.node, **kw)
            x.log.append(f'xadd_edge({table}, {name!r}, y, {direction!r}, x, {kw})')
            x.edges.append(dict(selectors=SELECTORS[sel], rel=rel, default=j == 0,
                                complete={i for _, i in rel} == set(x.records)))
            for target, source, pairs in [(x, y, rel)] + [(y, x, {(i, o): v for (o, i), v in rel.items()})] * ('<' in direction):
                rows_of = list(target.node._dal.get_incoming_edge(source.node._dal.unique_id, name, reified=True))
                got = {}
                ids = {r: i for i, r in target.records.items()}
                for o, v, *labels in rows_of[1:]:
                    i = ids.get(tuple(labels[:len(target.columns)]), 0)
                    if (o or i) and v is not None:
                        got[o, i] = got.get((o, i), 0.0) + v
                compare(got, pairs, 'relations', '\n'.join(x.log), '\n'.join(y.log))
            if split:
                rec.nontrivial()
                rec.event('split')
        translated(x, y, x.node._dal, edges, rec)


SUBS = [Sub('nodes', strategy, run, 2700, 21600), Sub('many records', many_strategy, run, 240, 2400),
        Sub('edges from labels', label_strategy, run_labels, 5000, 40000)]
