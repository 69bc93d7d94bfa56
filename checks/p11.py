"""P11: links are unique per source and name, have one default, and are found by reference."""
from engine import HINTS, LINKS, SOURCE_IDS, history_sub
from harness import require

PROPERTY = 'P11'
RULE = 'non-trivial: at least three successful operations that add, edit or drop links'
ASSUMPTIONS = ['references that fit one source by name and another by id prefix, or one exactly and another '
               'by the name without extension, are not judged']

WEIGHTS = {'addl': 8, 'editl': 7, 'dropl': 3, 'insm2': 2, 'fillm': 2, 'insm': 1, 'ins': 1, 'upd': 1, 'delr': 1,
           'reload': 2}
KEY = {'addl', 'editl', 'dropl'}

REFS = (SOURCE_IDS + [u[:7] for u in SOURCE_IDS] + [u[:6] for u in SOURCE_IDS]
        + [u[:-1] for u in SOURCE_IDS] + [u[:12] for u in SOURCE_IDS] + [u.upper()[:9] for u in SOURCE_IDS] + [SOURCE_IDS[0].upper(), 'abcdef0100', '77777777-0000-4000-8000-000000000004']
        + HINTS + ['some file.toron', 'g', 'abcdef01-0000.toron', 'nothing', '', 'F', 'toron', '.toron', 'some', 'f.toro'])


def fits(ref, link):
    """How the reference fits a link: 'id', 'file' or 'prefix' (or None)."""
    if ref == link['uid']:
        return 'id'
    hint = link['hint']
    stem = lambda x: x[:-6] if x.endswith('.toron') else x
    if hint and ref and (hint == ref or stem(hint) == stem(ref)):
        return 'file'
    if len(ref) >= 7 and link['uid'].startswith(ref):
        return 'prefix'
    return None


def expected(m, ref, name):
    """Name and source of the link that is found, None for an error, or 'skip'."""
    found = {}
    for x in m.links:
        how = fits(ref, x)
        if how:
            found.setdefault(how, []).append(x)
    for how in ('id', 'file', 'prefix'):
        if how in found:
            break
    else:
        return None
    links = found[how]
    sources = {x['uid'] for x in links}
    if how != 'id' and {x['uid'] for y in found.values() for x in y} != sources:
        return 'skip'
    if how == 'file' and len({x['hint'] for x in links}) > 1:
        return 'skip' if ref.endswith('.toron') else pick(links, sources, name, m, how)
    return pick(links, sources, name, m, how)


def pick(links, sources, name, m, how):
    if len(sources) > 1:
        return None
    if how == 'file':
        mine = m.links_from(next(iter(sources)))
        if len(mine) != len(links):
            return 'skip'     # only some of the source's links have this hint
    if name:
        hits = [x for x in links if x['name'] == name]
    elif len(links) == 1:
        hits = links
    else:
        hits = [x for x in links if x['is_default']]
    if len(hits) != 1:
        return None
    return hits[0]['uid'], hits[0]['name']


def after(e, op, outcome):
    defaults = {}
    for x in e.space.links:
        if x.is_default:
            require(x.other_unique_id not in defaults, 'two default links of one source', e.history())
            defaults[x.other_unique_id] = x.name
    if op[0] not in KEY and op[0] != 'reload':
        return
    turn = len(e.log)
    for k, ref in enumerate(REFS):
        if e.path and (k + turn) % 4:
            continue
        names = [None] + (LINKS + ['no such link'] if (k + turn) % 3 == 0 else [])
        for name in names:
            want = expected(e.model, ref, name)
            if want == 'skip':
                e.event('reference not judged')
                continue
            try:
                link = e.space.get_link(ref, name) if name else e.space.get_link(ref)
                got = link.other_unique_id, link.name
            except Exception as exc:
                got, error = None, exc
            require(got == want, f'get_link({ref!r}, {name!r}) gives {got}, expected {want}', e.history())
            e.event('reference ' + ('found' if want else 'refused'))


SUBS = [
    history_sub('histories', WEIGHTS, ['links', 'mappings'], KEY, 3, 2400, 19200,
                prelude=['index', 'link2'], after=after, extra=lambda e, rec: e.check_file()),
]
