"""P13: unmatched quantities are reported and cleaned up exactly."""
from engine import history_sub
from harness import require
from model import Refused

PROPERTY = 'P13'
RULE = 'non-trivial: at least one cleanup that removed a quantity'
ASSUMPTIONS = []

WEIGHTS = {'ins': 2, 'upd': 3, 'delr': 4, 'delc': 2, 'insq': 6, 'insqi': 3, 'addps': 2, 'drope': 3, 'addc': 1,
           'delnoidx': 3, 'delunm': 4, 'domain': 1, 'attrs': 1, 'reload': 2}


def after(e, op, outcome):
    if op[0] not in ('delnoidx', 'delunm'):
        e.before = dict(e.model.quantities)
        return
    if outcome != 'ok':
        return
    e.check_file(leftovers=True)
    if op[0] == 'delunm':
        require(not list(e.space.select_unmatched_quantities(header=False)), 'unmatched quantities remain',
                e.history())
    require(not list(e.space.select_quantities_without_index(header=False)),
            'quantities without index remain', e.history())
    if getattr(e, 'before', None) and len(e.before) > len(e.model.quantities):
        e.cleaned = getattr(e, 'cleaned', 0) + 1
        e.event(f'{op[0]}: removed some of several')
    e.before = dict(e.model.quantities)
    # Reading does not fail for lack of an index record.
    if e.model.default_group and e.model.groups[e.model.default_group]['is_complete']:
        list(e.space())
        e.event('read after cleanup')


def extra(e, rec):
    if getattr(e, 'cleaned', 0):
        rec.nontrivial()
    e.check_file()


SUBS = [
    history_sub('histories', WEIGHTS, ['unmatched', 'allquant'], set(), 1, 3600, 28800,
                prelude=['index', 'group', 'part', 'quant', 'quant'], after=after, extra=extra),
    history_sub('large', {'bigins': 1, 'bigq': 4, 'bigdel': 3, 'bigdelc': 1, 'bigupd': 1, 'delnoidx': 4, 'delunm': 4, 'drope': 1, 'reload': 1},
                ['unmatched', 'allquant'], set(), 1, 100, 1200, prelude=['big', 'group', 'part', 'bigq'], after=after, extra=extra, lo=3, hi=7),
]
