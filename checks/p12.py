"""P12: stored quantities are exactly those loaded."""
from engine import history_sub

PROPERTY = 'P12'
RULE = 'non-trivial: at least two successful loads of quantities'
ASSUMPTIONS = []

WEIGHTS = {'ins': 2, 'insq': 9, 'insqi': 6, 'attrs': 1, 'orda': 1, 'domain': 1, 'addps': 1, 'addp': 1,
           'upd': 1, 'delr': 1, 'delunm': 1, 'addc': 1, 'ren1': 1, 'ordc': 1, 'reload': 2}

SUBS = [
    history_sub('histories', WEIGHTS, ['quantities', 'allquant'], {'insq', 'insqi'}, 2, 3150, 25200,
                prelude=['index', 'part', 'quant'], extra=lambda e, rec: e.check_file()),
    history_sub('plain', {'insq': 5, 'insqi': 5, 'orda': 1}, ['quantities', 'allquant'],
                {'insq', 'insqi'}, 3, 1050, 8400, prelude=['index', 'quant'], weird=False),
    history_sub('large', {'bigins': 1, 'bigq': 6, 'bigupd': 1, 'delunm': 1, 'reload': 1},
                ['quantities', 'allquant'], {'bigq'}, 2, 100, 1200, prelude=['big', 'part'], lo=3, hi=6),
]
