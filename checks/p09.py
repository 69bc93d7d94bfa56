"""P09: weight groups hold exactly what was loaded."""
from engine import history_sub

PROPERTY = 'P09'
RULE = 'non-trivial: at least three successful operations on weight groups or weights'
ASSUMPTIONS = ['a group loaded with a weight for every record is complete until a weight is deleted or a record added']

WEIGHTS = {'ins': 4, 'insid': 3, 'upd': 2, 'delr': 2, 'delc': 1, 'addg': 4, 'editg': 2, 'dropg': 3,
           'setdef': 2, 'insw': 7, 'fillw': 4, 'updw': 5, 'delwr': 4, 'delwc': 3, 'reload': 2}
KEY = {'addg', 'editg', 'dropg', 'setdef', 'insw', 'fillw', 'updw', 'delwr', 'delwc'}

SUBS = [
    history_sub('histories', WEIGHTS, ['weights', 'groups', 'listing'], KEY, 3, 2700, 21600,
                prelude=['index', 'group'], extra=lambda e, rec: e.check_file()),
    history_sub('long', WEIGHTS, ['weights', 'groups'], KEY, 12, 240, 2500,
                prelude=['index', 'group2'], lo=25, hi=50),
    history_sub('large', {'bigins': 2, 'bigupd': 1, 'fillw': 3, 'bigw': 4, 'bigdelw': 3, 'bigdel': 1, 'addg': 1, 'reload': 1},
                ['weights', 'groups'], {'fillw', 'bigw', 'bigdelw'}, 2, 120, 1500, prelude=['big', 'group'], lo=2, hi=6),
]
