"""P30: the reported numbers of loaded, changed and skipped rows are true."""
from contextlib import closing

import p16
import p20
import p21
from engine import Engine, history
from harness import Sub, Violation, require
from reports import Reports

PROPERTY = 'P30'
RULE = ('non-trivial: rows had at least two different outcomes in one operation and were reported ("operations"), or '
        'rows were left out or records remained uncovered ("mappings", "mapper")')
ASSUMPTIONS = ['the reports are the messages of the logger "app-toron" and the warnings of the library',
               'operations whose outcome is not an issue need not report (no message means: nothing was skipped)']

# Reports in log messages; an outcome that did not occur is not reported.
LOGGED = {
    'insert_index': dict(
        label_inserted=r'loaded (\d+) index labels', label_ignored=r'ignored (\d+) \S+ index labels',
        label_replaced=r'replaced (\d+) index labels', empty_labels=r'skipped (\d+) index labels .*empty',
        weight_inserted=r'loaded (\d+) index weights', weight_ignored=r'skipped (\d+) index weights',
        weight_replaced=r'replaced (\d+) index weights'),
    'insert_weights': dict(
        inserted=r'loaded (\d+) new records', skipped=r'skipped (\d+) rows that match existing',
        overwritten=r'replaced (\d+) existing', summed=r'combined sum of (\d+)', not_realnum=r'skipped (\d+) .*real number',
        undefined_record=r'skipped (\d+) .*undefined record', no_index=r'skipped (\d+) .*no matching index_id',
        mismatch=r'skipped (\d+) .*do not match the given index_id', no_match=r'skipped (\d+) .*do not match any'),
    'update_weights': dict(
        updated=r'updated (\d+) existing records', inserted=r'loaded (\d+) new records',
        no_index=r'skipped (\d+) .*no matching index_id', mismatch=r'skipped (\d+) .*do not match the given'),
    'delete_weights': dict(
        deleted=r'deleted (\d+) weights', mismatch=r'skipped (\d+) .*mismatched', no_index=r'skipped (\d+) .*no matching index_id',
        no_weight=r'skipped (\d+) .*no matching weight'),
    'insert_mappings2': dict(
        inserted=r'loaded (\d+) mappings', undefined_to_undefined=r'skipped (\d+) .*undefined-to-undefined',
        bad_mapping_level=r'skipped (\d+) .*invalid mapping levels'),
    'insert_quantities2': dict(
        inserted=r'loaded (\d+) quantities', no_attrs=r'skipped (\d+) .*no attribute', invalid_category=r'(\d+) .*no specified partition',
        invalid_label=r'(\d+) .*invalid labels', existing_ignored=r'skipped (\d+) .*existing attributes',
        existing_replaced=r'replaced (\d+) quantities', existing_summed=r'added (\d+) quantities'),
}
# Reports in one warning, given if there is anything but the expected outcome.
SKIPPED = dict(
    empty_str=r'skipped (\d+) rows with empty', no_index=r'skipped (\d+) rows with non-matching index_id',
    mismatch=r'skipped (\d+) rows with mismatched labels', value_mismatch=r'skipped (\d+) rows with mismatched values',
    bad_mapping_level=r'skipped (\d+) rows with invalid mapping levels',
    mapping_level_mismatch=r'skipped (\d+) rows with mismatched mapping levels',
    approximate_mappings=r'skipped (\d+) approximate', no_mapping=r'skipped (\d+) rows with no matching mappings',
    merged=r'merged (\d+) existing')
WARNED = {
    'update_index': ('updated', r'updated (\d+) rows'),
    'delete_index': ('deleted', r'deleted (\d+) rows'),
    'insert_mappings': ('inserted', r'loaded (\d+) rows'),
    'update_mappings': ('updated', r'updated (\d+) rows'),
    'delete_mappings': ('deleted', r'deleted (\d+) rows'),
    'reify_mappings': ('reified', r'reified (\d+) records'),
}
METHODS = {'ins': 'insert_index', 'insid': 'insert_index', 'upd': 'update_index', 'delr': 'delete_index', 'delc': 'delete_index',
           'insw': 'insert_weights', 'fillw': 'insert_weights', 'updw': 'update_weights', 'delwr': 'delete_weights',
           'delwc': 'delete_weights', 'insm2': 'insert_mappings2', 'fillm': 'insert_mappings2', 'insm': 'insert_mappings',
           'updm': 'update_mappings', 'delmr': 'delete_mappings', 'delmc': 'delete_mappings', 'reify': 'reify_mappings',
           'insq': 'insert_quantities2', 'insqi': 'insert_quantities2'}
HISTORY = {n: (3 if n in METHODS else k) for n, k in p16.WEIGHTS.items() if n != 'reload'}


def judge(method, counts, reports, details):
    if method in LOGGED:
        patterns = LOGGED[method]
        told = set(patterns)
    else:
        expected, pattern = WARNED[method]
        patterns = dict(SKIPPED, **{expected: pattern})
        if method == 'update_mappings':
            patterns['inserted'] = r'inserted (\d+) rows'
        told = set(patterns)
        if not reports.tells(pattern):      # no warning at all
            told -= {expected}
    for name in sorted(told):
        got = reports.number(patterns[name])
        if got != counts[name]:
            raise Violation(f'{details[0]}\nreports {got} for "{name}", but there were {counts[name]}: '
                            f'{reports.texts}\n{details[1]}')
    if 'complete' in counts:
        require(reports.tells('group is complete') == bool(counts['complete']), 'report of completeness',
                reports.texts, counts, *details)
    if method == 'insert_quantities2':
        require(reports.tells('no quantities loaded') == (not counts['inserted']), 'report', reports.texts, counts, *details)


def strategy():
    return history(HISTORY, 3, 14, prelude=['index', 'group2', 'link2', 'part', 'quant'])


def run(case, rec):
    world, ops = case
    with closing(Engine(world, rec=rec)) as e:
        with Reports() as reports:
            for op in ops:
                reports.clear()
                had_default, groups = e.model.default_group, set(e.model.groups)
                outcome = e.step(op)
                if outcome != 'ok':
                    continue
                texts = list(reports.texts)
                method = METHODS.get(op[0])
                if method:
                    counts = e.model.counts
                    judge(method, counts, reports, (e.log[-1], e.history()))
                    if sum(1 for k, n in counts.items() if n and k != 'complete') > 1:
                        rec.nontrivial()
                    for k, n in counts.items():
                        if n:
                            rec.event(f'{method}: {k}')
                elif op[0] == 'addg':
                    require(reports.tells('setting default') == (op[4] == 0 and not groups), 'report', texts, e.history())
                elif op[0] == 'dropg':
                    gone = groups - set(e.model.groups)
                    require(reports.tells('removed weight group') == bool(gone)
                            and reports.tells('no weight group named') == (not gone)
                            and reports.tells('default weight group was removed') == (had_default in gone),
                            'report', texts, gone, had_default, e.history())


# --------------------------------------------------------------------------
# Matching and loading mappings
# --------------------------------------------------------------------------
def run_mapper(case, rec):
    with Reports() as reports:
        p20.run(case, rec, reports=reports)


def run_loading(case, rec):
    with Reports() as reports:
        p21.run(case, rec, reports=reports)


SUBS = [Sub('operations', strategy, run, 3200, 32000),
        Sub('mapper', p20.case_strategy, run_mapper, 2400, 24000),
        Sub('loading', p21.case_strategy, run_loading, 2400, 24000)]
