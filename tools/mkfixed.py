#!/usr/bin/env python3
"""Writes the "fixed" list of known_findings.json from the subjects of the fix: commits in /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(HERE, '..', 'known_findings.json')
PROPS = {  # subject of the commit -> (property, what failed)
 'enforce foreign keys on file-backed connections': ('P09', 'dropped weight groups, links and records left their weights and mappings behind in spaces bound to a file (also P08, P11, P13)'),
 'let bind_file() create files given as bare file names': ('P17', "bind_file('name.toron') failed for a new file without a directory part"),
 'quote label names when updating index and location records': ('P07', 'update_index() failed for label columns whose names are not plain identifiers (also P15, P24)'),
 'select unmatched quantities without a header row': ('P13', 'delete_unmatched_quantities() and the report took the header row for a record'),
 "don't treat an index record as a conflict with itself": ('P08', 'updating a record to its own labels merged it with itself and lost its data'),
 'refresh granularity when insert_index() replaces labels': ('P14', 'granularity was stale after insert_index() replaced labels of existing records'),
 "don't assign quantities to the undefined record if another matches": ('P01', 'quantities were shared with the undefined record although another record matched'),
 'make reify_mappings() and delete_unmatched_quantities() atomic': ('P16', 'a failure part-way kept earlier changes'),
 'keep partitions and display order in step with label columns': ('P15', 'renamed or dropped label columns stayed in partitions and the display order'),
 'drop weight groups when no default weight group is defined': ('P09', 'drop_weight_group() raised TypeError without a default group'),
 'read unquoted and escaped selector values': ('P05', 'selectors with unquoted or escaped values, which str() prints, did not parse to the same value'),
 'allow a nested :is() selector as the only item of another': ('P05', ':is(:is(...)) was refused'),
 'stack columns given to wide_to_long() as an iterator': ('P23', 'an iterator of columns was used up by validation and gave no rows'),
 "don't overwrite unstacked columns in wide_to_long()": ('P23', 'a kept column with the name of a new column was overwritten silently'),
 'allow merging mappings whose proportions round to more than one': ('P08', 'merging records failed with an IntegrityError when float proportions add up to more than 1'),
 'match no index record by an unknown label column': ('P07', 'criteria naming an unknown label column matched by the quoted name as text'),
 'let the undefined record match locations when finding unmatched quantities': ('P13', 'quantities that only the undefined record matches were reported although reading uses them'),
 'find links by file name with extension if the hint has none': ('P11', 'a link whose hint lacks .toron was not found by "name.toron"'),
 'translate by selectors of up-to-date links only': ('P03', 'translation failed or chose a stale link when an outdated link had selectors (also P04)'),
 'forget the display position of dropped label columns': ('P15', 'a dropped label column kept its place, a column renamed to its name was listed twice'),
 'leave no temporary files behind when saving fails': ('P18', 'a failed save left the journal of its temporary file behind if the drive was full, and the temporary file on KeyboardInterrupt'),
 "list ambiguous fields beyond the last set bit's byte": ('P21', 'get_mapping() and select_mappings() lost ambiguous fields with more than eight label columns (also P10)'),
 'refuse files of unknown schema versions': ('P19', 'files of an unknown schema version were opened, and rewritten, as if they were current'),
 'read rows given to insert_mappings2() by their column names': ('P23', 'insert_mappings2() ignored the column names and read the cells by position (also P10)'),
 'check for existing links before loading a mapping': ('P21', 'load_mapping() in both directions stored the first direction before refusing the second for an existing link'),
 "accept the undefined record's zero weight when loading an index": ('P22', 'an exported index with weights could not be imported again'),
 'match mapping rows to spaces without index records': ('P20', 'a mapping for a space without records failed with a TypeError'),
 'refuse mapping values that are not numbers and skip blank ones': ('P20', 'text was loaded as the mapping value 0, unmatched blank rows made up mappings'),
 "don't fail on text resembling an index code of a huge number": ('P22', 'OverflowError for text such as 99999999999999999999X0'),
 'keep line breaks in values when reading CSV from stdin': ('P22', 'a carriage return in a value became a line feed on import'),
 'give no rows when stacking columns of an empty table': ('P23', 'wide_to_long() of an empty table failed with RuntimeError'),
 "accept empty selectors when adding a weight group": ('P24', 'add_weight_group(selectors=[]) failed with a ProgrammingError'),
 "don't take a link named '' for the default link": ('P24', "edit_link() and others changed the default link when given the name of a link named ''"),
 'release the storage of results that are no longer used': ('P25', 'dropped readers and their temporary files were kept until the process ended'),
 'remove the temporary file when a result cannot be read': ('P25', 'space(cache_to_drive=True) left its temporary file behind if it failed'),
 'allow pivoting a result while other iterators over it are open': ('P25', 'a second open pivot of a reader, or one over a half-read reader, failed with an OperationalError'),
 'disaggregate and translate legacy nodes without selectors': ('P27', 'disaggregating or translating with a weighting or edge added without selectors failed with a TypeError'),
 "list a legacy node's weight records of one weighting only": ('P27', 'weight_records() listed the records of every weighting'),
 'update partitions and display order in legacy label functions': ('P15', 'toron.dal1.legacy_rename_labels left the old display order; legacy_drop_labels left partitions, display order and structure untouched'),
 'remove every occurrence of a selector given to --remove-selector': ('P28', 'update weight --remove-selector left the selector in place when the group listed it twice'),
 'keep undefined values when translating a QuantityIterator': ('P03', 'weights translated with select_weights() >> a >> b lost what the first link sent to the undefined record'),
 'accept numbers given as text in update_weights()': ('P23', 'update_weights() failed with a TypeError for rows of a csv reader'),
 'refuse rows of merged records when ids are given as text': ('P23', 'update_index() skipped rows of a merged record instead of refusing them when ids came as text (csv)'),
 'find index codes after the first rows when loading an index': ('P22', 'with ten or more new rows first, a record named by its index code was added again instead of being relabelled'),
 "don't reuse index ids after legacy label functions": ('P07', 'the table rebuilt by the legacy label functions lost its AUTOINCREMENT sequence, so ids of deleted records were used again'),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        prop, what = PROPS[s[5:]]
        fixed.append(f'fixed: property={prop} {h} {what}')
with open(path) as f:
    data = json.load(f)
data['fixed'] = fixed
with open(path, 'w') as f:
    json.dump(data, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(fixed))
