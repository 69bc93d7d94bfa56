#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
S='src/toron/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':[S+f for f in files],'mechanism':[{'name':n,'where':S+w} for n,w in mech],'hook_needed':None}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':S+w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a))

p('P01','Disaggregation conserves every quantity and splits it by weight',
 "Reading the quantities of a space spreads each stored quantity, within its own set of attribute values, over exactly those index records that carry every label of the quantity's location, in proportion to the weights of the weight group in effect; the undefined record receives nothing unless it is the only match, and when the matching weights sum to zero the split is even. For each set of attribute values the results therefore add up to the stored quantities whose locations fit one of the space's partitions, none is lost, duplicated or moved to another attribute set, and no result appears at a record that does not carry the location's labels. If the default weights are incomplete, or a location that fits a partition matches no index record, reading fails with an error instead of giving wrong numbers.",
 ['inputs','histories'],'every index, partition set, weight assignment and set of stored quantities (including zero, negative and fractional quantities, zero weights, and partially labelled locations), whatever sequence of edits produced them',
 'The existing tests read a handful of fixed three-column spaces; conservation and proportionality are claims about every combination of labels, partitions, weights and quantities.',
 ['space.py','data_service.py','reader.py','dal1/repositories.py'],
 [('DataSpace._disaggregate','space.py'),('disaggregate_value','data_service.py'),('QuantityRepository.find_by_structure / IndexRepository.filter_index_ids_by_label','dal1/repositories.py'),('NodeReader','reader.py')],['rows yielded by iterating space()'])

p('P02','Quantizing gives whole values and keeps the exact total',
 "When quantizing is requested, splitting a quantity over several records (during disaggregation or translation) yields results that still add up to that quantity, every split value is a whole number when the quantity is a whole number, at most one result carries the fractional remainder otherwise, and every result is within one unit of its exact unrounded share. A quantity that is not split is passed through unchanged, and without the request no rounding takes place.",
 ['inputs'],'every list of shares and every total, including fractional, negative and zero totals, ties between remainders and empty or one-element splits',
 'Tests check a few hand-rounded lists; largest-remainder rounding fails on ties, negative values, float noise near integers or totals that the fixed examples do not contain.',
 ['_utils.py','space.py','reader.py'],
 [('quantize_values','_utils.py'),('DataSpace._disaggregate(quantize=True)','space.py'),('NodeReader.translate(quantize=True)','reader.py')],['space(quantize=True) rows','translated rows'])

p('P03','Translation moves every quantity across a link by its proportions',
 "Translating the results of one space to another sends each value to the target records that the chosen link maps its source record to, multiplied by the link's proportions, so that for every set of attribute values the total before and after translation is equal (up to float rounding) and attributes are unchanged; values at the undefined source record stay at the undefined target record. Translating through several spaces in turn composes the individual translations. Only links that match the source space's current index are used: if there is none, or no default link among them, translation fails with an error and yields nothing.",
 ['inputs','histories'],'every pair or chain of spaces, mapping, link choice and quantity set, including edits of the source index after the link was built',
 'The tests translate a few records through one fixed link; totals are only preserved if hashes, proportions, undefined handling and link choice agree for every mapping and edit history.',
 ['reader.py','graph.py','data_service.py'],
 [('NodeReader.translate','reader.py'),('make_get_link_id_func','data_service.py'),('MappingRepository.refresh_proportions','dal1/repositories.py')],['rows of reader after translate / >>'])

p('P04','The most specific matching selector decides which weights or link apply',
 "For each set of attribute values, the weight group used to disaggregate it and the link used to translate it is the complete one with the greatest specificity of matching selectors that no other candidate shares; when no selector matches, or every such specificity is shared, the default is used. Incomplete weight groups and locally incomplete links are never chosen through their selectors, and the choice does not depend on the order in which candidates were added.",
 ['inputs'],'every collection of weight groups or links with selectors, every set of attribute values',
 'Tests use one or two selectors with fixed attribute rows; ties, nested pseudo-classes and incomplete candidates multiply far beyond them.',
 ['selectors.py','space.py','data_service.py'],
 [('get_greatest_unique_specificity','selectors.py'),('DataSpace._disaggregate','space.py'),('make_get_link_id_func','data_service.py')],['which weights/proportions the resulting rows follow'])

p('P05','Selectors parse, print, match and rank as the selector language defines',
 "A selector accepts or rejects a row of attributes exactly as the language defines: presence, equality, whitespace-separated word, hyphen-prefix, prefix, suffix and substring operators, case-insensitivity on request, conjunction of compound parts, and the negation, any-of and where pseudo-classes. Printing a parsed selector and parsing the result again gives an equal selector with the same meaning and specificity, where specificity counts attribute tests and, second, those that compare a value, adds up over compound parts, takes the maximum inside negation and any-of, and is zero for where. Text that is not a selector, or that compares with an empty value, is refused with an error.",
 ['inputs'],'every selector expressible in the grammar (any names and values, quotes and escapes included) and every row; every text for rejection',
 'The tests list about a hundred literal selectors; nesting, escaping and operator edge values are infinite.',
 ['selectors.py'],
 [('parse_selector and grammar','selectors.py'),('Selector/SimpleSelector/CompoundSelector/pseudo-classes','selectors.py')],['parse_selector(text), str(), call, .specificity'])

p('P06','Filtering, regrouping, caching and pivoting never change the numbers',
 "Restricting a read to selectors returns exactly the results whose stored attribute values match at least one of the given selectors; summing by chosen attributes, keeping results on drive instead of in memory, or pivoting attribute values into columns only regroups the same results. Each combination of index record and attribute values appears once, and totals per record are those of the plain read.",
 ['inputs','configurations'],'every stored data set, list of selectors, set of attributes to keep and cache option',
 'Tests compare a few literal outputs and never compare these access paths with each other.',
 ['space.py','reader.py'],
 [('DataSpace.__call__','space.py'),('NodeReader','reader.py'),('pivot_reader','reader.py')],['rows of space(...), pivot_reader(...)'])

p('P07','Index records keep unique labels and never-reused ids through any history',
 "After any sequence of inserting, updating, merging and deleting index records, the index contains exactly the records the operations define: no two records share all labels, an id always denotes the record it was given to and is never given to a later record, and the undefined record (id 0, all labels '-') always exists unchanged. Selecting by label criteria returns exactly the records that carry those labels. Two states of one space have the same index fingerprint if and only if they contain the same ids, so stored links to it go stale exactly when ids are added or removed.",
 ['histories'],'every sequence of index operations, including rows with empty labels, duplicates, unknown ids and labels with arbitrary text',
 'Tests perform one operation at a time on a four-row index; identity and uniqueness are invariants of arbitrarily long histories.',
 ['space.py','dal1/repositories.py','dal1/schema.py','_utils.py'],
 [('DataSpace.insert_index/update_index/delete_index','space.py'),('label_index triggers and UNIQUE index','dal1/schema.py'),('SequenceHash','_utils.py')],['select_index rows','fingerprint seen by translation'])

p('P08','Merging or deleting index records carries their weights and mappings along',
 "When two index records are merged, the surviving record has the sum of their weights in every weight group and the combined mapping values and proportions of every link, and nothing that belonged to other records changes; when a record is deleted, its own weights and mappings disappear and those of other records stay. Afterwards no weight or mapping refers to a missing record, each link's proportions are again consistent with its values, and ambiguous mappings block deletion with an error that changes nothing.",
 ['histories'],'every weight and mapping assignment and every sequence of merges and deletions',
 'The tests merge or delete single records in one fixture; sums across several groups, links and mapping levels in longer histories are not reached.',
 ['space.py','data_service.py','dal1/repositories.py'],
 [('DataSpace.update_index/delete_index','space.py'),('merge_by_index_id','dal1/repositories.py'),('delete_index_record','data_service.py')],['select_weights, select_mappings, links'])

p('P09','Weight groups hold exactly what was loaded and know when they are complete',
 "After any sequence of adding, editing and dropping weight groups and of inserting, updating and deleting weights, each group holds exactly the weights those operations define under the chosen conflict rule, no weight is negative, and the undefined record has none. A group that is reported complete by the loading operations has a weight for every index record, and deleting a weight or adding an index record makes a complete group incomplete. Dropping a group removes its weights for good, they never reappear under a later group, and the default group is the last one made default that still exists.",
 ['histories'],'every sequence of weight and weight-group operations on spaces in memory, loaded from a file or bound to a file',
 'Tests apply single operations in memory; completeness flags and leftovers after drops only show in histories and on file-backed spaces.',
 ['space.py','data_service.py','dal1/repositories.py'],
 [('DataSpace.*_weight*','space.py'),('WeightRepository.add_or_resolve / weight_group_is_complete','dal1/repositories.py'),('get/set_default_weight_group','data_service.py')],['select_weights, weight_groups, get_default_weight_group'])

p('P10','Mapping proportions, currency and completeness always match the mappings',
 "After any insertion, update, deletion or reclassification of mappings, the proportions of each source record within a link are its mapping values divided by their total (equal shares if the total is zero) and add up to one; mappings from the undefined record carry no proportion. A link counts as current exactly when the source records it maps are all the records of the source's index, and as locally complete exactly when every index record is mapped. Reclassifying ambiguous mappings as exact changes their level only, not their values or proportions, and touches only mappings fully determined by the given criteria.",
 ['histories'],'every sequence of mapping operations over every mix of mapping levels',
 'Tests check proportions after one insertion of a fixed list; updates and deletions in other orders and levels are not covered.',
 ['space.py','dal1/repositories.py'],
 [('DataSpace.insert_mappings2/update_mappings/delete_mappings/reify_mappings','space.py'),('MappingRepository.refresh_proportions/mapping_is_complete/find_distinct_other_index_ids','dal1/repositories.py')],['select_mappings','links','values after translation'])

p('P11','Links are unique per source and name, with one default, and found by reference',
 "Within a space, a link name is unique per source space and at most one link per source is the default, after any sequence of adding, editing and dropping links. A link can be found by the source's full id, its file name with or without extension, or at least seven leading characters of its id; a reference that fits several sources, no link, or several links without a name or default is an error rather than an arbitrary choice. Dropping a link removes its mappings for good and affects no other link.",
 ['histories','inputs'],'every sequence of link operations and every reference string',
 'Tests look up a few literal references; ambiguity and default hand-over depend on combinations of several links and sources.',
 ['space.py','data_service.py','dal1/repositories.py'],
 [('DataSpace.add_link/edit_link/drop_link/get_link','space.py'),('get_links_by_ref, get_link','data_service.py')],['links, get_link, select_mappings'])

p('P12','Stored quantities are exactly those loaded, once per location and attributes',
 "After any sequence of loads, a space holds exactly one quantity for each distinct combination of location labels and attribute values that was accepted, with the value determined by the chosen rule for existing data (refuse, keep, replace or add). Rows without attribute values are skipped; rows whose labels fit no partition or no index record, or whose domain differs, are refused unless explicitly allowed. Selecting quantities returns exactly these rows, with every attribute in its own registered column.",
 ['histories','inputs'],'every sequence of loads with every rule and flag, over partially labelled locations and sparse attributes',
 'Tests load a few fixed rows per option; the combinations of duplicate keys, sparse attributes and flags across several loads are not reached.',
 ['space.py','dal1/repositories.py'],
 [('DataSpace.insert_quantities2/select_quantities2','space.py'),('get_by_labels_add_if_missing / get_by_value_add_if_missing','dal1/repositories.py')],['select_quantities2 rows'])

p('P13','Unmatched-quantity cleanup removes exactly what disaggregation cannot use',
 "The unmatched quantities a space reports are exactly those stored at locations that fit no partition or carry labels found in no index record, and the report of quantities without index lists exactly those of the second kind. Deleting them removes those and no others, leaves no leftover records behind them, and afterwards the reports are empty, reading the space does not fail for lack of an index record, and every remaining quantity is unchanged.",
 ['histories'],'every set of stored quantities after any index and partition changes, on spaces in memory, loaded from or bound to a file',
 'The tests delete once from one in-memory fixture; leftover rows on file-backed spaces and mixtures of both kinds are not observed.',
 ['space.py','data_service.py','dal1/repositories.py','dal1/data_connector.py'],
 [('DataSpace.select_/delete_unmatched_quantities and *_without_index','space.py'),('find_nonmatching_locations, find_locations_without_index','data_service.py'),('foreign key cascades','dal1/schema.py')],['select_unmatched_quantities','select_quantities','raw tables after to_file'])

p('P14','Partitions generate a union-closed structure with correct granularity',
 "The partitions of a space are always a minimal generating set whose unions, together with the empty set and the whole set of label columns, are exactly the label combinations accepted for quantities and mappings; adding a partition already covered by the others is refused or reported, and the whole space can never be dropped. The granularity of every partition is the Shannon entropy of the index records grouped by its labels after any index or partition change, so a finer partition never has lower granularity, and the fast and the plain calculation agree.",
 ['histories','inputs'],'every sequence of partition and index changes',
 'Tests check fixed lists of three or four columns; closure and minimality are combinatorial, and stale granularity only shows after later index changes.',
 ['partitions.py','data_service.py','space.py','dal1/optimizations.py'],
 [('make_structure, find_minimal_partition_generating_set','partitions.py'),('calculate_granularity, rebuild_structure_table, refresh_*granularity','data_service.py'),('optimized calculate_granularity','dal1/optimizations.py')],['partition_definitions','accepted quantity rows','structure table of the saved file'])

p('P15','Adding, renaming, dropping or reordering label columns keeps the data',
 "Adding a label column keeps every record, weight, quantity and mapping and gives existing records the default label in it; renaming changes the name everywhere it is shown and nothing else; dropping a column keeps the remaining labels, ids, weights and quantities; changing the display order changes only the order. The listed label columns are always exactly the existing ones, once each, partitions only mention existing columns, and any non-empty text is usable as a column name unless it is reserved or already used, whatever quotes, spaces or keywords it contains.",
 ['histories','inputs'],'every sequence of column changes interleaved with data, with arbitrary names',
 'Tests use simple identifiers and one change at a time; display order, partitions and structure go out of step only after combinations.',
 ['space.py','dal1/label_manager.py','data_service.py'],
 [('DataSpace.add_index_columns/rename_label_column/rename_index_columns/drop_index_columns/change_label_order','space.py'),('LabelManager','dal1/label_manager.py')],['get_label_columns, index_columns, partition_definitions, all select methods'])

p('P16','An operation that fails leaves the space exactly as it was',
 "If an operation that changes a space raises an error, whether because of an invalid row anywhere in its input, an input stream that breaks off, or invalid arguments, then nothing it did is kept: every later read returns what it would have returned before the call, and the space stays fully usable. An operation that returns has made all of its changes.",
 ['fault_sequences','histories'],'every modifying operation, every position of the failure in its input, every prior history, in memory and bound to a file',
 'A few tests check one failing row; the claim is over every operation and failure position.',
 ['space.py','dal1/data_connector.py'],
 [('DataSpace._managed_transaction','space.py'),('transaction_begin/commit/rollback','dal1/data_connector.py')],['raw table contents before and after the failing call'])

p('P17','A space behaves the same in memory, saved and loaded, or bound to a file',
 "Saving a space to a file and reading or binding it again gives a space with the same id, the same contents and the same behaviour: any further sequence of operations produces the same results and the same stored data as on the original. A bound space writes each completed change to its file, a loaded space never changes the file it was read from, and a space bound read-only refuses changes and leaves the file's bytes untouched.",
 ['histories','configurations'],'every history split at every point by a save and reload in each mode (memory, on-drive cache, bound new file, bound existing file)',
 'Tests save and reload a nearly empty space once; differences in connection settings only surface through later operations.',
 ['dal1/data_connector.py','space.py','data_access.py'],
 [('DataConnector.read_from_file/bind_file/save_to_file/acquire_connection','dal1/data_connector.py'),('read_file, bind_file','space.py')],['results and raw tables of twin spaces'])

p('P18','A crash or fault while saving or writing never leaves a half-written file',
 "If the process dies or an error strikes at any moment while a space is being saved, the destination path holds either its complete previous content or the complete new space, and a failed save that raises leaves no temporary files behind. If the process dies at any moment during a change to a bound file, the file still opens and holds the state before or after that change, nothing in between.",
 ['crash_points','fault_sequences'],'every point inside saving and inside each modifying operation at which the process is killed or a file operation fails',
 'Tests save successfully only; no test interrupts a save or a change.',
 ['dal1/data_connector.py','space.py'],
 [('save_to_file (temporary file + os.replace)','dal1/data_connector.py'),('_managed_transaction','space.py')],['the file left on drive'])

p('P19','Files of older format versions open with all their data, and others are refused',
 "Opening a file written in an older supported format for reading into memory or for writing upgrades it without losing or altering any index record, weight, quantity, link, mapping or property, and the result behaves as a file created in the current format; reading into memory leaves the old file itself untouched. A file that is not a space file, or of an unknown format, is refused with an error and its bytes are left unchanged.",
 ['inputs','configurations'],'every content of an old-format file; every non-space file content',
 'Tests migrate two fixed small fixtures; data-dependent loss in the migration steps is not explored.',
 ['dal1/migrations.py','dal1/data_connector.py','data_access.py'],
 [('apply_migrations','dal1/migrations.py'),('get_backend_from_path','data_access.py')],['contents after read_file/bind_file of a generated old file'])

p('P20','Label matching assigns mapping rows to index records as documented',
 "When a mapping is matched to a space, a row with an index id is assigned to that record, and a row with labels is assigned to exactly the records carrying those labels if their number is within the match limit; rows at finer levels take precedence, so an ambiguous row never claims records already matched at another, finer level unless overlapping is allowed, and ambiguous rows lacking a weight are skipped; rows with a blank value are ignored and values that are not numbers are refused. Each assigned row's value is split over its records in proportion to their default weights (evenly when those sum to zero), so the values of all generated mappings add up to those of the rows matched on both sides, in both directions. The mapping is reported fully matched exactly when every defined index record of both spaces is matched.",
 ['inputs'],'every pair of spaces, mapping rows in any order, match limit and overlap option',
 'Tests use one fixed pair of spaces and a few rows; precedence and splitting interact across rows, levels and limits.',
 ['mapper.py'],
 [('Mapper.match_records, _refresh_proportions, iter_mappings, is_fully_matched','mapper.py')],['iter_mappings output, is_fully_matched'])

p('P21','Loading a mapping builds links that carry its values between two spaces',
 "Loading a mapping between two spaces creates, for each requested direction, one link whose mappings combine the rows' values, split by weight over the records they match, and whose recorded source and completeness agree with the two spaces; listing the mapping again shows every matched pair with its value and marks exactly the labels a row left unspecified, plus every record not covered on either side. Loading in both directions gives the same pairs with source and target exchanged, and the choice of input form or column order of the rows does not matter; a load that fails changes neither space.",
 ['inputs'],'every pair of spaces, mapping table, direction, match limit and overlap option',
 'Tests load a fixed mapping between two four-row spaces.',
 ['graph.py','mapper.py','space.py'],
 [('load_mapping, get_mapping','graph.py'),('Mapper_OLD','mapper.py'),('insert_mappings2','space.py')],['get_mapping rows, links'])

p('P22','Exporting through the command line and importing again gives the same data',
 "What the command line exports as CSV for an index with weights, for quantities and for mappings can be imported by the corresponding command into the same or a suitably prepared empty space and reproduces the same records, weights, quantities and mappings. Index codes printed by one space are accepted by that space for exactly the record they were printed for; a damaged code never denotes another record, and codes of another space are rejected.",
 ['inputs'],'every content, with labels containing commas, quotes, line breaks and non-ASCII text; every single-character change of an index code',
 'CLI tests compare fixed CSV text; round trips over arbitrary labels and rejection of damaged codes are not covered.',
 ['cli/common.py','cli/command_index.py','cli/command_quantity.py','cli/command_mapping.py'],
 [('write_to_csv / read csv','cli/common.py'),('get_index_code_position, make index code','cli/common.py'),('command_mapping.read/write','cli/command_mapping.py')],['stdout of export commands; space contents after import'])

p('P23','Reshaping between wide and long tables loses and invents nothing',
 "Converting a wide table to the long form yields, for every input row and every column to stack, exactly one row holding the values of the unstacked columns, the stacked column's name and its cell value, in input order; cells missing from a short row count as missing values or are refused with an error, and so is a table that lacks a column to stack or has a kept column of a new column's name. Every supported form of tabular input (rows with a header, rows with separate column names, dictionaries, csv readers and dict readers, generators of these, columns in any order) of the same table gives the same result when it is reshaped or loaded into a space.",
 ['inputs'],'every wide table, choice of columns and input form',
 'Tests convert a handful of literal tables.',
 ['_utils.py','space.py'],
 [('wide_to_long, wide_to_narrow','_utils.py'),('normalize_tabular, make_readerlike, make_dictreaderlike','_utils.py')],['rows produced; contents after loading'])

p('P24','Names given by users never collide, corrupt or escape',
 "The label columns, registered attributes and reserved names of a space are always disjoint and each listed once: an operation that would make them collide, repeat or use a reserved name is refused and changes nothing. Domain, attribute names, label values, link names, weight-group names, descriptions and selectors are stored and returned exactly as given, whatever characters they contain, and reordering attributes changes only their order.",
 ['histories','inputs'],'every sequence of name-setting operations with arbitrary text',
 'Tests use short ASCII names.',
 ['data_service.py','space.py','dal1/schema.py'],
 [('validate_new_index_columns, set_registered_attributes, change_element_order','data_service.py'),('format_identifier','dal1/schema.py')],['get_registered_attributes, index_columns, domain, links, weight_groups'])

p('P25','Open results are independent of each other',
 "Any number of result iterators of one space can be open at the same time, advanced in any interleaving, abandoned part-way or closed, and as long as the space is not changed each still yields exactly the rows it would yield alone; a disaggregated read result obtained earlier keeps the values it was made from when the space is changed afterwards. Results that were exhausted, closed or dropped never block later changes to the space and leave no temporary files behind.",
 ['schedules','histories'],'every set of simultaneously open iterators and every interleaving of steps, abandonment and later operations',
 'Tests exhaust one iterator at a time.',
 ['space.py','dal1/data_connector.py','reader.py'],
 [('_managed_cursor and cursor pool','dal1/data_connector.py'),('generators of select_* methods','space.py'),('NodeReader temporary database','reader.py')],['rows yielded under interleaving vs alone'])

p('P26','Label-combination bit patterns and fingerprints keep their algebra',
 "The compact bit pattern that records which labels a mapping or location uses round-trips through its byte form, compares and hashes equal regardless of trailing unset positions, and its union agrees with the union of the sets of label columns it stands for. The fingerprint of an ordered id sequence depends on the sequence only, not on how it was fed in, is the same across processes, and differs for different sequences; a sequence that is not strictly increasing or contains an impossible id is refused.",
 ['inputs'],'every bit pattern of every length and every integer sequence',
 'Tests list a few patterns of up to nine bits.',
 ['_utils.py'],
 [('BitFlags','_utils.py'),('SequenceHash','_utils.py')],['bytes(), ==, hash(), |, get_hexdigest'])

p('P27','The legacy node disaggregates and translates with the same guarantees',
 "A legacy node (xNode) whose first weighting covers every record disaggregates each quantity that lies at a level of its structure and has matching records over these records, in proportion to the best matching complete weighting (static) or to what is already there with the same attributes from finer levels (adaptive), so totals per attribute set are preserved. Translating over its edges divides each value over the related records in proportion to the relation values of the best matching complete edge, and so preserves totals; an edge built from labelled rows spreads each row's value over the records it matches in proportion to their weights. Its contents are the same after being saved and reopened, in memory or on drive.",
 ['inputs','histories'],'every index, weight set, quantities and mapping within the legacy node\'s domain',
 'Tests compare fixed outputs of one or two small data sets.',
 ['_dal.py','_schema.py','xnode.py','_xmapper.py'],
 [('DataAccessLayer.static_disaggregate/adaptive_disaggregate/translate','_dal.py')],['static_disaggregate(), adaptive_disaggregate() and translate() rows; index, weight, structure, edge and raw quantity records'])

p('P28','Each editing command does what the library call does, and keeps a backup',
 "Every command of the program that creates or edits files (init; add, update, rename or remove label, partition, attribute, weight, link and domain; index and quantity from a stream) has exactly the effect on the named files of the corresponding library calls, or is refused with a non-zero exit and leaves each file in its previous state. Unless --no-backup is given, a command that changes a file leaves its previous contents in backup-NAME beside it, and with it no backup is touched. Commands that show something change no file, and info names the domain and every partition, weight group, attribute and incoming link, with their default and completeness notes.",
 ['histories','inputs'],'every sequence of commands on a pair of files, their options and ways to spell names',
 'Tests run each command once on one prepared file, mostly with one-letter names, and compare messages.',
 ['cli/main.py','cli/common.py','cli/command_add.py','cli/command_update.py','cli/command_rename.py','cli/command_remove.py','cli/command_init.py','cli/command_info.py'],
 [('main','cli/main.py'),('process_backup_option','cli/common.py')],['files before and after a command; backup-NAME files; exit status; output of info'])

p('P29','Spaces bound to one file act as one, also when operations overlap',
 "Several spaces bound to one file see each other's completed changes and nothing of unfinished ones: a space bound earlier never returns stale data, whatever was read through it before. Operations that overlap have the effect of running one after another in some order, or fail with an error and change nothing. An operation that failed because the file was in use succeeds when it is repeated later.",
 ['schedules','histories'],'every sequence of operations through several handles of one file, and every pair of operations of which one runs at any point of the other',
 'Tests use one handle at a time; stale caches and lost updates need a second handle that changes the file before or during an operation.',
 ['space.py','dal1/data_connector.py','dal1/repositories.py'],
 [('DataSpace._managed_transaction','space.py'),('DataConnector','dal1/data_connector.py')],['reads through every handle after every operation; errors of overlapping operations'])

p('P30','Reported counts of loaded, changed and skipped rows are true',
 "The messages and warnings of an operation that takes rows or label criteria (loading, updating, deleting index records, weights, mappings and quantities, and reifying mappings) report for each outcome exactly the number of rows, records or values that had it, and no row is left out without a report. Matching and loading a mapping reports how many rows were left out for each reason, how many overlapping matches were included or omitted and how many records remain uncovered on each side, and says that a mapping matches cleanly, or that a weight group is complete, exactly when it does.",
 ['inputs','histories'],'every mix of valid, mismatched, repeated, empty and unknown rows, every conflict option, and every state they are applied to',
 'Tests check the messages of a few prepared inputs with one or two kinds of rows; counts go wrong in mixtures, repeated rows and particular options.',
 ['space.py','mapper.py','graph.py'],
 [('warn_if_issues and the counters of the operations','space.py'),('Mapper.match_records','mapper.py'),('_log_load_mapping_stats','graph.py')],['messages of the logger app-toron and ToronWarning texts'])

p('P31','The description of a space says what the space holds',
 "The printed form of a space and the info command show its domain, every partition with its granularity, every weight group and every link (grouped by source) with notes that say exactly which are default and which incomplete, and every registered attribute, each once and nothing else; describing a space changes nothing in it. Granularities are rounded to the fewest decimals, at least three, at which different values look different from each other and from zero, and equal values look the same.",
 ['inputs','histories'],'every state a space can reach through its operations, with arbitrary names, in memory or in a file, and every list of granularities',
 'Tests print two or three prepared spaces; wrong notes, missing sources and figures that collide appear in other combinations.',
 ['data_service.py','formatters.py','space.py','cli/command_info.py'],
 [('get_dataspace_info_text','data_service.py'),('format_granularity, sort_partition_definitions','formatters.py'),('DataSpace.__repr__','space.py')],['repr(space)','output of the info command'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
