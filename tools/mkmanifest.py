#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'P01': 'property-based testing (Hypothesis): generated edit histories and quantities against an exact-arithmetic reference model of disaggregation',
 'P02': 'property-based testing: generated shares and totals against exact rational largest-remainder rules, directly and through read and translate',
 'P03': 'property-based testing: generated links and quantities against an exact-arithmetic reference of translation, conservation and composition',
 'P04': 'property-based testing: generated selectors on weight groups and links against an independent specificity model, metamorphic insertion order',
 'P05': 'grammar-based generation of selectors with an independent evaluator, print/parse round trip, and text fuzzing for rejection',
 'P06': 'property-based testing: metamorphic comparison of filtered, regrouped, cached and pivoted reads with the plain read',
 'P07': 'stateful model-based testing of index histories against a reference model',
 'P08': 'stateful model-based testing of merge and delete histories against a reference model',
 'P09': 'stateful model-based testing of weight histories against a reference model, with reloads',
 'P10': 'stateful model-based testing of mapping histories against a reference model',
 'P11': 'stateful model-based testing of link histories and generated reference strings against a reference model',
 'P12': 'stateful model-based testing of quantity loads against a reference model',
 'P13': 'stateful model-based testing of unmatched-quantity reports and cleanup, with reloads',
 'P14': 'model-based testing of partition histories; brute-force closure and entropy oracle',
 'P15': 'stateful model-based testing of label-column histories against a reference model',
 'P16': 'fault injection over generated histories: state dump before and after every failing operation',
 'P17': 'differential stateful testing: the same history in memory, saved and loaded, and bound to a file',
 'P18': 'crash and fault injection at enumerated/generated points with state comparison of the surviving file',
 'P19': 'generated old-format files compared with the current-format original; fuzzed non-space files',
 'P20': 'property-based testing of label matching against a brute-force reference matcher',
 'P21': 'property-based testing of load_mapping/get_mapping against a reference, direction and form metamorphics',
 'P22': 'round-trip property-based testing through the command line entry point; mutation of index codes',
 'P23': 'property-based testing of table reshaping and tabular input forms against a direct reference',
 'P24': 'stateful testing of naming operations with arbitrary text against a reference model',
 'P25': 'generated schedules of interleaved result iterators compared with running each alone',
 'P26': 'property-based testing of algebraic laws against Python sets and integers',
 'P28': 'differential stateful testing: histories of commands against the same library calls on twin files',
 'P29': 'stateful testing over several handles with injected overlapping operations against a serial-equivalence oracle',
 'P30': 'model-based stateful testing: the reference model counts every outcome and the reported numbers must agree',
 'P31': 'model-based stateful testing of the descriptions against a reference model, and property-based testing of the figures with exact fractions',
 'P27': 'property-based testing of the legacy node against a reference disaggregation',
}
NOTE = 'Generated-input search with an explicit oracle; no exhaustive claim beyond the cases counted in the evidence file.'
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        checks.append(dict(property=pid, quick_cmd=f'./check {pid} --tier quick',
                           thorough_cmd=f'./check {pid} --tier thorough',
                           technique=TECH[pid], level='exploration', level_note=NOTE,
                           evidence_file=f'evidence/{pid}.json'))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import hypothesis"', checks=checks, not_applicable=na,
         notes='See DESIGN.md. Replay a failure with: ./check <id> --replay failures/<file>.json')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
