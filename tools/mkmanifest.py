"""Writes MANIFEST.json from the check table and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    c = CHECKS[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': f"python3 tools/check.py run {p['id']} --tier quick",
        'thorough_cmd': f"python3 tools/check.py run {p['id']} --tier thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': c['technique'],
        'level': c.get('level', 'exploration'),
        'level_note': 'Searches generated cases against an explicit oracle; shows violations, cannot exclude them outside of what was generated. Assumes: '
                      + '; '.join(c['assumptions']) + '.',
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py setup', 'checks': checks, 'not_applicable': [],
     'notes': 'All checks are Go programs of the module in harness/, built against /repo; see DESIGN.md. Defects found are in known-findings.txt. '
              'python3 tools/check.py replay PATH runs a replay file again.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
