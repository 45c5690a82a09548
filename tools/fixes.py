"""Regenerates KNOWN_FINDINGS.jsonl: fixed entries from the fix: commits of /repo plus open.json entries.

A fix commit belongs to the property given in MAP (by subject); run once after committing a fix.
"""
import json
import pathlib
import subprocess

root = pathlib.Path(__file__).resolve().parent.parent
MAP = json.loads((root / 'tools' / 'fixmap.json').read_text())
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        p, what = MAP[s[5:]]
        out.append({'property': p, 'status': 'fixed', 'text': f'fixed: property={p} {h} {what}'})
op = root / 'tools' / 'open.json'
if op.exists():
    out += json.loads(op.read_text())
(root / 'KNOWN_FINDINGS.jsonl').write_text(''.join(json.dumps(o) + '\n' for o in out))
print(len(out))
