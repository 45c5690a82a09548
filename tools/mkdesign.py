"""Regenerates DESIGN.md from tools/design_body.md, the findings and the planted bugs."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
body = (root / 'tools/design_body.md').read_text()
fixed = sum(json.loads(x)['status'] == 'fixed' for x in (root / 'KNOWN_FINDINGS.jsonl').read_text().splitlines() if x)
rows = []
for d in (root / 'seeded').iterdir():
    m = json.loads((d / 'meta.json').read_text())
    rows.append((m['property'], d.name, m['needs']))
rows.sort()
table = '\n'.join(f'| {n} | {p} | {x} |' for p, n, x in rows)
mut2 = (root / 'tools/mut2.txt').read_text().strip()
for k, v in {'FIXED': fixed, 'SEEDED': len(rows), 'TABLE': table, 'MUT2': mut2}.items():
    body = body.replace(f'@{k}@', str(v))
(root / 'DESIGN.md').write_text(body)
