#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted(root.glob('seeded/*/meta.json')):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['needs']} | {d.get('caught_by', d['property'])} |")
p = root / 'DESIGN.md'
t = p.read_text()
head = '| bug | property | needs | caught by |\n|---|---|---|---|\n'
i = t.index(head) + len(head)
j = re.compile(r'^(?!\|)', re.M).search(t, i).start()
p.write_text(t[:i] + '\n'.join(rows) + '\n' + t[j:])
