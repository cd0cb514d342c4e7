#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json and tools/bug_notes.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(f'{here}/tools/bug_notes.json'))
rows = []
for b in sorted(os.listdir(f'{here}/seeded')):
    m = json.load(open(f'{here}/seeded/{b}/meta.json'))
    n = notes.get(b, {})
    rows.append(f"| {b} | {m['needs']} | {n.get('caught', m['property'])} | {n.get('note', '')} |")
head = '''## 6. Planted bugs

%d changes in `seeded/`, each verified in a scratch copy: it compiles, the 78 tests pass, its demonstration passes without
it and fails with it. All are caught by their property's check (`tools/seed_check.sh BUG...` applies, checks, undoes).
"First missed" says what the checks lacked when the bug was planted.

| bug | needs | caught by | first missed |
|---|---|---|---|
''' % len(rows)
s = open(f'{here}/DESIGN.md').read()
i = s.index('## 6. Planted bugs')
s = s[:i] + head + '\n'.join(rows) + '\n'
open(f'{here}/DESIGN.md', 'w').write(s)
