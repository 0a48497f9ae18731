"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'].strip()} | {m['what_it_breaks'].strip()} |".replace('\n', ' '))
text = (root / 'DESIGN.md').read_text()
head = text.split('## Planted bugs')[0]
body = '''## Planted bugs

Each bug is caught by the quick check of its own property (`python3 tools/plant.py
run ID` applies it to /repo, runs the check, and undoes it).  The generators
first missed b20b (a header default that only shows for one kind of variable),
b23b (a proper subset of a group of aliases) and b29d (the full array of an axis
requested before its unit is changed) and were strengthened.  A
campaign of about a thousand syntactic mutants of the whole package, each run
against the tests and then against the checks that reach the mutated line, was
used in the same way: survivors were read one by one, and either are
equivalent or cosmetic (messages, printing) or led to a stronger generator.

| id | caught by | needs | breaks |
|----|-----------|-------|--------|
'''
(root / 'DESIGN.md').write_text(head + body + '\n'.join(rows) + '\n')
