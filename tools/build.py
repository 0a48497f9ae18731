#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/properties/*.json."""

import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent
ROOT = HERE.parent

TECHNIQUE = 'property-based testing: '


def main():
    items = []
    for path in sorted((HERE / 'properties').glob('*.json')):
        items.append(json.loads(path.read_text()))
    lines, checks = [], []
    for p in items:
        check = p.pop('check')
        lines.append(json.dumps(p, ensure_ascii=False))
        checks.append({
            'property': p['id'],
            'quick_cmd': f"python3 check.py {p['id']} --tier quick",
            'thorough_cmd': f"python3 check.py {p['id']} --tier thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': TECHNIQUE + check['technique'],
            'level': 'exploration',
            'level_note': check['note'],
        })
    (ROOT / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 tools/setup.py',
        'checks': checks,
        'not_applicable': [],
        'notes': (
            'Every check re-executes itself with the interpreter of /repo'
            ' (/opt/venv/bin/python) and imports goats from /repo/src, so there'
            ' is nothing to build. No hooks were needed in /repo.'
        ),
    }
    (ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')


if __name__ == '__main__':
    main()
