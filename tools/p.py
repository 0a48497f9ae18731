"""Helper that adds one property description (used while writing them)."""
import json, pathlib, sys


def add(id, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    obj = {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'hook_needed': None,
        },
        'check': {'technique': technique, 'note': note},
    }
    if state:
        obj['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        obj['anchors']['observe_at'] = observe
    path = pathlib.Path(__file__).resolve().parent / 'properties' / f'{id}.json'
    path.parent.mkdir(exist_ok=True)
    path.write_text(json.dumps(obj, indent=1, ensure_ascii=False) + '\n')
