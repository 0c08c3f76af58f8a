"""Adds or replaces one line of properties.jsonl and one entry of MANIFEST.json
(used while writing, not by the checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def put(id, title, statement, over, text, why, files, mech, observe=(), script=None, level_note='', technique='', hook=None):
    p = os.path.join(V, 'properties.jsonl')
    rows = [json.loads(l) for l in open(p)] if os.path.exists(p) else []
    rows = [r for r in rows if r['id'] != id]
    assert len(title) <= 80, title
    rows.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                 'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [dict(name=n, where=w) for n, w in mech],
                 'observe_at': list(observe), 'hook_needed': hook}})
    rows.sort(key=lambda r: r['id'])
    open(p, 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
    p = os.path.join(V, 'MANIFEST.json')
    m = json.load(open(p)) if os.path.exists(p) else {
        'version': 1, 'setup_cmd': 'python3 -m compileall -q lib checks',
        'hooks': {'guard': 'CXY_VP_HOOKS', 'enable': '-DCXY_VP_HOOKS in CMAKE_C_FLAGS of the asan build (lib/vp.py, VARIANTS)',
                  'source_commits': ['5db60f9']}, 'checks': [], 'not_applicable': []}
    m['checks'] = [c for c in m['checks'] if c['property'] != id]
    if script:
        m['checks'].append({'property': id, 'quick_cmd': 'python3 checks/%s' % script,
                            'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s' % script,
                            'technique': technique, 'level': 'exploration', 'level_note': level_note})
        m['checks'].sort(key=lambda c: c['property'])
    json.dump(m, open(p, 'w'), indent=1)
