#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def line(p):
    return {
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                    'hook_needed': None},
    }


def main():
    for p in props.P + props.NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['title']
        for f in p['files']:
            assert os.path.exists(os.path.join('/repo', f)), f
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in props.P + props.NOT_APPLICABLE:
            f.write(json.dumps(line(p)) + '\n')
    checks = []
    for p in props.P:
        own = os.path.exists(os.path.join(V, 'sa', 'checks', p['id'].lower() + '.py'))
        tech, note = props.technique(p['id'], own)
        checks.append({
            'property': p['id'],
            'quick_cmd': 'VERIF_TIER=quick python3 sa/run.py ' + p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough python3 sa/run.py ' + p['id'],
            'technique': tech, 'level': 'other', 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'python3 sa/gen.py --check', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in props.NOT_APPLICABLE],
         'notes': 'No hooks: the checks read the MIR of the unmodified crate. Known findings: known-findings.json.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design()


def between(s, a, b, text):
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + text + '\n' + s[j:]


def design():
    """The sections of DESIGN.md that repeat what the machinery knows."""
    out = []
    for p in props.P:
        out.append('**%s %s.** Quantifies over %s.' % (p['id'], p['title'], p['text']))
        out.append('Agreement of the functions in %s.' % ', '.join('`%s`' % f for f in p['files']))
        f = os.path.join(V, 'sa', 'checks', p['id'].lower() + '.py')
        if os.path.exists(f):
            doc = importlib.import_module('checks.' + p['id'].lower()).__doc__
            out.append('Written rules:\n\n```\n%s\n```' % doc.strip())
        if p['id'] in props.LIMITS:
            out.append('Out of reach: ' + props.LIMITS[p['id']])
        out.append('')
    path = os.path.join(V, 'DESIGN.md')
    s = open(path).read()
    s = between(s, '<!-- properties (written by sa/gen.py) -->', '<!-- end -->', '\n'.join(out))
    rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
    sd = os.path.join(V, 'seeded')
    for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], m.get('caught_by', 'agreement')))
    s = between(s, '<!-- seeded (written by sa/gen.py) -->', '<!-- end seeded -->', '\n'.join(rows))
    open(path, 'w').write(s)


if __name__ == '__main__':
    if '--check' in sys.argv:
        json.load(open(os.path.join(V, 'MANIFEST.json')))
        import mir
        print(len(mir.dump_mir()), 'bytes of MIR')
    else:
        main()
