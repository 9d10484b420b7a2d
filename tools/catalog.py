#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json.

Texts of the checks' design are in DESIGN.md.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ('Random search with an independent oracle: no counterexample among the '
         'cases of the run, no proof. ')

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique,
         note='', observe=None):
    assert len(title) <= 80, id
    PROPS.append(
        dict(id=id, title=title, statement=' '.join(statement.split()),
             over=over, text=' '.join(text.split()), why=' '.join(why.split()),
             files=files, mechanism=mechanism, technique=technique,
             note=TRUST + ' '.join(note.split()), observe=observe))


exec(open(os.path.join(VERIF, 'tools', 'catalog_text.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            anchors = dict(files=p['files'],
                           mechanism=[dict(name=n, where=w) for n, w in p['mechanism']])
            if p['observe']:
                anchors['observe_at'] = p['observe']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'], anchors=anchors), ensure_ascii=False) + '\n')
    checks = []
    for p in PROPS:
        if p['technique'] is None:
            continue
        cmd = f"python3 tools/run.py check {p['id']}"
        checks.append(dict(property=p['id'], quick_cmd=cmd,
                           thorough_cmd=f"VERIF_TIER=thorough {cmd}",
                           technique=p['technique'], level='exploration',
                           level_note=p['note']))
    manifest = dict(version=1, setup_cmd='python3 tools/run.py setup', checks=checks,
                    not_applicable=NOT_APPLICABLE, notes=NOTES)
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')
    have = {f[:3] for d in ('core', 'variable', 'dataset', 'python')
            for f in os.listdir(os.path.join(VERIF, 'harness', d)) if f[0] == 'C'}
    claimed = {c['property'] for c in checks}
    assert have == claimed, (have ^ claimed)


if __name__ == '__main__':
    main()
