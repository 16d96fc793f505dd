"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = ('static dataflow: abstract interpretation of the source with value '
        'numbering; terms compared by normal form and random-interpretation '
        'identity testing')
NOTE = ('Other assurance (static analysis). Decides the listed obligations '
        'for all inputs of the stated shape on the terms the source '
        'computes; floating point is treated as real arithmetic; NumPy/SciPy '
        'library calls follow built-in models; terms the interpreter cannot '
        'follow are reported as undecided in the evidence, never as '
        'violations. Term equality is tested at random points over exact/high '
        'precision arithmetic, so two different terms are told apart with '
        'overwhelming probability.')


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         technique=TECH, note=NOTE, claimed=True, reason=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors=a))
    if claimed:
        CH.append(dict(
            property=id,
            quick_cmd='python3 /verif/sa/check.py %s' % id,
            thorough_cmd='python3 /verif/sa/check.py %s --thorough' % id,
            evidence_file='evidence/%s.json' % id,
            technique=technique, level='other', level_note=note))
    else:
        NA.append(dict(property=id, reason=reason))


CH = []
exec(open(os.path.join(VERIF, 'tools', 'props_table.py')).read())


def main():
    assert len({p['id'] for p in P}) == len(P)
    for p in P:
        assert len(p['title']) <= 80, p['title']
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps(p) + '\n')
    m = {'version': 1,
         'setup_cmd': 'python3 -m compileall -q /verif/sa >/dev/null 2>&1 || '
                      'true',
         'checks': sorted(CH, key=lambda c: c['property']),
         'not_applicable': sorted(NA, key=lambda c: c['property']),
         'notes': 'All checks read the source under /repo on every run and '
                  'never import or run it; python3 standard library only. '
                  'Findings are keyed by rule and construct in '
                  'known_findings.txt.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(CH), 'checks', len(NA), 'not applicable')


main()


def design():
    """Refresh the table of planted bugs in DESIGN.md."""
    import glob
    import re
    by = {}
    for f in sorted(glob.glob(os.path.join(VERIF, 'seeded/*/meta.json'))):
        by.setdefault(json.load(open(f))['property'], []).append(
            os.path.basename(os.path.dirname(f)))
    rows = ['| property and check | planted bugs it catches |', '|---|---|']
    rows += ['| %s | %s |' % (k, ', '.join(by[k])) for k in sorted(by)]
    p = os.path.join(VERIF, 'DESIGN.md')
    s = open(p).read()
    s = re.sub('(?s)<!-- seeds -->.*<!-- /seeds -->', lambda m:
               '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s)
    open(p, 'w').write(s)


design()
