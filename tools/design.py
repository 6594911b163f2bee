#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text below, rule texts from sa/rules, measured sizes from evidence (if present), findings and seeded bugs."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
import check            # noqa: E402
from sa import framework  # noqa: E402

HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()


def main():
    check.load_rules()
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    bounds = json.load(open(os.path.join(HERE, 'tools', 'bounds.json')))
    na = {x['property']: x['reason'] for x in man.get('not_applicable', [])}
    out = [HEAD, '\n## 3. The properties and how each is decided\n']
    for p in props:
        if p['id'] in na:
            continue
        r = framework.RULES[p['id']]
        b = bounds.get(p['id'], {})
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append('*Stated for*: %s.\n' % p['quantifier']['text'])
        out.append('*Analysed by* %s. *Rule*: %s\n' % (r.technique, r.rule_text))
        if b.get('bounds'):
            out.append('*Bounds*: %s\n' % b['bounds'])
        if b.get('size'):
            out.append('*Size on the current tree*: %s.\n' % b['size'])
        out.append('*Beyond tests*: %s\n' % p['why_tests_cant'])
    out.append('## 4. Not applicable\n')
    for p in props:
        if p['id'] in na:
            out.append('- **%s %s** - %s' % (p['id'], p['title'], na[p['id']]))
    out.append('\n## 5. Defects found in the repository\n\nAll were shown on the real code and repaired with a `fix:` commit; each check reports the violation again when its commit is reverted.\n')
    for l in open(os.path.join(HERE, 'known_findings.jsonl')):
        l = l.strip()
        if l.startswith('fixed: '):
            out.append('- ' + l[len('fixed: '):])
        elif l.startswith('{'):
            d = json.loads(l)
            out.append('- property=%s OPEN: %s' % (d['property'], d['what']))
    out.append('\n## 6. Planted bugs\n\nEach passes the stable tests; demo.sh passes without and fails with it. "Caught" is the check of the property named in meta.json run on the patched tree.\n')
    out.append('| bug | property | needs | caught |\n|---|---|---|---|')
    sd = os.path.join(HERE, 'seeded')
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], caught.get(d, '?')))
    out.append('\n' + TAIL)
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
