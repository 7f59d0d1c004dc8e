#!/usr/bin/env python3
"""Fills in the generated parts of DESIGN.md."""
import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def fill(text, key, body):
    a, b = '<!-- %s -->' % key, '<!-- /%s -->' % key
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + body.strip() + '\n' + text[j:]


def contracts():
    from marxsvc import contract, load
    load.import_marxs()
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    out = []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        if p['id'] not in [c['property'] for c in man['checks']]:
            continue
        importlib.import_module('contracts.' + p['id'].lower())
        out += ['#### %s %s' % (p['id'], p['title']), '']
        try:
            c = json.load(open(os.path.join(ROOT, 'evidence', p['id'] + '.json')))['coverage']
            out += ['%d functions of /repo under contract.' % len(c['functions_under_contract']), '']
        except Exception:
            pass
        out += ['| contract | decided for | what is specified |', '|---|---|---|']
        for c in contract.CONTRACTS:
            if c.prop == p['id']:
                how = 'bounded: ' + c.bounded if c.bounded else 'sizes: ' + c.sizes if c.sizes else 'all'
                out.append('| %s | %s | %s%s |' % (c.name, how, re.sub(r'\s+', ' ', c.doc).replace('|', '/'),
                                                 ' (assumes: %s)' % '; '.join(c.assumes) if c.assumes else ''))
        out.append('')
    return '\n'.join(out)


def main():
    f = os.path.join(ROOT, 'DESIGN.md')
    t = open(f).read()
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    t = fill(t, 'contracts', contracts())
    t = fill(t, 'na', '\n'.join('* %s: %s' % (n['property'], n['reason']) for n in man['not_applicable']) or 'None.')
    rows = ['| bug | needs | breaks | caught by |', '|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['needs'], d['what_it_breaks'], d.get('caught_by', d['property'])))
    t = fill(t, 'seeded', '\n'.join(rows))
    k = [l.strip() for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) if l.startswith(('fixed:', 'known:'))]
    t = fill(t, 'findings', '\n'.join('* ' + l for l in k))
    open(f, 'w').write(t)


main()
