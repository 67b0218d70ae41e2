#!/usr/bin/env python3
"""List the functions of /repo that no functional analysis (C26 apart) visited,
according to the evidence files of the last runs."""
import json, glob, re
vis = set()
for f in glob.glob('/verif/evidence/*.json'):
    if 'C26' in f: continue
    vis |= set(json.load(open(f))['coverage'].get('functions_analysed') or [])
for pkg in ['', 'g1pubs', 'g2pubs']:
    for f in sorted(glob.glob('/repo/' + pkg + '/*.go')):
        if f.endswith('_test.go'): continue
        for m in re.finditer(r'^func (?:\((?:\w+ )?\*?(\w+)\) )?(\w+)', open(f).read(), re.M):
            t, n = m.groups()
            base = 'github.com/phoreproject/bls' + ('/' + pkg if pkg else '')
            c = [f'({base}.{t}).{n}', f'(*{base}.{t}).{n}', f'({t}).{n}', f'(*{t}).{n}'] if t else [f'{base}.{n}', n]
            if not any(x in vis for x in c): print(f[6:], t or '', n)
