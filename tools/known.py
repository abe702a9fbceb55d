#!/usr/bin/env python3
"""Development aid: regenerates KNOWN_FINDINGS.txt from triaged classes (tools/known_classes.json).
Each class is a property, an id, the diagnosis and regular expressions; the file lists the exact sites.
A site that no class matches is printed and left out, so that it is reported as a violation."""
import json, re, subprocess, sys, os
classes = json.load(open('/verif/tools/known_classes.json'))
only = sys.argv[1:]
path = '/verif/KNOWN_FINDINGS.txt'
old = {}
cur = None
if os.path.exists(path):
    for l in open(path):
        t = l.strip()
        if t.startswith('finding:'):
            f = t.split()
            cur = (f[1].split('=')[1], f[2].split('=')[1])
            old[cur] = []
        elif t.startswith('site:') and cur:
            old[cur].append(t[5:].strip())
props = sorted({c['property'] for c in classes['findings']})
sites = {}
for p in (only or props):
    os.rename(path, path + '.off') if os.path.exists(path) else None
    try:
        out = subprocess.run(['/verif/check.sh', p], capture_output=True, text=True, env={**os.environ, 'VJ_SITES': '1'}).stdout
    finally:
        if os.path.exists(path + '.off'):
            os.rename(path + '.off', path)
    sites[p] = [l.strip()[5:].strip() for l in out.splitlines() if l.startswith('  site:')]
res = ["# Genuine defects of the analysed tree. 'finding:' entries are reported as KNOWN-FINDING and",
       "# do not fail the check; a violation at any other site does. 'fixed:' entries suppress nothing.", ""]
for p in props:
    if p not in sites:
        for c in classes['findings']:
            if c['property'] == p:
                k = (p, c['id'])
                res.append(f"finding: property={p} id={c['id']} {c['what']}")
                res += [f"  site: {s}" for s in old.get(k, [])]
                res.append("")
        continue
    left = list(sites[p])
    for c in classes['findings']:
        if c['property'] != p:
            continue
        hit = [s for s in left if any(re.fullmatch(x, s) for x in c['sites'])]
        left = [s for s in left if s not in hit]
        if not hit:
            print('no site for', p, c['id'])
            continue
        res.append(f"finding: property={p} id={c['id']} {c['what']}")
        res += [f"  site: {s}" for s in hit]
        res.append("")
    for s in left:
        print('UNTRIAGED', p, s)
res += classes['fixed']
open(path, 'w').write('\n'.join(res) + '\n')
