#!/usr/bin/env python3
"""Prints a go build overlay in which the packages of REPO import the harness'
observable stand-in for crypto/sha256. Usage: overlay.py REPO WORKDIR"""
import json, os, re, sys
repo, work = sys.argv[1:3]
replace = {}
n = 0
for d, dirs, files in os.walk(repo):
    dirs[:] = [x for x in dirs if not x.startswith('.')]
    for f in files:
        if not f.endswith('.go') or f.endswith('_test.go'):
            continue
        p = os.path.join(d, f)
        s = open(p, encoding='utf-8').read()
        if re.search(r'^package main\b', s, re.M):
            continue
        # an import spec: optional alias, the path, at most a comment behind it
        t = re.sub(r'^(\s*(?:import\s+)?(?:[\w.]+\s+)?)"crypto/sha256"(\s*(?://.*)?)$',
                   r'\1"polverif/shim/sha256"\2', s, flags=re.M)
        if t != s:
            n += 1
            q = os.path.join(work, 'ovl%d_%s' % (n, f))
            open(q, 'w', encoding='utf-8').write(t)
            replace[p] = q
json.dump({'Replace': replace}, sys.stdout)
