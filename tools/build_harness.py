#!/usr/bin/env python3
"""build_harness.py REPO HARNESS OUTDIR: builds OUTDIR/h from REPO's working tree plus /verif/harness/{vk,HARNESS},
with 'go build -overlay' (nothing is written to REPO).  harness/HARNESS/shim/<path in repo> are extra files laid over
the code under test; harness/HARNESS/prepare.py (if any) may add more (see harness/conc)."""
import json, os, subprocess, sys, runpy
repo, h, out = sys.argv[1:4]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rep = {}
def add(dst, src): rep[os.path.join(repo, dst)] = src
for d in ('vk', h):
    p = os.path.join(V, 'harness', d)
    for f in sorted(os.listdir(p)):
        if f.endswith('.go'): add('internal/zzverif/%s/%s' % (d, f), os.path.join(p, f))
shim = os.path.join(V, 'harness', h, 'shim')
for root, _, files in os.walk(shim):
    for f in files:
        if f.endswith('.go'):
            src = os.path.join(root, f); add(os.path.relpath(src, shim), src)
prep = os.path.join(V, 'harness', h, 'prepare.py')
if os.path.exists(prep):
    runpy.run_path(prep, init_globals=dict(REPO=repo, OUT=out, VERIF=V, add=add))
ov = os.path.join(out, 'overlay.json')
json.dump({'Replace': rep}, open(ov, 'w'), indent=1)
cmd = ['go', 'build', '-overlay', ov, '-o', os.path.join(out, 'h')]
if os.environ.get('VK_RACE'): cmd.insert(2, '-race')
r = subprocess.run(cmd + ['./internal/zzverif/' + h], cwd=repo, capture_output=True, text=True)
if r.returncode and os.path.isdir(shim):
    # the shim needs unexported names; if the code was refactored so that they are gone, decide the rest without it
    print('NOTE: harness shim does not build; continuing without it:', r.stderr[:500])
    for root, _, files in os.walk(shim):
        for f in files: rep.pop(os.path.join(repo, os.path.relpath(os.path.join(root, f), shim)), None)
    json.dump({'Replace': rep}, open(ov, 'w'), indent=1)
    r = subprocess.run(cmd + ['-tags', 'vk_noshim', './internal/zzverif/' + h], cwd=repo, capture_output=True, text=True)
sys.stderr.write(r.stderr)
sys.exit(0 if r.returncode == 0 else 2)
