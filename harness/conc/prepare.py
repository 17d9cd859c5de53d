# lays instrumented copies of all (non-test) packages over the code under test (see tools/instr)
import os, subprocess, sys
files, rels = [], []
for top in ('bandersnatch', 'internal'):
    for root, dirs, fs in os.walk(os.path.join(REPO, top)):
        dirs[:] = [d for d in sorted(dirs) if d not in ('testdata', 'zzverif') and not d.startswith(('.', '_'))]
        for f in sorted(fs):
            if not f.endswith('.go') or f.endswith('_test.go'): continue
            src = open(os.path.join(root, f), encoding='utf-8', errors='replace').read()
            if '//go:build ignore' in src: continue
            files.append(os.path.join(root, f)); rels.append(os.path.relpath(os.path.join(root, f), REPO))
out = os.path.join(OUT, 'instr'); os.makedirs(out, exist_ok=True)
exe = os.path.join(OUT, 'instr.exe')
env = dict(os.environ, GO111MODULE='off', GOFLAGS='')
r = subprocess.run(['go', 'build', '-o', exe, os.path.join(VERIF, 'tools/instr/main.go')], env=env, capture_output=True, text=True)
if r.returncode == 0:
    r = subprocess.run([exe, out] + files, capture_output=True, text=True)
if r.returncode:
    sys.stderr.write(r.stderr); sys.exit(2)
for i, rel in enumerate(rels):
    add(rel, os.path.join(out, '%d.go' % i))
ewd = os.path.join(REPO, 'bandersnatch/errorsWithData')
add('bandersnatch/errorsWithData/zz_reset.go', os.path.join(out, 'reset_' + ewd.replace('/', '_') + '.go'))
for d in ('vksched', 'sync', 'atomic'):
    p = os.path.join(VERIF, 'harness/conc/rt', d)
    for f in sorted(os.listdir(p)):
        add('internal/zzverif/%s/%s' % ('vk' + d if d != 'vksched' else d, f), os.path.join(p, f))
os.environ['VK_RACE'] = '1'
