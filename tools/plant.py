"""Development tool: python3 tools/plant.py SPEC.py  - creates and validates seeded/<id>/.
SPEC.py calls seed(id, prop, edits, demo, needs, breaks, srcs=[...], cxx=False)."""
import json, os, shutil, subprocess, sys
V = '/verif'
def sh(c, cwd=None, t=300):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
def seed(id, prop, edits, demo, needs, breaks, srcs=(), cxx=False, inc=(), stub_srcs=('streams.c',), lib='-lm'):
    if len(sys.argv) > 2 and sys.argv[2] not in id: return
    d = V + '/seeded/' + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(V + '/deps/include', d + '/stub/include'); os.makedirs(d + '/stub/src')
    for s in stub_srcs: shutil.copy(V + '/deps/src/' + s, d + '/stub/src/')
    w = '/tmp/plantwt'
    shutil.rmtree(w, ignore_errors=True)
    assert sh('git -C /repo worktree prune; git clone -q /repo %s' % w)[0] == 0
    for f, a, b in edits:
        t = open(w + '/' + f).read(); assert t.count(a) == 1, (id, f, t.count(a), a)
        open(w + '/' + f, 'w').write(t.replace(a, b))
    rc, o = sh('git -C %s diff > %s/patch.diff' % (w, d)); assert rc == 0
    ext = 'cc' if cxx else 'c'
    open(d + '/demo.' + ext, 'w').write(demo)
    I = ' '.join('-I' + i for i in ['c/librtcm/include', 'c/librtcm/src'] + list(inc)) if not cxx else '-I.  ' + ' '.join('-I' + i for i in inc)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property's example holds; run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%s -w -g -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -I"$D/stub/include" %s "$D/demo.%s" %s %s -o "$T/demo" %s || exit 2
timeout 100 "$T/demo"
''' % ('g++ -std=c++14' if cxx else 'gcc', I, ext, ' '.join('"$D/stub/src/%s"' % s for s in stub_srcs) if not cxx else '', ' '.join(srcs), lib))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    # validate
    ra, oa = sh('bash %s/demo.sh' % d, '/repo')
    rb, ob = sh('bash %s/demo.sh' % d, w)
    st = 'OK' if ra == 0 and rb not in (0, 2) else 'BAD'
    print(id, st, 'clean', ra, 'patched', rb, (oa if ra else '')[-600:], (ob if rb == 2 or rb == 0 else '')[-600:])
    shutil.rmtree(w, ignore_errors=True)
def commit_check(): pass
exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
