#!/usr/bin/env python3
"""Makes and tries planted changes.  usage: seed.py FILE.py [id...]

FILE.py calls S(id, property, edits, needs, breaks, demo, sources): edits is a
list of (file, old, new); demo is the body of demo.cpp.  For each: in a scratch
copy of /repo, the demo passes, the change builds, the stable tests pass, the
demo fails, and the property's check is run on the changed copy.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedrepo'
DEMO = '''#!/bin/sh
# run in the repository: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
g++ -std=c++17 -O1 -w -include cstdint -include functional -I. -I"$here" -o "$tmp/demo" "$here/demo.cpp" %s -lboost_serialization -lboost_date_time -lpthread || { rm -rf "$tmp"; exit 2; }
(cd "$tmp" && timeout 60 ./demo)
rc=$?
rm -rf "$tmp"
exit $rc
'''
def sh(c, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode('utf-8', 'replace')
SEEDS = []
def S(id, prop, edits, needs, breaks, demo, sources=''):
    SEEDS.append((id, prop, edits, needs, breaks, demo, sources))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
if not os.path.exists(W):
    sh('cp -a /repo ' + W + '; rm -rf /tmp/seedrepo/_build')
sh('git fetch -q /repo && git checkout -q -- . && git reset -q --hard FETCH_HEAD', cwd=W)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bsh = open('/opt/vp/build.sh').read()
for id, prop, edits, needs, breaks, demo, sources in SEEDS:
    if only and id not in only: continue
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    sh('git checkout -q -- .', cwd=W)
    for f, a, b in edits:
        s = open(W + '/' + f).read()
        if s.count(a) != 1:
            print(id, 'EDIT: %d matches in %s of: %s' % (s.count(a), f, a[:60])); break
        open(W + '/' + f, 'w').write(s.replace(a, b))
    else:
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W)[1])
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % sources)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        r1, o1 = sh('sh %s/demo.sh' % d, cwd=W)
        sh('git checkout -q -- .', cwd=W)
        r0, o0 = sh('sh %s/demo.sh' % d, cwd=W)
        if r0 != 0 or r1 in (0, 2):
            print(id, 'DEMO clean=%d changed=%d\n' % (r0, r1), o0[-800:], '\n--\n', o1[-800:]); continue
        sh('git apply %s/patch.diff' % d, cwd=W)
        rb, ob = sh('sed s,/repo,%s,g /opt/vp/build.sh > /tmp/sb.sh; sed -e s,/repo,%s,g -e s,/opt/vp/build.sh,/tmp/sb.sh, /opt/vp/test.sh > /tmp/st.sh; bash /tmp/sb.sh' % (W, W), cwd=W)
        rt, ot = sh('bash /tmp/st.sh /tmp/st.json', cwd=W)
        try:
            passed = set(json.load(open('/tmp/st.json'))['passed'])
        except Exception as x:
            passed = set()
        if rb or stable - passed:
            print(id, 'BUILD/TESTS', rb, sorted(stable - passed)[:5], ob[-300:]); continue
        rc, oc = sh('ESX_REPO=%s python3 %s/check.py %s' % (W, V, prop))
        print(id, prop, 'CAUGHT' if rc == 1 and 'VIOLATION property=' + prop in oc else 'MISSED rc=%d' % rc)
        print('   ' + '\n   '.join(oc.strip().splitlines()[-6:]))
        sys.stdout.flush()
sh('git checkout -q -- .', cwd=W)
