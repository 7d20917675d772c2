#!/usr/bin/env python3
"""Replays one saved counterexample against a native build of /repo's current
sources: replay.py <evidence/replay/file>.  Exit 1 when it fails there."""
import re, shutil, sys
import check

lines = open(sys.argv[1]).read().splitlines()
m = re.match(r'# property (\S+)  harness (\S+)  entry (\S+)', lines[0])
kind = re.match(r'# (\w+):', lines[1]).group(1)
pid, hname, entry = m.groups()
h = check.Harness('%s/harness/%s.cpp' % (check.V, hname))
if '# trylocks' in lines:
    h.trylocks.add(entry)
r = check.Run(pid, 'quick', None, False)
check.engine()
err = r.link(h, r.compile([h]))
for f in r.ofuts.values():
    f.result()
r.link_native(h)
if err:
    sys.exit('cannot build: ' + err)
o, text = r.replay(h, entry, [l.split() for l in lines if l and l[0] != '#'], kind)
print(text)
print({'ok': 'the input passes', 'skip': 'the input does not apply', 'fail': 'the input fails'}[o])
shutil.rmtree(r.tmp, ignore_errors=True)
sys.exit(1 if o == 'fail' else 0)
