"""Authoring helper for planted bugs: writes /verif/seeded/<id>/ from a definition and tries it out.

A definition file (python) sets BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ main body or full)].
usage: mkseed.py defs.py [id ...]      -- creates, then: patched tree builds, passes the stable tests, demo 0 / nonzero
       mkseed.py --check id ...        -- runs the property's check on the patched tree
"""
import json
import os
import subprocess
import sys
import time

V = '/verif'
R = '/repo'
DEMO_SH = '''#!/bin/bash
# exit 0 on a healthy tree, non-zero when the property is broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -w -g -O0 -fno-access-control -I src -I include -I test -I third_party/roaring_bitmap -I third_party/xxhash \\
    "$here/demo.cpp" -o "$tmp/demo" -Wl,--start-group _build/libpaimon_base.a $(find _build/roaring_bitmap _build/xxhash -name '*.a') -Wl,--end-group -lfmt -ltbb -lpthread
timeout 60 "$tmp/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def clean():
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'


def stable_ok():
    p = sh('bash /opt/vp/test.sh /tmp/mkseed.json')
    if p.returncode and not os.path.exists('/tmp/mkseed.json'):
        return False, p.stdout[-2000:]
    got = set(json.load(open('/tmp/mkseed.json'))['passed'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base.get('stable', base.get('passed', base if isinstance(base, list) else [])))
    miss = want - got
    return not miss, 'missing %d: %s %s' % (len(miss), sorted(miss)[:5], p.stdout[-1500:] if len(miss) > 50 else '')


def make(b):
    d = '%s/seeded/%s' % (V, b['id'])
    os.makedirs(d, exist_ok=True)
    clean()
    try:
        for f, old, new in b['edits']:
            p = R + '/' + f
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, 'occurs', s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        if 'demo' in b:
            demo = b['demo']
            if 'int main' not in demo:
                inc = ''.join('#include %s\n' % i for i in b.get('inc', []))
                demo = inc + '#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\\n", #c); return 1; } } while (0)\nusing namespace paimon;\nint main() {\n' + demo.strip('\n') + '\n    return 0;\n}\n'
            open(d + '/demo.cpp', 'w').write(demo)
            open(d + '/demo.sh', 'w').write(DEMO_SH)
            os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        ok, msg = stable_ok()
        if not ok:
            return 'TESTS ' + msg
        p = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
        if p.returncode == 0:
            return 'demo does not fail on the patched tree'
        bad = p.stdout[-200:]
        if 'error:' in p.stdout:
            return 'demo does not compile: ' + p.stdout[-1500:]
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    p = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
    if p.returncode:
        return 'demo fails on the clean tree: ' + p.stdout[-1500:]
    return 'ok (%s)' % bad.strip().replace('\n', ' ')


def check(i):
    d = '%s/seeded/%s' % (V, i)
    prop = json.load(open(d + '/meta.json'))['property']
    clean()
    try:
        p = sh('git -C /repo apply %s/patch.diff' % d)
        assert p.returncode == 0, p.stdout
        t = time.time()
        p = sh('VERIF_SEED=1 VERIF_TIER=quick python3-vt /verif/dv/check.py ' + prop)
        lines = [x for x in p.stdout.split('\n') if x]
        hit = p.returncode == 1 and any(x.startswith('VIOLATION property=' + prop) for x in lines)
        return '%s %s %s rc=%d %.0fs %s' % ('CAUGHT' if hit else 'MISSED', i, prop, p.returncode, time.time() - t,
                                          ' | '.join(x[:160] for x in lines if x.startswith(('failed', 'VIOL', 'undec', 'note')))[:600])
    finally:
        sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    if sys.argv[1] == '--check':
        for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
            print(check(i), flush=True)
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for b in ns['BUGS']:
            if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
                continue
            try:
                print(b['id'], make(b), flush=True)
            except AssertionError as e:
                print(b['id'], 'ASSERT', e)
