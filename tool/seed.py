#!/usr/bin/env python3
"""Development aid: create and confirm planted bugs.  usage: seed.py [id-substring]
Reads tool/seeds/*.py (SEEDS = list of dicts id, property, needs, breaks, edits, files) and, in a scratch copy,
checks: applies, builds, stable tests pass, demo 0 on unchanged / non-zero on changed. Writes /verif/seeded/<id>/."""
import glob, json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seed/repo'
ENV = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build():
    r = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 "
           "'-DCMAKE_CXX_FLAGS=-Wno-error -include string -include functional -DEIGEN_MAX_CPP_VER=3' "
           "-DCMAKE_PROJECT_INCLUDE=/opt/vp/project_include.cmake && ninja -C _build all test_all", cwd=S, env=ENV)
    return r


def sync():
    os.makedirs('/tmp/seed', exist_ok=True)
    sync2()


def sync2():
    os.makedirs(S, exist_ok=True)
    src = set(sh('git ls-files', cwd='/repo').stdout.split())
    for f in src:
        a, b = os.path.join('/repo', f), os.path.join(S, f)
        if not os.path.exists(b) or open(a, 'rb').read() != open(b, 'rb').read():
            os.makedirs(os.path.dirname(b), exist_ok=True)
            shutil.copy(a, b)
    if not os.path.exists(S + '/.git'):
        sh('git init -q && git add -A && git commit -qm x', cwd=S)
    else:
        sh('git add -A && git commit -qm x', cwd=S)


DEMO = '''#!/bin/bash
# exit 0: behaves; non-zero: broken
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
eig="$(pkg-config --cflags eigen3 2>/dev/null || echo -I/usr/include/eigen3)"
g++ -std=c++11 -O1 -include string -include functional -DEIGEN_MAX_CPP_VER=3 -w -I"$PWD/include" $eig "$here/demo.cpp" \\
    -o "$tmp/demo" -L"$PWD/_build" -lldaplusplus -Wl,-rpath,"$PWD/_build" -pthread || exit 99
timeout 120 "$tmp/demo"
'''


def main():
    sub = sys.argv[1] if len(sys.argv) > 1 else ''
    seeds = []
    for f in sorted(glob.glob(V + '/tool/seeds/*.py')):
        seeds += [s for s in runpy.run_path(f)['SEEDS'] if (f.endswith(sub[1:]) if sub[:1] == '@' else sub in s['id'])]
    sync()
    r = build()
    if r.returncode:
        print(r.stdout[-2000:], r.stderr[-2000:])
        sys.exit('base build failed')
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or [])
    dem = {}
    for s in seeds:
        d = '/tmp/seed/demos/' + s['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for k, v in s.get('files', {}).items():
            open(os.path.join(d, k), 'w').write(v)
        if 'demo.sh' not in s.get('files', {}):
            open(d + '/demo.sh', 'w').write(DEMO)
        r = sh('bash %s/demo.sh' % d, cwd=S)
        dem[s['id']] = r.returncode
        if r.returncode:
            print('BAD %s demo fails on the unchanged tree: %d %s %s' % (s['id'], r.returncode, r.stdout[-800:], r.stderr[-1500:]))
    for s in seeds:
        if dem[s['id']]:
            continue
        sync()
        ok = True
        for p, a, b in s['edits']:
            t = open(os.path.join(S, p)).read()
            if t.count(a) < 1:
                print('BAD', s['id'], 'text not found in', p, repr(a[:50]))
                ok = False
                break
            open(os.path.join(S, p), 'w').write(t.replace(a, b, s.get('n', -1)))
        if not ok:
            continue
        diff = sh('git diff', cwd=S).stdout
        r = build()
        if r.returncode:
            print('BAD %s does not build %s' % (s['id'], (r.stdout + r.stderr)[-1500:]))
            continue
        bad = 0
        for k in range(2):
            sh('rm -rf /tmp/seed/rep; mkdir -p /tmp/seed/rep')
            r = sh('python3 /opt/vp/run_gtest.py %s/_build/test_all /tmp/seed/rep' % S)
            fails = [l for l in r.stdout.splitlines() if 'exit ' in l]
            if fails or r.returncode:
                bad = 1
                break
        if bad:
            print('BAD %s tests fail: %s' % (s['id'], fails[:5] or r.stdout[-300:]))
            continue
        r = sh('bash /tmp/seed/demos/%s/demo.sh' % s['id'], cwd=S)
        if r.returncode == 0:
            print('BAD %s demo passes with the change: %s' % (s['id'], r.stdout[-300:]))
            continue
        out = V + '/seeded/' + s['id']
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree('/tmp/seed/demos/' + s['id'], out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        print('ok   %s rc=%d %s' % (s['id'], r.returncode, r.stdout.strip()[-150:]))
    sync()


main()
