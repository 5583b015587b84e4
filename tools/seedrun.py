#!/usr/bin/env python3
"""Confirm planted bugs and see which checks catch them.

usage: seedrun.py [--no-check] [--props P1,P2] [--jobs N] ID...

For every seeded/ID: copy /repo to a scratch directory, run the demonstration there (must exit 0), apply
patch.diff, build, run the test suite (every stable test must pass), run the demonstration (must exit
nonzero), then run the check of the property named in meta.json (or of --props) against the copy.
No check uses this script.
"""
import json, os, shutil, subprocess, sys, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')

def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace')

def build(repo):
    return sh('CC=/usr/bin/clang CXX=/usr/bin/clang++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo '
              '-DBUILD_TESTING=ON -DCMAKE_C_COMPILER=/usr/bin/clang -DCMAKE_CXX_COMPILER=/usr/bin/clang++ '
              '-DCMAKE_C_FLAGS="-Wno-error -include stdarg.h" -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _build', cwd=repo)

def test(repo):
    sh('rm -f _build/ctest.xml; ctest --test-dir _build -j4 --timeout 60 --output-junit ctest.xml', cwd=repo)
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = stable['stable']
    bad = []
    ok = set()
    for tc in ET.parse(os.path.join(repo, '_build/ctest.xml')).getroot().iter('testcase'):
        if tc.get('status') == 'run' and tc.find('failure') is None:
            ok.add(tc.get('name'))
    return [s for s in stable if s.split('::')[0] not in ok]

def one(sid, args):
    d = os.path.join(S, sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='seed-')
    repo = os.path.join(w, 'repo')
    demo = os.path.join(w, 'demo')
    res = {'id': sid, 'property': meta['property']}
    try:
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('_build'), symlinks=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        if not args.only_check:
            rc, o = build(repo)
            if rc: res['err'] = 'clean build: ' + o[-500:]; return res
            rc, o = sh(['bash', demo + '/demo.sh'], cwd=repo, timeout=300)
            if rc: res['err'] = 'demo on clean tree exits %d: %s' % (rc, o[-1500:]); return res
        rc, o = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=repo)
        if rc: res['err'] = 'apply: ' + o; return res
        if not args.only_check:
            rc, o = build(repo)
            if rc: res['err'] = 'patched build: ' + o[-1500:]; return res
            bad = test(repo)
            if bad: res['err'] = 'tests fail: %s' % bad[:5]; return res
            rc, o = sh(['bash', demo + '/demo.sh'], cwd=repo, timeout=300)
            if rc == 0: res['err'] = 'demo passes on the patched tree: ' + o[-500:]; return res
            res['demo'] = o.strip()[-200:]
        res['ok'] = True
        if not args.no_check:
            for p in (args.props.split(',') if args.props else [meta['property']]):
                env = dict(os.environ, PGFE_REPO=repo, VERIF_TIER='quick', VERIF_SEED='1', PGFE_SCRATCH_EVIDENCE='1')
                rc, o = sh([sys.executable, os.path.join(V, 'check.py'), p], cwd=V, env=env, timeout=1800)
                v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                res.setdefault('checks', {})[p] = 'CAUGHT' if rc == 1 and v else 'missed' if rc == 0 else 'ERROR %d %s' % (rc, o[-600:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--no-check', action='store_true')
    ap.add_argument('--only-check', action='store_true')
    ap.add_argument('--props')
    ap.add_argument('--jobs', type=int, default=2)
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(S))
    bad = 0
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda i: one(i, a), ids):
            if r.get('err'):
                print('%-34s %s  BAD SEED  %s' % (r['id'], r['property'], r['err'])); bad += 1
            else:
                print('%-34s %s  ok  %s' % (r['id'], r['property'], r.get('checks', '')))
            sys.stdout.flush()
    return bad

if __name__ == '__main__':
    sys.exit(1 if main() else 0)
