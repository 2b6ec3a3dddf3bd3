#!/usr/bin/env python3
"""Confirm and write planted bugs.  usage: mkseed.py SEEDS.py [id ...]

SEEDS.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
Each is tried in a scratch copy of /repo: the stable tests must pass with it, the demo must pass without and
fail with it.  Nothing is written to /repo.
"""
import json, os, shutil, subprocess, sys, tempfile
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in ns['SEEDS']:
        if want and s['id'] not in want: continue
        d = tempfile.mkdtemp(prefix='seed')
        try:
            r = d + '/repo'
            subprocess.check_call(['cp', '-a', '/repo', r])
            demo = d + '/demo'; os.makedirs(demo)
            open(demo + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            open(demo + '/demo.sh', 'w').write(SH)
            p0 = run('bash ' + demo + '/demo.sh', r)
            for f, a, b in s['edits']:
                t = open(r + '/' + f).read()
                assert t.count(a) == 1, (s['id'], f, t.count(a), a)
                open(r + '/' + f, 'w').write(t.replace(a, b))
            p1 = run('bash ' + demo + '/demo.sh', r)
            env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                       NO_PROXY='localhost', NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
            t = run('timeout 200 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --timeout=60 -W ignore 2>&1 | tail -30', r, env=env)
            ok_t = ' failed' not in t.stdout and 'passed' in t.stdout and 'error' not in t.stdout.splitlines()[-1]
            if p0.returncode == 0 and p1.returncode != 0 and ok_t:
                out = '/verif/seeded/' + s['id']
                shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
                diff = run('git diff', r).stdout
                open(out + '/patch.diff', 'w').write(diff)
                for f in ('demo.py', 'demo.sh'): shutil.copy(demo + '/' + f, out)
                os.chmod(out + '/demo.sh', 0o755)
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                          open(out + '/meta.json', 'w'), indent=1)
                print('OK  ', s['id'], '|', p1.stdout.strip().splitlines()[-1:])
            else:
                print('FAIL', s['id'], p0.returncode, p1.returncode, ok_t)
                if p0.returncode: print(p0.stdout[-1500:])
                if not ok_t: print(t.stdout[-1500:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
main()
