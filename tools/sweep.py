#!/usr/bin/env python3
"""Development tool, not a check: runs the check of each planted bug's property against a scratch copy with the bug.

tools/sweep.py [--wall SECONDS] [--results FILE] [id ...]     runs and appends to FILE (json lines)
tools/sweep.py --table [--results FILE]                       writes CATCHES.md from FILE
"""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known(prop):
    try:
        return ','.join(k['key'] for k in json.load(open(V + '/known-findings.json'))['known'] if k['property'] == prop)
    except (OSError, KeyError):
        return ''

def run(ident, wall):
    d = V + '/seeded/' + ident
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='sweep.')
    try:
        shutil.copytree('/repo/smart_dnn', w + '/smart_dnn', symlinks=True)
        if subprocess.run(['patch', '-sp1', '-i', d + '/patch.diff'], cwd=w).returncode:
            return dict(id=ident, prop=prop, rc='patch')
        env = dict(os.environ, VERIF_REPO=w)
        b = subprocess.run([sys.executable, '-c', "import sys;sys.dont_write_bytecode=True;sys.path.insert(0,%r);import vbuild;print(vbuild.driver(%r)[0])" % (V + '/bin', prop)], env=env, capture_output=True, text=True)
        if b.returncode:
            return dict(id=ident, prop=prop, rc='build')
        drv = b.stdout.split()[-1]
        subprocess.run([drv, 'batch', '--wall', str(wall), '--runs', '100000000', '--known', known(prop), '--out', w + '/o.json', '--replaydir', w], env=env, stdout=subprocess.DEVNULL)
        j = json.load(open(w + '/o.json'))
        v = j['violation'] or {}
        os.unlink(drv)
        return dict(id=ident, prop=prop, rc=j['rc'], runs=j['runs'], s=round(j['wall_s'], 1), cls=v.get('class', ''), msg=v.get('message', '')[:160],
                    ops=[v.get('ops_before'), v.get('ops_after')])
    finally:
        shutil.rmtree(w, ignore_errors=True)

a = argparse.ArgumentParser()
a.add_argument('--wall', type=float, default=25)
a.add_argument('--results', default='/tmp/sweep.jsonl')
a.add_argument('--table', action='store_true')
a.add_argument('ids', nargs='*')
a = a.parse_args()
if not a.table:
    for i in a.ids or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + '/seeded/*/meta.json')):
        r = run(i, a.wall)
        print(json.dumps(r), flush=True)
        open(a.results, 'a').write(json.dumps(r) + '\n')
else:
    res = {}
    for l in open(a.results):
        r = json.loads(l)
        res[r['id']] = r
    o = ['# Planted bugs and what catches them', '',
         'Written by `tools/sweep.py`: the check of the bug\'s property, run on a scratch copy with the bug, VERIF_SEED=1, 8 cores.',
         '`seconds` covers search, confirmation and minimisation; `runs` the simulated runs until then.', '',
         '| change | property | needs | reported as | runs | seconds |', '|---|---|---|---|---|---|']
    for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
        n = os.path.basename(os.path.dirname(p))
        m = json.load(open(p))
        r = res.get(n, {})
        o.append('| %s | %s | %s | %s | %s | %s |' % (n, m['property'], m['needs'], '`%s`' % r['cls'] if r.get('rc') == 1 else 'MISSED' if r.get('rc') == 0 else '?', r.get('runs', ''), r.get('s', '')))
    open(V + '/CATCHES.md', 'w').write('\n'.join(o) + '\n')
