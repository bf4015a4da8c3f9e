#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py: PROPERTY, NEEDS, BREAKS, EDITS, MAIN."""
import json, os, subprocess, sys, runpy, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'

def blame_ok(path, old):
    """every changed line has to come from the base commit"""
    base = subprocess.check_output(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
    return base

for sid in sys.argv[1:]:
    s = runpy.run_path(f'{V}/tools/seeds/{sid}.py')
    d = f'{V}/seeded/{sid}'
    os.makedirs(f'{d}/src', exist_ok=True)
    t = tempfile.mkdtemp()
    diff = ''
    for f in {e[0] for e in s['EDITS']}:
        txt = open(f'{R}/{f}').read()
        for (g, old, new) in s['EDITS']:
            if g != f: continue
            n = txt.count(old)
            assert n == 1, f'{sid}: {f}: {n} matches of {old!r}'
            txt = txt.replace(old, new)
        os.makedirs(f'{t}/a/{os.path.dirname(f)}', exist_ok=True)
        os.makedirs(f'{t}/b/{os.path.dirname(f)}', exist_ok=True)
        shutil.copy(f'{R}/{f}', f'{t}/a/{f}')
        open(f'{t}/b/{f}', 'w').write(txt)
        p = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', f'a/{f}', f'b/{f}'], cwd=t, text=True, capture_output=True)
        diff += p.stdout
        # lines removed must be original ones
        base = subprocess.check_output(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
        bl = subprocess.check_output(['git', '-C', R, 'blame', '-l', '-s', f], text=True).splitlines()
        ln = None; removed = []
        for l in p.stdout.splitlines():
            if l.startswith('@@'):
                ln = int(l.split()[1].split(',')[0][1:]); continue
            if ln is None: continue
            if l.startswith('-'): removed.append(ln); ln += 1
            elif l.startswith('+'): pass
            else: ln += 1
        for n in removed:
            c = bl[n-1].split()[0].lstrip('^')
            if not base.startswith(c[:20]): print(f'{sid}: WARNING line {n} of {f} is from {c[:8]}')
    shutil.rmtree(t)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/src/main.rs', 'w').write(('mod br;\n' if s.get('BRIDGE') else '') + 'mod rt;\nmod vm;\nuse rt::*;\n\n' + s['MAIN'].lstrip())
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
