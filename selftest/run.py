#!/usr/bin/env python3
"""Self test: applies small edits to scratch copies of /repo and runs checks on
them. Each edit either breaks a property (listed checks must fire) or keeps the
behaviour (the listed checks must stay quiet).
usage: run.py [-j N] [-b] [-t] [name-regex]     (-b: go build, -t: go test too)"""
import sys, os, re, subprocess, shutil, importlib.util, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off', GOWORK='off', CGO_ENABLED='0')
def load():
    ms = []
    for f in sorted(os.listdir(here)):
        if f.startswith('m_') and f.endswith('.py'):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(here, f))
            m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
            ms += m.M
    return ms
def run(m, build, test):
    name, edits, bad, good = m
    d = f'/tmp/selftest/{name}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    out = []
    try:
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            if old is None:
                s += new
            else:
                if s.count(old) < 1: return f'{name}: EDIT DOES NOT APPLY {f}: {old[:50]!r}'
                s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        if build:
            r = subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True, text=True, errors='replace')
            if r.returncode: return f'{name}: DOES NOT BUILD {r.stderr[:300]}'
        if test:
            r = subprocess.run(['go', 'test', './...'], cwd=d, env=env, capture_output=True, text=True, errors='replace')
            if r.returncode: out.append(f'{name}: TESTS FAIL ' + ' '.join(re.findall(r'--- FAIL: \S+', r.stdout))[:200])
        for c, want in [(c, 1) for c in bad] + [(c, 0) for c in good]:
            o = f'{d}.out'; os.makedirs(o, exist_ok=True)
            shutil.copy('/verif/known_findings.txt', o)
            try:
                r = subprocess.run([os.environ.get('BIN', '/verif/bin/verifcheck'), '-id', c, '-repo', d, '-out', o], capture_output=True, text=True, errors='replace', env=env, timeout=880)
                rc, txt = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, txt = 'timeout', ''
            lines = [l for l in txt.split('\n') if re.match(r'\S+: \[', l)]
            tag = 'ok  ' if rc == want else ('MISS' if want else 'FALSE ALARM')
            if want and rc == 1 and lines and all('[undecided]' in l for l in lines): tag = 'ok? '
            out.append(f'{tag} {name} {c} rc={rc} ' + ' | '.join(l[:170] for l in lines[:2 if want else 4]))
        return '\n'.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + '.out', ignore_errors=True)
if __name__ == '__main__':
    a = sys.argv[1:]; j = 6; b = t = False
    while a and a[0].startswith('-'):
        o = a.pop(0)
        if o == '-j': j = int(a.pop(0))
        if o == '-b': b = True
        if o == '-t': b = t = True
    ms = [m for m in load() if not a or re.search(a[0], m[0])]
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda m: run(m, b, t), ms): print(r, flush=True)
