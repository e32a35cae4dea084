#!/usr/bin/env python3
"""Make and confirm seeded bugs.  usage: seed.py SPEC.py [names]
SPEC defines S = {name: dict(prop=, edits=[(file, old, new)], demo=<rust test source>, needs=, breaks=)}.
For each: writes /verif/seeded/<name>, then checks in a scratch copy of /repo that the patched code builds and
passes the repository's tests, and that the demonstration passes without and fails with the patch."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
D = os.path.dirname(os.path.abspath(__file__))
SEED = '/verif/seeded'


def sh(cmd, cwd, t=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t,
                       env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_INCREMENTAL='1'))
    return p.returncode, p.stdout.decode(errors='replace')


def errs(o):
    L = o.splitlines()
    k = [i for i, l in enumerate(L) if l.startswith('error') or 'panicked' in l]
    return '\n'.join('\n'.join(L[i:i + 6]) for i in k[:5])[:1500]


def one(name, s):
    out = '%s/%s' % (SEED, name)
    w = '/tmp/seed/%s' % name
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/seed', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    try:
        os.makedirs(out, exist_ok=True)
        for f, a, b in s['edits']:
            t = open('%s/%s' % (w, f)).read()
            if t.count(a) != 1: return name, 'edit matches %d times: %s' % (t.count(a), a[:60])
            open('%s/%s' % (w, f), 'w').write(t.replace(a, b))
        rc, diff = sh('git diff', w)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.rs', 'w').write('#![allow(unused_imports)]\nextern crate ghakuf;\nextern crate midi2spc;\nmod common;\nuse common::*;\n' + s['demo'])
        for f in ('common.rs', 'demo.sh'): shutil.copy('%s/demo/%s' % (D, f), out)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        # patched: tests pass, demo fails
        rc, o = sh('cargo test --offline --locked 2>&1', w)
        if rc: return name, 'TESTS FAIL with patch:\n' + o[-1500:]
        rc1, o1 = sh('bash %s/demo.sh' % out, w)
        sh('git checkout -q -- .', w)
        rc0, o0 = sh('bash %s/demo.sh' % out, w)
        if rc0: return name, 'DEMO FAILS unpatched:\n' + errs(o0)
        if not rc1: return name, 'DEMO PASSES patched'
        if 'error' in o1 and 'could not compile' in o1: return name, 'demo does not compile patched:\n' + o1[-1500:]
        why = [l for l in o1.splitlines() if 'panicked' in l or 'left:' in l or 'assert' in l][:3]
        return name, 'ok: ' + ' | '.join(why)[:300]
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    S = g['S']
    names = sys.argv[2:] or list(S)
    with ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(lambda n: one(n, S[n]), names): print(n, r, flush=True)
