"""check.py PROPERTY DUMPDIR [REPO]: decides one property from the dumped MIR of /repo"""
import importlib
import json
import os
import re
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from rules import base

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['encode', 'rom', 'track', 'opt', 'midi', 'cli', 'song', 'safe', 'det', 'whole', 'verb']


def rule_for(pid):
    for m in MODULES:
        mod = importlib.import_module('rules.' + m)
        if pid in mod.RULES: return mod.RULES[pid], mod
    print('no rule for ' + pid)
    sys.exit(2)


def known(pid):
    """known findings of a property: {violation key: text}"""
    r = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid: r[m.group(2)] = m.group(3)
    return r


def main():
    pid, dump = sys.argv[1], sys.argv[2]
    repo = sys.argv[3] if len(sys.argv) > 3 else '/repo'
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t = time.time()
    prog = base.Program([dump + '/midi2spc.lib.json', dump + '/midi2spc.bin.json'], dump + '/models.lib.json')
    ck = base.Ck(pid, prog, tier)
    ck.repo = repo
    rule, mod = rule_for(pid)
    try:
        rule(ck)
    except base.Missing as e:
        ck.bad('anchor', str(e).replace(' ', '_'), None, 'cannot find the %s, which the property is anchored at' % e)
    except base.Unsupported as e:
        ck.bad('analysis', str(e)[:80].replace(' ', '_'), None, 'the analysis cannot follow the code: %s' % e)
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'): raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ck.bad('analysis', '%s@%s:%s' % (type(e).__name__, os.path.basename(tb.filename), tb.name), None,
               'the shape of the code is not one the rule can judge: %s: %s' % (type(e).__name__, e))
    if not ck.obl and not ck.viol:
        ck.bad('analysis', 'empty', None, 'no obligation was generated')
    kn = known(pid)
    new = [v for v in ck.viol if v['key'] not in kn]
    old = [v for v in ck.viol if v['key'] in kn]
    wall = time.time() - t
    doc = ' '.join((rule.__doc__ or '').split())
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis (no execution): ' + doc,
            'obligations': ck.obl, 'discharged': ck.done,
            'obligations_by_rule': {k: {'checked': a, 'held': b} for k, (a, b) in sorted(ck.rules.items())},
            'functions_analysed': sorted(ck.fns), 'abstract_events': ck.nodes, 'return_paths': ck.paths, 'call_sites': ck.sites,
            'samples': ck.samples, 'notes': ck.notes,
            'known_findings_seen': [v['key'] for v in old],
        },
        'assumptions': list(getattr(mod, 'ASSUME', [])) + ck.assume,
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    evd = os.environ.get('VERIF_OUT') or ROOT + '/evidence'
    os.makedirs(evd, exist_ok=True)
    with open(evd + '/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged; %d functions, %d abstract events, %d paths, %d call sites; %.1f s' %
          (pid, ck.obl, ck.done, len(ck.fns), ck.nodes, ck.paths, ck.sites, wall))
    for k, (a, b) in sorted(ck.rules.items()): print('  rule %-28s %d/%d' % (k, b, a))
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[v['key']]))
    rp = evd + '/%s.violation.json' % pid
    if os.path.exists(rp): os.remove(rp)
    if new:
        with open(rp, 'w') as f: json.dump(new, f, indent=1)
        for v in new[:12]:
            print('  %s: %s at %s: %s' % (v['rule'], v['instance'], v['where'], v['message']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
