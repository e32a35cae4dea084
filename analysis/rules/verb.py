"""P34: verbosity only prints (an information-flow analysis over the MIR of the whole crate)."""
import re
from .base import *

FLAG = 'verbose'
# what code that only runs in one mode may not do
DENY = ('std::process::', 'std::fs::', 'std::env::set', 'std::env::remove', 'std::thread::', 'core::panicking', 'std::rt::begin_panic', 'std::panicking', 'std::io::Write::', 'std::io::Read::', 'std::io::Seek::',
        'std::io::copy', 'std::net::', 'std::sync::', 'core::sync::', 'core::cell::', 'std::cell::', 'core::ptr::write', 'core::intrinsics::', 'core::mem::forget', 'std::os::')
ABORT = re.compile(r'::(unwrap|expect|unwrap_err|expect_err|unwrap_none|index|index_mut|copy_from_slice|split_at|remove|swap_remove|chunks|windows|step_by)$')
CELLS = re.compile(r'\b(Cell|RefCell|Mutex|RwLock|Atomic\w*|UnsafeCell)\b')
CONSOLE = re.compile(r'\b(Stdout|StdoutLock|Stderr|StderrLock)\b|\bpbr::')
SHOWN = ('core::fmt::', 'std::io::_print', 'std::io::_eprint', 'alloc::fmt::format')


def owner(t):
    t = re.sub(r"^(&(mut )?('\w+ )?)+", '', t.strip())
    return t if t.startswith('{closure') else strip_generics(t)


def is_const(o): return o[0] == 'k'


def opl(o): return o[1] if o[0] in ('c', 'm') else None


def operands(r):
    """the operands and places a right-hand side reads"""
    k = r[0]
    if k == 'use': return [r[1]]
    if k in ('ref',): return [['c', r[2]]]
    if k == 'bin': return [r[2], r[3]]
    if k == 'un': return [r[2]]
    if k == 'cast': return [r[2]]
    if k == 'discr': return [['c', r[1]]]
    if k == 'agg': return list(r[2])
    if k == 'repeat': return [r[1]]
    return []


def succs(t):
    k = t[0]
    if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
    if k == 'goto': return [t[1]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'drop': return [t[2]]
    if k == 'assert': return [t[4]]
    return []


class Flow(object):
    def __init__(self, ck):
        self.ck, self.prog = ck, ck.prog
        self.T = {}              # key -> where it came from
        self.fns = {k: f for k, f in ck.prog.fns.items() if '_IMPL_' not in k and '_DERIVE_' not in k}
        self.clo = {}            # closure type -> function
        for k, f in self.fns.items():
            if '{closure' in k.split('::')[-1] and f['args'] >= 1: self.clo[owner(f['locals'][1])] = k
        self.blocks = {k: self.live_blocks(f) for k, f in self.fns.items()}
        self.pd = {}
        self.sources = []
        self.more = True
        self.regions = {}
        self.closures_of = {}

    def live_blocks(self, f):
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen or b is None: continue
            seen.add(b)
            st.extend(succs(f['blocks'][b]['t']))
        # blocks that end in `unreachable` are not reached
        return sorted(b for b in seen if f['blocks'][b]['t'][0] not in ('unreachable', 'resume'))

    # taint ----------------------------------------------------------------
    def keys(self, fn, pl):
        """what a place may be called: from the whole to the field"""
        l, proj = pl
        ks = [('L', fn, l)]
        for e in proj:
            if e[0] == 'f':
                o = e[4] if len(e) > 4 else ''
                if o.startswith('('): ks.append(('L', fn, l, e[1]))
                elif owner(o).startswith('core::option') or owner(o).startswith('core::result') or owner(o).startswith('core::ops::control_flow') or not o: pass
                else: ks = [('F', owner(o), e[1])]
            elif e[0] == 'i': pass
        return ks

    def tainted(self, fn, o):
        pl = opl(o)
        if pl is None: return False
        if any(k in self.T for k in self.keys(fn, pl)): return True
        return any(e[0] == 'i' and ('L', fn, e[1]) in self.T for e in pl[1])

    def add(self, k, why):
        if k not in self.T:
            self.T[k] = why
            self.more = True

    def taint(self, fn, pl, why):
        self.add(self.keys(fn, pl)[-1], why)

    def run(self):
        while self.more:
            self.more = False
            for k in self.fns: self.function(k)

    def function(self, k):
        f = self.fns[k]
        for bi in self.blocks[k]:
            b = f['blocks'][bi]
            for s in b['s']:
                if s[0] != '=': continue
                lhs, r, where = s[1], s[2], s[3]
                if r[0] == 'agg':
                    kk = r[1][0]
                    for i, o in enumerate(r[2]):
                        if not self.tainted(k, o): continue
                        if kk == 'closure':
                            g = self.fns.get(r[1][1])
                            if g: self.add(('F', owner(g['locals'][1]), i), where)
                        elif kk == 'tuple': self.add(self.keys(k, lhs)[-1] if lhs[1] else ('L', k, lhs[0], i), where)
                        elif kk == 'adt' and not owner(r[1][1]).startswith('core::'): self.add(('F', owner(r[1][1]), i), where)
                        else: self.taint(k, lhs, where)
                elif any(self.tainted(k, o) for o in operands(r)):
                    if not (r[0] == 'ref' and len(self.keys(k, r[2])) and self.keys(k, r[2])[-1] not in self.T and False): self.taint(k, lhs, where)
            t = b['t']
            if t[0] == 'call': self.call(k, t)
            if t[0] == 'switch' and self.tainted(k, t[1]): self.region(k, bi)

    def call(self, k, t):
        p = callee(t[1])
        args, dest, where = t[2], t[3], t[5]
        g = self.local(t[1])
        if p and any(is_const(a) and isinstance(a[1], dict) and a[1].get('k') == 'str' and a[1].get('v') == FLAG for a in args) and 'clap' in p and 'ArgMatches' in p:
            if k not in [x for x, _ in self.sources]: self.sources.append((k, where))
            self.taint(k, dest, where)
        ts = [i for i, a in enumerate(args) if self.tainted(k, a)]
        if g is not None:
            for i in ts: self.add(('L', g, i + 1), where)
            for q in [x for x in self.T if x[0] == 'L' and x[1] == g and x[2] == 0]:
                if len(q) == 3: self.taint(k, dest, where)
                else: self.add(('L', k, dest[0], q[3]) if not dest[1] else self.keys(k, dest)[-1], where)
            return
        # a closure that returns something tainted, called by what it is handed to
        for a, ty in zip(args, t[6] if len(t) > 6 else []):
            c = self.clo.get(owner(ty))
            if c and any(x[0] == 'L' and x[1] == c and x[2] == 0 for x in self.T): ts = ts or [0]
        if ts: self.taint(k, dest, where)

    def local(self, o):
        if o[0] == 'k' and isinstance(o[1], dict) and o[1].get('k') == 'fn':
            for q in (o[1].get('res'), o[1].get('path')):
                if q in self.fns: return q
        return None

    # regions --------------------------------------------------------------
    def postdoms(self, k):
        if k in self.pd: return self.pd[k]
        f = self.fns[k]
        live = set(self.blocks[k])
        sc = {b: [x for x in succs(f['blocks'][b]['t']) if x in live] for b in live}
        pd = {b: None for b in live}
        for b in live:
            if not sc[b]: pd[b] = frozenset([b, -1])
        ch = True
        order = sorted(live, reverse=True)
        while ch:
            ch = False
            for b in order:
                if not sc[b]: continue
                s = [pd[x] for x in sc[b] if pd[x] is not None]
                if not s: continue
                n = frozenset.intersection(*s) | {b}
                if n != pd[b]: pd[b], ch = n, True
        self.pd[k] = (sc, pd)
        return self.pd[k]

    def doms(self, k):
        if ('dom', k) in self.pd: return self.pd[('dom', k)]
        sc, _ = self.postdoms(k)
        pre = {b: [] for b in sc}
        for b in sc:
            for x in sc[b]: pre[x].append(b)
        dom = {b: None for b in sc}
        dom[0] = frozenset([0])
        ch = True
        while ch:
            ch = False
            for b in sorted(sc):
                s = [dom[x] for x in pre[b] if dom[x] is not None]
                if b == 0 or not s: continue
                n = frozenset.intersection(*s) | {b}
                if n != dom[b]: dom[b], ch = n, True
        self.pd[('dom', k)] = dom
        return dom

    def region(self, k, b):
        """blocks whose execution depends on the switch at the end of block b"""
        if (k, b) in self.regions: return
        sc, pd = self.postdoms(k)
        common = (pd[b] or frozenset()) - {b}
        # the nearest: the one all others post-dominate
        J = next((j for j in common if j != -1 and all(x == -1 or x in (pd[j] or ()) for x in common)), -1)
        reg, st = set(), [x for x in sc[b] if x != J]
        while st:
            x = st.pop()
            if x in reg or x == J: continue
            reg.add(x)
            st.extend(sc[x])
        self.regions[(k, b)] = (reg, J)
        self.more = True
        # what is decided here and read afterwards depends on the flag
        f = self.fns[k]
        defs = {}
        for bi in self.blocks[k]:
            blk = f['blocks'][bi]
            for s in blk['s']:
                if s[0] == '=': defs.setdefault(s[1][0], []).append((bi, str(s[2]), bool(s[1][1])))
            if blk['t'][0] == 'call': defs.setdefault(blk['t'][3][0], []).append((bi, 'call%d' % bi, bool(blk['t'][3][1])))
        for l, ds in defs.items():
            if not any(d[0] in reg for d in ds): continue
            if f['locals'][l] in ('()', '!'): continue
            if len({d[1] for d in ds}) == 1 and not any(d[2] for d in ds) and (len(ds) > 1 or True) and ds[0][1].startswith("['use', ['k'"): continue
            if l == 0 or self.read_outside(k, l, reg): self.add(('L', k, l), 'depends on ' + str(f['blocks'][b]['t'][-1]))

    def read_outside(self, k, l, reg):
        f = self.fns[k]

        def reads(pl): return pl is not None and (pl[0] == l or any(e[0] == 'i' and e[1] == l for e in pl[1]))
        for bi in self.blocks[k]:
            if bi in reg: continue
            blk = f['blocks'][bi]
            for s in blk['s']:
                if s[0] == '=' and (any(reads(opl(o)) for o in operands(s[2])) or s[1][1] and reads(s[1])): return True
            t = blk['t']
            if t[0] in ('switch', 'assert') and reads(opl(t[1])): return True
            if t[0] == 'call' and (any(reads(opl(a)) for a in t[2]) or t[3][1] and reads(t[3])): return True
        return False


def pure(fl, k, memo):
    """a function that changes nothing its caller can see (printing apart)"""
    if k in memo: return memo[k]
    memo[k] = None
    f = fl.fns[k]
    why = None
    for i in range(1, f['args'] + 1):
        if '&mut' in f['locals'][i] and not i == 1 and 'closure' not in f['locals'][i] and 'Formatter' not in f['locals'][i]: why = why or 'it is given %s' % f['locals'][i][:60]
        if CELLS.search(f['locals'][i]): why = why or 'it is given %s' % f['locals'][i][:60]
    for bi in fl.blocks[k]:
        t = f['blocks'][bi]['t']
        if t[0] == 'call':
            why = why or bad_call(fl, k, t, memo)
    memo[k] = why
    return why


def bad_call(fl, k, t, memo):
    p = callee(t[1])
    tys = t[6] if len(t) > 6 else []
    if p is None: return 'it calls something unknown'
    if any(p.startswith(d) for d in DENY) and not (p.startswith('std::io::Write::') and tys and CONSOLE.search(tys[0])): return 'it calls ' + p
    if t[4] is None: return 'it ends the process (%s)' % p
    g = fl.local(t[1])
    if g is not None:
        w = pure(fl, g, memo)
        if w: return 'it calls %s: %s' % (g, w)
    for ty in tys:
        if CELLS.search(ty): return 'it uses a %s' % ty[:60]
        c = fl.clo.get(owner(ty))
        if c:
            w = pure(fl, c, memo)
            if w: return w
    return None


class Exprs(object):
    """what an operand is, spelled out through the temporaries that are set once"""
    def __init__(self, fl, k):
        self.fl, self.k, self.f = fl, k, fl.fns[k]
        self.defs = {}
        for bi in fl.blocks[k]:
            b = self.f['blocks'][bi]
            for s in b['s']:
                if s[0] == '=' and not s[1][1]: self.defs.setdefault(s[1][0], []).append(s[2])
            if b['t'][0] == 'call' and not b['t'][3][1]: self.defs.setdefault(b['t'][3][0], []).append(b['t'])

    def place(self, pl, n):
        l, proj = pl
        if l <= self.f['args']: base = 'arg%d' % l
        else:
            ds = self.defs.get(l, [])
            base = self.rv(ds[0], n - 1) if len(ds) == 1 and n else 'var%d' % l
        return base + ''.join('.%s' % (e[1],) if e[0] in ('f', 'v') else '[%s]' % self.place([e[1], []], n - 1) if e[0] == 'i' and n else '' if e[0] == '*' else '?' for e in proj)

    def op(self, o, n=12):
        return self.place(o[1], n) if o[0] in ('c', 'm') else repr(o[1])

    def rv(self, r, n):
        if r[0] == 'use': return self.op(r[1], n)
        if r[0] == 'ref': return self.place(r[2], n)
        if r[0] == 'call': return '%s(%s)' % (callee(r[1]), ','.join(self.op(a, n - 1) for a in r[2]))
        if r[0] == 'bin': return '(%s %s %s)' % (self.op(r[2], n), r[1], self.op(r[3], n))
        return '%s(%s)' % (r[0], ','.join(self.op(o, n) for o in operands(r)))

    def aborting(self, bi):
        t = self.f['blocks'][bi]['t']
        if t[0] == 'assert' and t[3][0] in ('bounds', 'div0', 'rem0'): return t[3][0] + ':' + self.op(t[1])
        if t[0] == 'call' and ABORT.search(callee(t[1]) or ''): return self.rv(t, 12)
        return None


def p34(ck):
    """information-flow analysis over the MIR of the whole crate: explicit and implicit flows of the verbosity flag; effect analysis of everything that runs depending on it :: From the place where the flag is read, every value that depends on it is followed through variables, fields, closures, calls and returns; what runs only in one mode (control dependence from post-dominators) may call nothing with an effect other than printing, may not write to or borrow mutably what exists outside, may not leave the function, the loop or the process on its own, and what it computes may only be used to decide what is printed."""
    fl = Flow(ck)
    fl.run()
    ck.fns |= {k for k in fl.fns if any(x[1] == k for x in fl.T if x[0] == 'L')}
    ck.sites += sum(len(f['blocks']) for f in fl.fns.values())
    ck.nodes += len(fl.T)
    ck.paths += len(fl.regions)
    ck.floor(len(fl.sources), 1, 'source', 'places where the flag is read')
    memo = {}
    inreg = {}
    for (k, b), (reg, J) in fl.regions.items(): inreg.setdefault(k, set()).update(reg)
    n = 0
    exs = {}

    def ex(k): return exs.setdefault(k, None) or exs.update({k: Exprs(fl, k)}) or exs[k]
    for (k, b), (reg, J) in sorted(fl.regions.items()):
        f = fl.fns[k]
        w = '%s (%s)' % (k, f['blocks'][b]['t'][-1])
        n += 1
        allr = inreg[k]
        # locals that exist only where the flag decides
        own = set(range(len(f['locals']))) - set(range(0, f['args'] + 1))
        for bi in fl.blocks[k]:
            if bi in allr: continue
            blk = f['blocks'][bi]
            for s in blk['s']:
                if s[0] == '=': own.discard(s[1][0])
            if blk['t'][0] == 'call': own.discard(blk['t'][3][0])
        ok = True
        for bi in sorted(reg):
            blk = f['blocks'][bi]
            for s in blk['s']:
                if s[0] != '=': continue
                lhs, r = s[1], s[2]
                if lhs[1] and lhs[0] not in own:
                    ok = ck.req(False, 'effect', 'store in ' + k, '%s (%s)' % (k, s[3]), 'what is stored here depends on the verbosity')
                if r[0] == 'ref' and r[1] in ('mut', 'raw') and r[2][0] not in own and not CONSOLE.search(f['locals'][r[2][0]]):
                    ok = ck.req(False, 'effect', 'borrow in ' + k, '%s (%s)' % (k, s[3]), 'something that outlives the output is borrowed for a change, depending on the verbosity')
            t = blk['t']
            if t[0] == 'call':
                why = bad_call(fl, k, t, memo)
                if why: ok = ck.req(False, 'effect', 'call in ' + k, '%s (%s)' % (k, t[5]), 'depending on the verbosity: ' + why)
                for a, ty in zip(t[2], t[6] if len(t) > 6 else []):
                    pl = opl(a)
                    if pl is not None and ty.startswith('&mut') and pl[0] not in own: ok = ck.req(False, 'effect', 'argument in ' + k, '%s (%s)' % (k, t[5]), 'something from outside is handed out for a change, depending on the verbosity')
            x = ex(k).aborting(bi)
            if x is not None and (k.endswith('}') or 'var' in x or 'arg' not in x):
                sc, pd = fl.postdoms(k)
                outside = [y for y in fl.blocks[k] if y not in allr and y in (pd[b] or ())]
                dom = fl.doms(k)
                outside += [y for y in fl.blocks[k] if y not in allr and y in dom[b]]
                ok2 = any(ex(k).aborting(y) == x for y in outside)
                ok &= ok2
                ck.req(ok2, 'abort', 'may abort in ' + k, '%s (%s)' % (k, t[-1] if t[0] == 'assert' else t[5]), 'only with (or without) verbosity this can abort the process: ' + x[:120])
            if t[0] == 'call' and t[4] is None: ok = ck.req(False, 'effect', 'end in ' + k, '%s (%s)' % (k, t[5]), 'the process ends depending on the verbosity')
        ck.req(ok, 'effect', 'code that depends on the flag in ' + k, w, 'see above')
    ck.floor(n, 1, 'effect', 'decisions on the verbosity')
    # values that depend on the flag
    for k, f in sorted(fl.fns.items()):
        reg = inreg.get(k, set())
        for bi in fl.blocks[k]:
            if bi in reg: continue
            blk = f['blocks'][bi]
            t = blk['t']
            for s in blk['s']:
                if s[0] != '=': continue
                lhs, r = s[1], s[2]
                if any(fl.tainted(k, o) for o in operands(r)) and any(e[0] == '*' for e in lhs[1]):
                    ck.req(False, 'value', 'store in ' + k, '%s (%s)' % (k, s[3]), 'a value that depends on the verbosity is stored')
                if any(e[0] == 'i' and ('L', k, e[1]) in fl.T for e in lhs[1]):
                    ck.req(False, 'value', 'place in ' + k, '%s (%s)' % (k, s[3]), 'where something is stored depends on the verbosity')
            if t[0] == 'assert' and fl.tainted(k, t[1]): ck.req(False, 'value', 'check in ' + k, '%s (%s)' % (k, t[5]), 'whether the program goes on depends on the verbosity')
            if t[0] != 'call': continue
            ts = [i for i, a in enumerate(t[2]) if fl.tainted(k, a)]
            if not ts: continue
            p = callee(t[1])
            if fl.local(t[1]) is not None:
                ck.req(True, 'value', 'handed on in ' + k, '%s (%s)' % (k, t[5]), '')
                continue
            tys = t[6] if len(t) > 6 else []
            shown = p is not None and p.startswith(SHOWN)
            effect = p is None or any(p.startswith(d) for d in DENY) or any(ty.startswith('&mut') and not CONSOLE.search(ty) for i, ty in enumerate(tys)) or t[4] is None
            ck.req(shown or not effect, 'value', 'use in ' + k, '%s (%s)' % (k, t[5]), 'a value that depends on the verbosity goes into %s' % (p or 'an unknown call'))
    # the result of main does not
    for k in fl.fns:
        if k.endswith('main') and ('L', k, 0) in fl.T: ck.req(False, 'value', 'result', k, 'the exit status depends on the verbosity')


ASSUME = ['formatting a value for output has no side effects', 'standard output can be written to', 'sums and differences of sizes that are only printed do not overflow']
RULES = {'P34': p34}
