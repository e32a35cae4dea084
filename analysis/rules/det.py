"""P29: nothing depends on the order of a hash table, on time, chance, environment or threads"""
from terms import *
from rules.base import *
from rules.safe import flat, preds, analysed_fns, DERIVED

ASSUME = ['ghakuf, serde_json, clap and pbr give the same results for the same input; sort and sort_unstable on plain values order them completely']

VIEWS = ('hvals', 'hkeys', 'hpairs', 'hitems')
# ways of walking a hash table
WALKS = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain', 'extract_if', 'union', 'intersection', 'difference', 'symmetric_difference', 'next')
# results that do not depend on the order
REDUCE = ('count', 'sum', 'product', 'max', 'min', 'all', 'any', 'len', 'is_empty', 'sorted', 'contains', 'contains_key')
KEYED = ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'BinaryHeap')
SOURCES = ('std::time::', 'core::time::SystemTime', 'std::env::', 'rand::', 'rand_core::', 'getrandom::', 'fastrand::', 'std::process::id', 'std::thread::current', 'std::thread::id', 'std::thread::available_parallelism', 'std::thread::functions::available_parallelism',
           'std::thread::functions::current', 'std::thread::current::', 'std::thread::local::', 'std::fs::read_dir', 'std::fs::metadata', 'std::fs::Metadata::', 'std::path::Path::metadata', 'std::path::Path::read_dir', 'std::net::', 'std::sync::mpsc', 'std::sync::mpmc',
           'std::hash::random::', 'core::hash::BuildHasher::', 'core::sync::atomic::', 'std::sync::poison::', 'std::sync::mutex::', 'std::sync::rwlock::', 'std::io::stdio::stdin', 'std::io::stdio::Stdin', 'chrono::', 'num_cpus::', 'rayon', 'crossbeam')
SHARED = ('core::sync::atomic::', 'alloc::sync::Arc', 'std::sync::', 'core::cell::', '*mut ', '*const ', '&mut ')


def hashed(t): return t is not None and ('::HashMap<' in t or '::HashSet<' in t)


def elem(t):
    """an element of a hash table at some position of its walk"""
    if t.op != 'idx' or t.args[0].op != 'app' or t.args[0].args[0] not in VIEWS: return False
    ty = t.args[0].args[1].ty or ''
    return 'BTree' not in ty


def walk(t):
    if t.op not in ('res', 'app') or not isinstance(t.args[0 if t.op == 'app' else 1], str): return False
    p = t.args[0 if t.op == 'app' else 1].split('#')[0]
    return ('hash::map::' in p or 'hash::set::' in p) and p.split('::')[-1] in WALKS


def heads_into_group(h):
    g = h.grp or [h]
    return [(x, tr, b, hn) for x in g for tr, b, hn in x.backs or ()]


class Flow(object):
    """the values of a function that depend on the order in which hash tables are walked"""

    def __init__(self, ck, key, I, R):
        self.ck, self.key, self.I, self.R = ck, key, I, R
        self.memo = {}
        self.loops()

    def has_elem(self, t): return any(elem(x) or walk(x) for x in subterms(t))

    def loops(self):
        """the loops that walk hash tables; which of their state depends on the order, which loops end early"""
        I, R = self.I, self.R
        heads = [h for h in R.nodes if h.kind == 'loop']
        self.lids = set()
        for n in R.nodes:
            for t in {x for f in n.facts for x in subterms(f)} | {x for d in flat(list(n.data)) if isinstance(d, Term) for x in subterms(d)}:
                if elem(t) or walk(t):
                    for y in subterms(t.args[1] if t.op == 'idx' else t):
                        if y.op in ('kap', 'phi') and isinstance(y.args[1], str): self.lids.add(y.args[1])
        walks = set()
        for h in heads:
            for e in list(h.store.values()):
                for x in subterms(e):
                    if x.op == 'adt' and x.args[0] == 'SeqIter' and x.args[3][0].op == 'app' and x.args[3][0].args[0] in VIEWS:
                        if any(y.op in ('kap', 'phi') and y.args[1] == h.data[0] for y in subterms(x.args[3][1])): walks.add(h.data[0])
        self.lids &= walks | {l for l in self.lids if self.opaque_walk(l)}
        self.early, self.ordered, self.problems = {}, {}, []
        for lid in sorted(self.lids): self.loop(lid, [h for h in heads if h.data[0] == lid])

    def opaque_walk(self, lid):
        return any(walk(x) for h in self.R.nodes if h.kind == 'loop' and h.data[0] == lid for v in h.store.values() for x in subterms(v))

    def temp(self, r, hv, bv):
        """state of an iterator"""
        st = [hv, bv]
        while st:
            x = st.pop()
            if x.op != 'adt': continue
            if r[0] == 'L' and x.args[0].split('::')[-1] in ('SeqIter', 'SliceIter', 'VecIter', 'OptIter', 'Range', 'ByRef'): return True
            st.extend(x.args[3])
        return False

    def loop(self, lid, hs):
        I = self.I
        shapes = {}
        for h in hs:
            news = {}
            mine = [(hn, b) for h2, tr, b, hn in heads_into_group(h) if hn is h]
            for hn, b in mine:
                for r in set(b.store) | set(hn.store):
                    hv, bv = hn.store.get(r), b.store.get(r)
                    if hv is None or bv is None or self.temp(r, hv, bv): continue
                    if self.flag(bv, hv, b.facts): continue
                    if not (hv.op in ('int', 'bool', 'true', 'false') or hv in (TRUE, FALSE)): news.setdefault(r, set()).add(self.delta(bv, hv, lid))
                    if hv is bv: continue
                    ok = self.comm(bv, hv, lid) or self.flag(bv, hv, b.facts)
                    cond = any(self.has_elem(f) or self.carried(f, lid) for f in b.facts - hn.facts)
                    if not ok and (self.has_elem(bv) or cond):
                        for x in subterms(hv):
                            if x.op == 'phi' and x.args[1] == lid: self.ordered.setdefault(x, (lid, hn, r))
                        for x in subterms(bv):
                            if x.op == 'phi' and x.args[1] == lid: self.ordered.setdefault(x, (lid, hn, r))
                        if not any(x.op == 'phi' and x.args[1] == lid for v in (hv, bv) for x in subterms(v)): self.problems.append((hn, 'what a walk over a hash table leaves in %s depends on its order' % self.name(r)))
                    elif not self.constant(bv, lid) and not self.flag(bv, hv, b.facts) and len({self.delta(c.store.get(r), hv, lid) for g, c in mine if c.store.get(r) is not None}) > 1 and any(self.carried(f, lid) for f in b.facts - hn.facts):
                        self.problems.append((hn, 'what a walk over a hash table does to %s depends on what it has done before' % self.name(r)))
            for r, vs in news.items(): shapes.setdefault((r, h.loops, h.ctx, h.grp and id(h.grp)), []).append((h, vs))
        # the state that tells partitions of the loop apart must not decide what is done
        for (r, *_), l in shapes.items():
            if any(vs != l[0][1] for h, vs in l): self.problems.append((l[0][0], 'what a walk over a hash table does to %s depends on what it has done before' % self.name(r)))
        for tgt, n in self.exits(lid):
            self.early.setdefault(lid, set()).add(tgt)
            if len(self.early[lid]) > 1: self.problems.append((n, 'how a walk over a hash table ends depends on its order'))
        for n in self.R.nodes:
            if n.kind in ('fwrite', 'fs') and lid in n.loops: self.problems.append((n, 'a file is written in the order of a hash table'))
        if lid in self.early:
            for h in hs:
                for tr, b, hn in h.backs or ():
                    for r in set(b.store) | set(hn.store):
                        hv, bv = hn.store.get(r), b.store.get(r)
                        if hv is None or bv is None or hv is bv or self.temp(r, hv, bv): continue
                        for x in subterms(hv):
                            if x.op == 'phi' and x.args[1] == lid: self.ordered.setdefault(x, (lid, hn, r))

    def exits(self, lid):
        out = []
        for n in self.R.nodes:
            if n.kind != 'exit' or n.data[0] != lid: continue
            new = n.facts - n.data[1].facts
            if any(f.op == 'ge0' and any(x.op == 'app' and x.args[0] == 'seqlen' for x in subterms(f)) and self.ends(f, lid) for f in new): continue
            out.append((n.data[2], n))
        return out

    def ends(self, f, lid):
        """the fact that the position of the walk has reached the end of the table"""
        c, d = lin_parts(f.args[0])
        return any(t.op in ('kap', 'phi') and t.args[1] == lid and k > 0 for t, k in d.items()) and any(t.op == 'app' and t.args[0] == 'seqlen' and k < 0 for t, k in d.items())

    def carried(self, f, lid):
        """a condition on what earlier rounds of the walk have done"""
        if any(x.op == 'app' and x.args[0] == 'seqlen' for x in subterms(f)): return False
        st = [f]
        while st:
            x = st.pop()
            if elem(x): continue
            if x.op in ('phi', 'kap') and x.args[1] == lid: return True
            st.extend(y for y in flat(list(x.args)) if isinstance(y, Term))
        return False

    def delta(self, v, base, lid):
        """what is done to base"""
        if v is base: return ()
        if v.op == 'upd': return (('at', v.args[1].id),) + self.delta(v.args[0], base, lid) + self.delta(v.args[2], None, lid)
        if v.op == 'push': return self.delta(v.args[0], base, lid) + (('push', v.args[1].id),)
        if v.op == 'adt':
            r = ()
            for j, x in enumerate(v.args[3]):
                b = base.args[3][j] if base is not None and base.op == 'adt' and len(base.args[3]) == len(v.args[3]) else None
                r += self.delta(x, b, lid)
            return r
        if v.op in ('phi', 'fld', 'idx', 'deref', 'sym'): return ()
        return (('is', v.id),) if self.invariant(v, lid) else ()

    def name(self, r):
        if r[0] == 'H': return str(r[1])
        f = self.ck.prog.fns.get(self.I.ctx_names.get(r[1]) or '', {})
        return str((f.get('names') or {}).get(str(r[2])) or 'a local') if isinstance(f.get('names'), dict) else 'a local'

    def flag(self, v, base, F):
        """a condition that stays true once it is"""
        if base is TRUE: return v is TRUE
        if v is base: return base is FALSE or base.op == 'phi' and base.ty == 'bool'
        return v is TRUE or (base is FALSE or Not(base) in F) and v.op in ('eq0', 'ge0', 'not', 'and', 'or', 'var', 'true', 'false', 'bool') or v.op == 'or' and base in flat(list(v.args))

    def constant(self, v, lid): return lid not in v.loops

    def invariant(self, v, lid):
        return not any(x.op in ('kap', 'phi') and x.args[1] == lid for x in subterms(v)) and not self.has_elem(v)

    def comm(self, v, base, lid, path=()):
        """does v come from base by changes that can be made in any order?"""
        if v is base or self.invariant(v, lid): return True
        if v.op == 'lin' or base.op == 'lin':
            d = sub(v, base)
            return not any(x.op == 'phi' and x.args[1] == lid for x in subterms(d))
        if v.op in ('max', 'min'):
            return base in v.args and not any(x.op == 'phi' and x.args[1] == lid for y in v.args if y is not base for x in subterms(y))
        if v.op == 'push':
            return self.comm(v.args[0], base, lid) and self.invariant(v.args[1], lid)
        if v.op == 'upd':
            b, i, x = v.args
            if not self.comm(b, base, lid) or any(y.op == 'phi' and y.args[1] == lid for y in subterms(i)): return False
            return self.comm(x, mk('idx', b, i), lid) or self.like(x, b, i, lid)
        if v.op == 'adt' and base.op == 'adt':
            return v.args[1] == base.args[1] and len(v.args[3]) == len(base.args[3]) and all(self.comm(x, y, lid) for x, y in zip(v.args[3], base.args[3]))
        if v.op == 'adt':
            return all(self.comm(x, self.part(x, v, j, base), lid) for j, x in enumerate(v.args[3]))
        return False

    def like(self, x, b, i, lid):
        """x is built from the element it replaces"""
        def prev(t):
            while t.op in ('fld', 'deref'): t = t.args[0]
            return t.op == 'idx' and t.args[1] is i and self.same(t.args[0], b)
        if prev(x) or self.invariant(x, lid): return True
        if x.op == 'push': return self.like(x.args[0], b, i, lid) and self.invariant(x.args[1], lid)
        if x.op == 'adt': return all(self.like(y, b, i, lid) for y in x.args[3])
        if x.op == 'lin':
            return all(prev(t) or self.invariant(t, lid) for t in lin_parts(x)[1])
        return False

    def same(self, a, b):
        while True:
            if a is b: return True
            if b.op == 'upd': b = b.args[0]
            else: return False

    def part(self, x, v, j, base):
        for y in subterms(x):
            if y.op == 'fld' and y.args[0] is base and y.args[2] == j: return y
        return base

    # ---- taint
    def tainted(self, t):
        r = self.memo.get(t)
        if r is not None: return r[0]
        self.memo[t] = (False,)
        r = self._t(t)
        self.memo[t] = (r,)
        return r

    def _t(self, t):
        if elem(t) or walk(t): return True
        if t.op == 'sorted' and t.args[1] in ('sort', 'sort_unstable'): return False
        if t.op in ('contains', 'len', 'hhas', 'hget'): return any(self.tainted(x) for x in t.args[1:] if isinstance(x, Term))
        if t.op == 'app' and t.args[0] in ('seqlen', 'hlen'): return False
        if t.op == 'app' and t.args[0] == 'collect' and any(k in (t.ty or '').split('<')[0] for k in KEYED): return False
        if t.op == 'app' and t.args[0] in VIEWS: return 'BTree' not in (t.args[1].ty or '')
        if t.op == 'res' and t.args[1].split('#')[0].split('::')[-1] in REDUCE: return False
        if t.op in ('kap', 'phi') and t.args[1] in self.early: return True
        if t.op == 'phi':
            if t in self.ordered: return True
            return any(self.tainted(v) for v, f, lid in self.I.phi_in.get(t, ()) if not (lid in self.lids and not self.leads(v)))
        return any(self.tainted(x) for x in flat(list(t.args)) if isinstance(x, Term))

    def leads(self, v): return False


def p29(ck):
    """taint analysis: which values depend on the order of a walk over a hash table (only commutative updates of the state around the walk are accepted), on time, chance, the environment or another thread; sinks are everything a function returns, stores or writes :: Every value that depends on such a source is followed through assignments, calls and returns in all functions of the crate; third-party crates (ghakuf, serde_json, clap) are taken to be deterministic, and the list of sources is a deny-list."""
    prog = ck.prog
    fns = [k for k in prog.fns if '_IMPL_' not in k and '_DERIVE_' not in k]
    own = {k for k in analysed_fns(prog)}
    # ---- sources
    nrefs = 0
    for k in sorted(fns):
        for p, span in externals(prog.fns[k]):
            nrefs += 1
            bad = [s for s in SOURCES if p.startswith(s) or ('<' + s) in p or (' as ' + s) in p]
            if bad and p.startswith('std::env::') and k.split('::{')[0] in ('main', 'bin::main'): bad = []
            if bad: ck.bad('source', '%s in %s' % (p.split('::')[-1], k), (k, span), '%s is not the same in every run' % p)
        for ty, span in shared_statics(prog.fns[k]):
            ck.bad('source', 'static in %s' % k, (k, span), 'the result depends on state that outlives a conversion (%s)' % ty)
        for a, b, span in addresses(prog.fns[k]):
            ck.bad('source', 'address in %s' % k, (k, span), 'an address is turned into a number (%s to %s)' % (a, b))
    ck.req(True, 'source', 'all', None, '')
    ck.floor(nrefs, 300, 'source', 'references to other crates')
    # ---- serialised types
    for name, a in sorted(prog.adts.items()):
        if not a.get('local'): continue
        ser = any('Serialize for' in k and strip_generics(name).split('::')[-1] in k.split('Serialize for')[1].split('>')[0] for k in prog.fns if 'Serialize for' in k and 'Deserialize' not in k)
        if not ser: continue
        for v in a['variants']:
            for f in v['fields']:
                ck.req(not hashed(f[1]), 'written', '%s.%s' % (name, f[0]), (name, ''), 'a hash table is written out in its own order')
    # ---- hash tables
    uses = {k for k in fns if any(hashed(t) for t in prog.fns[k]['locals'])}
    roots = {k.split('::{closure')[0] for k in uses}
    roots = {k for k in roots if k in own}
    called = {c for k in roots for c in fn_refs(prog, k) | {d for q in fn_refs(prog, k) if '{closure' in q for d in fn_refs(prog, q)} if c in roots and c != k}
    tops = sorted(k for k in roots if k not in called) or sorted(roots)
    n = 0
    for i, k in enumerate(tops):
        I, R = ck.analyse(k, opaque=lambda x: x != k and x in own and x not in roots, tag=500 + i)
        n += table_flow(ck, k, I, R)
    ck.floor(len(tops) if roots else 1, 1, 'order', 'functions that use hash tables')
    threads(ck, fns)


def table_flow(ck, k, I, R):
    F = Flow(ck, k, I, R)
    for lid in sorted(F.lids): ck.req(True, 'order', '', None, '')
    for n, what in F.problems: ck.bad('order', 'walk in %s' % n.where[0], n, what)
    def say(n, what): ck.bad('order', '%s in %s' % (n.kind, n.where[0]), n, what)
    bad = set()
    for n in R.nodes:
        if n.kind in ('push', 'store', 'vinsert', 'ext', 'hins', 'fwrite', 'call'):
            if any(l in F.lids for l in n.loops): continue
            vals = [x for d in (n.data[1:3] if n.kind in ('push', 'store') else n.data) for x in flat([d]) if isinstance(x, Term)]
            ck.req(True, 'order', '', None, '')
            if any(F.tainted(v) for v in vals): bad.add(n.id); say(n, 'a value that depends on the order of a hash table is kept')
        first = [x for f in n.facts for x in subterms(f) if (elem(x) and not any(y.op in ('kap', 'phi') for y in subterms(x.args[1])) or walk(x))]
        if first and n.kind in ('push', 'store', 'vinsert', 'hins', 'fwrite', 'call', 'return') and not any(l in F.lids for l in n.loops):
            say(n, 'whether this happens depends on which entry of a hash table comes first')
    if not bad:
        for s, v in R.rets:
            ck.req(True, 'order', '', None, '')
            if F.tainted(v): say(s.trace, 'the result depends on the order of a hash table')
            for r, x in s.store.items():
                if r[0] == 'H' and F.tainted(x): say(s.trace, 'what is left in %s depends on the order of a hash table' % F.name(r))
    return len(F.lids)


# ---------------------------------------------------------------- threads
def threads(ck, fns):
    prog = ck.prog
    for k in sorted(fns):
        for p, span, args in calls(prog.fns[k]):
            if p.split('::')[-1] not in ('spawn', 'scope', 'spawn_unchecked') or 'thread' not in p: continue
            cl = [c for c in prog.fns if c in args]
            ck.req(len(cl) == 1, 'thread', 'body in %s' % k, (k, span), 'what the thread runs is not known')
            for c in cl:
                f = prog.fns[c]
                ts = [t for t in f['locals'] if any(s in t for s in SHARED if s not in ('&mut ',))]
                ck.req(not ts, 'thread', 'shares in %s' % k, (c, f.get('span') or ''), 'the thread shares %s with the conversion' % (ts[:1] or ''))
                ck.req(f['locals'][0] == '()', 'thread', 'result in %s' % k, (c, f.get('span') or ''), 'the thread has a result')
                loc = [x for x in reachable(prog, [c]) if x != c]
                ck.req(not loc, 'thread', 'work in %s' % k, (c, f.get('span') or ''), 'the thread works on the conversion (%s)' % ', '.join(sorted(loc)[:2]))
                wr = [p2 for p2, _ in externals(f) if p2.startswith(('std::fs::', 'std::io::', 'core::io::')) or 'Write' in p2]
                ck.req(not wr, 'thread', 'output in %s' % k, (c, f.get('span') or ''), 'the thread writes (%s)' % ', '.join(wr[:1]))


# ---------------------------------------------------------------- syntax of the IR
def externals(f):
    out = []

    def go(x, span):
        if isinstance(x, dict):
            if x.get('k') == 'fn': out.append((x.get('res') or x['path'], span))
            for y in x.values(): go(y, span)
        elif isinstance(x, (list, tuple)):
            for y in x: go(y, span)
    for b in f['blocks']:
        for s in b['s']: go(s, s[-1] if isinstance(s[-1], str) else '')
        sp = [y for y in b['t'] if isinstance(y, str) and ':' in y and '.rs' in y]
        go(b['t'], sp[-1] if sp else '')
    return out


def calls(f):
    for b in f['blocks']:
        t = b['t']
        if t[0] != 'call': continue
        fn = t[1][1] if isinstance(t[1], list) and len(t[1]) > 1 and isinstance(t[1][1], dict) else {}
        names = set()

        def go(x):
            if isinstance(x, dict):
                for y in x.values(): go(y)
            elif isinstance(x, (list, tuple)):
                for y in x: go(y)
            elif isinstance(x, str): names.add(x[8:] if x.startswith('closure:') else x)
        go(fn)
        locs = {a[1][0] for a in t[2] if isinstance(a, list) and len(a) > 1 and isinstance(a[1], list) and a[1] and isinstance(a[1][0], int)}
        go(t[2])
        for _ in range(4):
            for c in f['blocks']:
                for q in c['s']:
                    if q[0] == '=' and q[1][0] in locs and not q[1][1]:
                        go(q[2])
                        if q[2][0] == 'use' and isinstance(q[2][1], list) and q[2][1][0] in ('m', 'c'): locs.add(q[2][1][1][0])
        sp = [y for y in t if isinstance(y, str) and '.rs' in y]
        yield fn.get('res') or fn.get('path') or '', sp[-1] if sp else '', names


def shared_statics(f):
    out = []
    for b in f['blocks']:
        for s in b['s']:
            if s[0] != '=' or not mentions_static(s[2]): continue
            ty = f['locals'][s[1][0]] if not s[1][1] else ''
            if ty.startswith('*mut') or any(x in ty for x in ('atomic::', 'Cell<', 'Mutex<', 'RwLock<', 'Once', 'Lazy', 'LocalKey')): out.append((ty, s[-1]))
    return out


def mentions_static(x):
    if isinstance(x, dict): return x.get('k') == 'static' or any(mentions_static(y) for y in x.values())
    if isinstance(x, (list, tuple)): return any(mentions_static(y) for y in x)
    return False


def addresses(f):
    """casts of a pointer to an integer"""
    out = []
    for b in f['blocks']:
        for s in b['s']:
            if s[0] == '=' and isinstance(s[2], list) and s[2] and s[2][0] == 'cast' and ('Expose' in str(s[2][1]) or str(s[2][1]) == 'PointerExposeAddress'):
                out.append((str(s[2][1]), f['locals'][s[1][0]], s[-1]))
    return out


RULES = {'P29': p29}
