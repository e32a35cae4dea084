"""What the property rules share: obligations, anchors, and questions about an analysis result."""
import sys
import time
from terms import *
import interp as X
from interp import Program, Interp, Unsupported, strip_generics, split_targs, deref_ty


class Missing(Exception):
    """an anchor of a property is not in the program any more"""


class Ck(object):
    def __init__(self, pid, prog, tier='quick'):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.obl = 0
        self.done = 0
        self.viol = []
        self.rules = {}
        self.samples = []
        self.fns = set()
        self.nodes = self.paths = self.sites = 0
        self.notes = []
        self.assume = []
        self.seen_keys = set()

    def req(self, cond, rule, inst, where, msg):
        """one obligation: cond must be True"""
        self.obl += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if cond:
            self.done += 1
            r[1] += 1
            if r[1] == 1 and len(self.samples) < 12:
                self.samples.append('%s: %s [%s]' % (rule, inst, fmt_where(where)))
        else:
            self.bad(rule, inst, where, msg)
        return bool(cond)

    def bad(self, rule, inst, where, msg):
        key = ('%s/%s' % (rule, inst)).replace(' ', '_')
        if key in self.seen_keys: return
        self.seen_keys.add(key)
        self.viol.append({'key': key, 'rule': rule, 'instance': str(inst), 'where': fmt_where(where), 'message': msg})

    def floor(self, n, least, rule, what):
        self.req(n >= least, rule, 'floor:' + what, None, 'only %d %s found, at least %d expected: the rule has lost its subject' % (n, what, least))

    def analyse(self, key, opaque=None, args=None, cap=None, facts=(), keep=None, branches=False, tag=0, unroll=0):
        if key not in self.prog.fns:
            raise Missing('function %s' % key)
        I = Interp(self.prog, opaque=opaque, cap=cap, keep=keep)
        I.branches = branches
        I.tag = tag
        I.unroll = unroll
        R = I.analyse(key, args, facts)
        self.fns |= I.analysed
        self.nodes += len(R.nodes)
        self.paths += len(R.rets)
        self.sites += I.call_sites
        I.deepen(4)      # the obligations may need longer arguments than the analysis itself
        return I, R

    # anchors -------------------------------------------------------------
    def fn(self, name, sig=None):
        """the function called `name`; if it was renamed or moved, the only one with its signature"""
        if name in self.prog.fns:
            return name
        if sig:
            c = [k for k, f in self.prog.fns.items() if tuple(strip_lt(t) for t in f['locals'][1:f['args'] + 1]) == tuple(sig[0]) and
                 (sig[1] is None or strip_lt(f['locals'][0]) == sig[1]) and '{closure' not in k and '_IMPL_' not in k and '_DERIVE_' not in k]
            if len(c) == 1:
                return c[0]
        raise Missing('function %s' % name)

    def adt(self, path):
        a = self.prog.adts.get(path)
        if a is None:
            raise Missing('type %s' % path)
        return a

    def variant(self, path, name):
        for i, v in enumerate(self.adt(path)['variants']):
            if v['name'] == name: return i
        raise Missing('variant %s::%s' % (path, name))

    def field(self, path, name, variant=0):
        for i, (n, t) in enumerate(self.adt(path)['variants'][variant]['fields']):
            if n == name: return i
        raise Missing('field %s.%s' % (path, name))


def strip_lt(t):
    import re
    t = re.sub(r"&'[a-z_0-9]+ ", '&', t)
    t = re.sub(r"for<'a> ", '', t)
    return t


def fmt_where(w):
    if w is None: return '-'
    if hasattr(w, 'where'): w = w.where
    if isinstance(w, tuple):
        return '%s (%s)' % (w[0], w[1])
    return str(w)


# ---------------------------------------------------------------- results
def is_ok(v):
    return v.op == 'adt' and v.args[0].endswith('result::Result') and v.args[1] == 0


def is_err(v):
    return v.op == 'adt' and v.args[0].endswith('result::Result') and v.args[1] == 1


def is_some(v):
    return v.op == 'adt' and v.args[0].endswith('option::Option') and v.args[1] == 1


def is_none(v):
    return v.op == 'adt' and v.args[0].endswith('option::Option') and v.args[1] == 0


def payload(v, i=0):
    return v.args[3][i]


def heads_into(n):
    """the heads from which iterations lead to loop head n (n included)"""
    seen, st = {}, [n]
    while st:
        h = st.pop()
        if h.id in seen: continue
        seen[h.id] = h
        for tr, b, hn in h.backs or (): st.append(hn)
    return list(seen.values())


_ins = {}      # event ids are unique in a process


def ins(n):
    """the events directly before n; for a loop head, what enters the loop"""
    if n.kind == 'loop' and n.grp:
        r = _ins.get(n.id)
        if r is None:
            r = []
            for h in heads_into(n):
                for p in h.preds:
                    if p not in r: r.append(p)
            r = _ins[n.id] = tuple(r)
        return r
    return n.preds


def entries(n):
    """the states that enter the loop and can lead to its head n"""
    return [e for h in heads_into(n) for e in h.ents or ()]


def headmap(h, st, kap=None):
    """what the loop variables of head h are in state st (an entry or the end of an iteration)"""
    m = {}

    def al(hv, v):
        if hv.op == 'phi':
            if hv.args[1] == lid: m[hv] = v
        elif hv.op == 'adt' and v.op == 'adt' and hv.args[1] == v.args[1]:
            for a, b in zip(hv.args[3], v.args[3]): al(a, b)
    lid = h.data[0]
    for r, hv in h.store.items():
        v = st.store.get(r)
        if v is not None: al(hv, v)
    for k in kap or ():
        pass
    return m


def nexts(grp):
    """the iterations of a loop: (source head, end event, end state, target head)"""
    return [(hn, tr, b, h) for h in grp for tr, b, hn in h.backs or ()]


def loop_heads(R):
    """{loop id: heads}"""
    r = {}
    for n in R.nodes:
        if n.kind == 'loop': r.setdefault(n.data[0], []).append(n)
    return r


def back_paths(end, stop, sym, memo=None, cap=6000):
    """the possible sequences of events satisfying sym on the ways to `end`, starting at an event in `stop` (ids);
    each sequence starts with that event. Nested loops appear as their head event when sym accepts it"""
    memo = {} if memo is None else memo

    def f(x):
        if x.id in stop: return {(x,)}
        r = set()
        for p in ins(x): r |= memo[p.id]
        if sym(x): r = {q + (x,) for q in r}
        if len(r) > cap: raise Unsupported('too many event sequences')
        return r
    st = [(end, 0)]
    while st:
        x, ph = st.pop()
        if x.id in memo: continue
        if x.id in stop:
            memo[x.id] = {(x,)}
        elif ph == 0:
            st.append((x, 1))
            for p in ins(x):
                if p.id not in memo: st.append((p, 0))
        else:
            memo[x.id] = f(x)
    return memo[end.id]


def reach_back(n, seen=None):
    """all events that can come before event n (inclusive), loop back edges included"""
    seen = {} if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x is None or x.id in seen: continue
        seen[x.id] = x
        st.extend(ins(x))
        if x.backs:
            for tr, b, hn in x.backs: st.append(tr)
    return seen


def postorder(n, memo, f):
    """memo[x] = f(x) for all events before n, predecessors first"""
    st = [(n, 0)]
    while st:
        x, ph = st.pop()
        if x.id in memo: continue
        if ph == 0:
            st.append((x, 1))
            for p in ins(x):
                if p is not None and p.id not in memo: st.append((p, 0))
        else:
            memo[x.id] = f(x)
    return memo[n.id]


def on_every_path(n, pred, memo=None):
    """does every way of reaching event n pass an event satisfying pred?"""
    memo = {} if memo is None else memo
    return postorder(n, memo, lambda x: pred(x) or (bool(ins(x)) and all(memo[p.id] for p in ins(x))))


def body(head):
    """the events of the iterations of the loop that `head` is a head of"""
    seen = {}
    g = head.grp or [head]
    stop = {h.id for h in g}
    st = [tr for h in g for tr, b, hn in h.backs or ()]
    while st:
        x = st.pop()
        if x is None or x.id in seen or x.id in stop: continue
        seen[x.id] = x
        st.extend(ins(x))
        if x.backs:
            for tr, b, hn in x.backs: st.append(tr)
    return list(seen.values())


def sequences(n, sym, memo=None, cap=4000):
    """the possible sequences of symbols on the ways to event n; a loop counts as one symbol
    ('*', symbols of its body) when its body has any"""
    memo = {} if memo is None else memo

    def f(x):
        r = set()
        for p in ins(x): r |= memo[p.id]
        if not ins(x): r.add(())
        s = sym(x)
        if x.kind == 'loop':
            b = frozenset(y for y in (sym(z) for z in body(x)) if y is not None)
            if b: s = ('*', b)
        if s is not None: r = {q + (s,) for q in r}
        if len(r) > cap: raise Unsupported('too many event sequences')
        return r
    return postorder(n, memo, f)


def counts(end, heads, pred):
    """(min, max) number of pred-events between a loop head in `heads` and event `end`; nested loops count as unbounded"""
    hs = {h.id for h in heads}
    memo = {}

    def f(x):
        if x.id in hs: return (0, 0)
        pr = ins(x)
        if not pr: return None
        v = [memo[p.id] for p in pr if memo[p.id] is not None]
        if not v: return None
        lo, hi = min(a for a, b in v), max(b for a, b in v)
        if x.kind == 'loop' and any(pred(y) for y in body(x)): hi = 10 ** 6
        if pred(x): lo, hi = lo + 1, hi + 1
        return (lo, hi)
    st = [(end, 0)]
    while st:
        x, ph = st.pop()
        if x.id in memo: continue
        if x.id in hs:
            memo[x.id] = (0, 0)
            continue
        if ph == 0:
            st.append((x, 1))
            for p in ins(x):
                if p.id not in memo: st.append((p, 0))
        else:
            memo[x.id] = f(x)
    return memo[end.id]


def flatten_locals(R):
    """give the fields of local structures that are changed field by field places of their own, as if they were variables"""
    names = {}
    for n in R.nodes:
        d = n.data
        if len(d) < 2 or not (isinstance(d[0], tuple) and d[0] and d[0][0] == 'L' and isinstance(d[1], tuple)): continue
        root, path = d[0], d[1]
        while path and isinstance(path[0], tuple) and path[0][0] == 'f' and path[0][1] is None:
            names.setdefault(root, set()).add(path[0][2])
            root, path = root + (path[0][2],), path[1:]
        if root is not d[0]: n.data = (root, path) + tuple(d[2:])
    if not names: return
    done = {}

    def split(store):
        if store is None or id(store) in done: return
        done[id(store)] = store
        todo = [r for r in names if r in store]
        while todo:
            r = todo.pop()
            v = store[r]
            for i in names[r]:
                x = v.args[3][i] if v.op == 'adt' and v.args[1] == 0 and i < len(v.args[3]) else None
                if x is None: continue
                store[r + (i,)] = x
                if r + (i,) in names: todo.append(r + (i,))
    for n in R.nodes:
        split(n.store)
        for b in n.backs or (): split(b[1].store)
        for e in n.ents or (): split(e.store)
    for s, v in R.rets: split(s.store)


def resolve(I, t, stop=()):
    """the values that can flow into t through phis: [(value, facts, loop id of the back edge or None)]"""
    out, seen = [], set()

    def go(v, facts, lid):
        if v.op == 'phi' and v in I.phi_in and v not in stop:
            if v in seen: return
            seen.add(v)
            for x, f, l in I.phi_in[v]: go(x, f, l)
            return
        if v.op == 'fld' and v.args[1] is None and v.args[0].op == 'phi' and v.args[0] in I.phi_in and v.args[0] not in stop:
            # a field of a structure or tuple that is a variable
            if v in seen: return
            seen.add(v)
            for x, f, l in I.phi_in[v.args[0]]:
                if x.op == 'adt': go(x.args[3][v.args[2]], f, l)
                else: go(field(x, None, v.args[2], v.args[3], v.ty), f, l)
            return
        out.append((v, facts, lid))
    go(t, None, None)
    return out


def exhausted(I, facts, seq):
    """lids of loops over the whole of `seq` that have run to the end, given the facts"""
    n = I.length(seq)
    r = []
    fb = I.bounds(facts)
    for f in facts:
        if f.op == 'ge0':
            d = dict(lin_parts(f.args[0])[1])
            for t, k in d.items():
                if t.op == 'kap' and k > 0 and I.entails(facts, le(n, t)): r.append(t)
    return r


def flat_adts(t):
    for s in subterms(t):
        yield s


# ---------------------------------------------------------------- call graph
def callee(o):
    """path a call operand resolves to"""
    if o[0] == 'k' and isinstance(o[1], dict) and o[1].get('k') == 'fn':
        return X.normpath(o[1].get('res') or o[1]['path'])
    return None


def direct_calls(f):
    """(callee, place) of the calls of a function"""
    for b in f['blocks']:
        t = b['t']
        if t[0] == 'call':
            p = callee(t[1])
            if p: yield p, t[5]


def fn_refs(prog, k):
    """local functions that k calls, names or encloses as closures"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'fn':
                for q in (x.get('res'), x.get('path')):
                    if q in prog.fns: out.add(q)
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    f = prog.fns[k]
    for b in f['blocks']:
        walk(b['s'])
        walk(b['t'])
    for g in prog.fns:
        if g.startswith(k + '::{closure'): out.add(g)
    return out


def reachable(prog, roots):
    seen, st = set(), [r for r in roots if r in prog.fns]
    while st:
        k = st.pop()
        if k in seen: continue
        seen.add(k)
        st.extend(fn_refs(prog, k))
    return seen
