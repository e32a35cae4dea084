"""Abstract interpreter over MIR.

A flow-sensitive, context-sensitive dataflow analysis whose abstract values are value-number
terms (terms.py).  Control-flow joins merge states, loops are solved to a fixpoint with
phi / induction generalisation, calls are inlined by call string (recursion stays opaque).
Nothing is executed and no solver is used.
"""
import heapq
import json
import re
from terms import *

sys_cap = 24


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ program
class Program(object):
    def __init__(self, dumps, models):
        self.fns = {}
        self.consts = {}
        self.adts = {}
        for d in dumps:
            j = json.load(open(d))
            for k, f in j['fns'].items():
                f['key'] = k
                if j['bin'] and k in self.fns:
                    k = 'bin::' + k
                    f['key'] = k
                self.fns[k] = f
            self.consts.update(j['consts'])
            for k, a in j['adts'].items():
                if k not in self.adts or a['local']:
                    self.adts[k] = a
        m = json.load(open(models))
        self.models = {}
        for k, f in m['fns'].items():
            f['key'] = 'models::' + k
            f['model'] = True
            self.models[k] = f
        for k, a in m['adts'].items():
            self.adts.setdefault(k, a)
        self.local_impls = {}
        for k, f in self.fns.items():
            if 'impl_trait' in f:
                self.local_impls[(f['impl_trait'], strip_generics(f['impl_self']), k.split('::')[-1].split('#')[0])] = f
        self._cfg = {}

    def cfg(self, f):
        c = self._cfg.get(f['key'])
        if c is None:
            c = self._cfg[f['key']] = Cfg(f)
        return c


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and (i == 0 or p[i - 1] != '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::').strip(':')


_np = {}


def normpath(p):
    """drop generic arguments but keep <impl T> segments and <T as Trait> heads recognisable"""
    r = _np.get(p)
    if r is None:
        if p.startswith('<') and ' as ' in p:
            # <T as Trait>::m  -> Trait::m
            d = 0
            for i, c in enumerate(p):
                if c == '<': d += 1
                if c == '>' and p[i - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
            inner, rest = p[1:i], p[i + 1:]
            # split on top-level ' as '
            d = 0
            cut = None
            for j, c in enumerate(inner):
                if c == '<': d += 1
                if c == '>' and inner[j - 1] != '-': d -= 1
                if d == 0 and inner.startswith(' as ', j):
                    cut = j
            r = strip_generics(inner[cut + 4:] + rest) if cut is not None else strip_generics(p)
        else:
            r = strip_generics(p)
        _np[p] = r
    return r


class Loop(object):
    def __init__(self, header):
        self.header = header
        self.blocks = {header}


class Cfg(object):
    """blocks reachable without unwinding, reverse post order, natural loops, liveness"""

    def __init__(self, f):
        self.f = f
        bl = f['blocks']
        self.succ = {}
        seen = set()
        order = []

        def succs(i):
            t = bl[i]['t']
            k = t[0]
            if k == 'goto': return [t[1]]
            if k == 'switch': return [b for _, b in t[2]] + [t[3]]
            if k == 'drop': return [t[2]]
            if k == 'call': return [] if t[4] is None else [t[4]]
            if k == 'assert': return [t[4]]
            return []
        st = [(0, iter(succs(0)))]
        seen.add(0)
        self.succ[0] = succs(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    self.succ[s] = succs(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo[x] > self.rpo[y]: x = idom[x]
                                while self.rpo[y] > self.rpo[x]: y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = loops.setdefault(s, Loop(s))
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in L.blocks:
                            L.blocks.add(x)
                            stk.extend(pred[x])
        self.loops = loops
        self.live = None
        self.borrowed = set()
        for b in order:
            for s in bl[b]['s']:
                if s[0] == '=' and s[2][0] == 'ref':
                    p = s[2][2]
                    if not any(e[0] == '*' for e in p[1]):
                        self.borrowed.add(p[0])
        self._liveness(bl)

    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]

    def _liveness(self, bl):
        use, deff = {}, {}

        def pl_uses(p, acc):
            acc.append(p[0])
            for e in p[1]:
                if e[0] == 'i': acc.append(e[1])

        def op_uses(o, acc):
            if o[0] in 'cm': pl_uses(o[1], acc)

        def rv_uses(r, acc):
            k = r[0]
            if k == 'use' or k == 'repeat': op_uses(r[1], acc)
            elif k == 'ref': pl_uses(r[2], acc)
            elif k == 'cast': op_uses(r[2], acc)
            elif k == 'bin': op_uses(r[2], acc); op_uses(r[3], acc)
            elif k == 'un': op_uses(r[2], acc)
            elif k == 'discr': pl_uses(r[1], acc)
            elif k == 'agg':
                for o in r[2]: op_uses(o, acc)
        for b in self.order:
            u, d = set(), set()

            def rd(acc):
                for x in acc:
                    if x not in d: u.add(x)
            for s in bl[b]['s']:
                if s[0] == '=':
                    acc = []
                    rv_uses(s[2], acc)
                    if s[1][1]:
                        pl_uses(s[1], acc)
                    rd(acc)
                    if not s[1][1]: d.add(s[1][0])
                elif s[0] == 'setd':
                    rd([s[1][0]])
                elif s[0] == 'dead':
                    d.add(s[1])
            t = bl[b]['t']
            acc = []
            if t[0] == 'switch': op_uses(t[1], acc)
            elif t[0] == 'call':
                op_uses(t[1], acc)
                for a in t[2]: op_uses(a, acc)
                if t[3][1]: pl_uses(t[3], acc)
            elif t[0] == 'assert': op_uses(t[1], acc)
            elif t[0] == 'return': acc.append(0)
            rd(acc)
            if t[0] == 'call' and not t[3][1]: d.add(t[3][0])
            use[b], deff[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set()
                for s in self.succ[b]: out |= live[s]
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live


# ------------------------------------------------------------------ states
class TNode(object):
    """an event of the abstract execution; preds gives the events before it"""
    __slots__ = ('kind', 'data', 'preds', 'facts', 'where', 'loops', 'store', 'backs', 'id', 'ctx', 'grp', 'ents')
    n = 0

    def __init__(self, kind, data, preds, facts, where, loops, ctx=None):
        TNode.n += 1
        self.id = TNode.n
        self.kind, self.data, self.preds, self.facts = kind, data, preds, facts
        self.where, self.loops = where, loops
        self.store = None
        self.backs = None
        self.ctx = ctx
        self.grp = None
        self.ents = None

    def __repr__(self):
        return '%s%s@%s' % (self.kind, tuple(show(d) if isinstance(d, (Term, tuple)) else d for d in self.data), self.where)


class State(object):
    __slots__ = ('store', 'facts', 'trace')

    def __init__(self, store, facts, trace):
        self.store, self.facts, self.trace = store, facts, trace

    def copy(self):
        return State(dict(self.store), self.facts, self.trace)


class Frame(object):
    __slots__ = ('f', 'cfg', 'ctx', 'parent', 'name', 'where')

    def __init__(self, f, cfg, ctx, parent):
        self.f, self.cfg, self.ctx, self.parent = f, cfg, ctx, parent

    def chain(self):
        fr = self
        while fr is not None:
            yield fr
            fr = fr.parent


VECOPS = {'vec', 'push', 'ext', 'upd', 'rep', 'sub', 'splice', 'sorted', 'remove', 'vinsert', 'pop', 'trunc', 'wr'}


class Restart(Exception):
    """a loop has to be analysed again, with a new conjecture"""


def wide(f):
    """a bound by the range of a machine type"""
    if f.op != 'ge0': return False
    c, d = lin_parts(f.args[0])
    return abs(c) > 1 << 28


def elem_ty(ty):
    if not ty: return None
    t = ty
    while t.startswith('&'):
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.split(' ', 1)[1] if ' ' in t else t
        if t.startswith('mut '): t = t[4:]
    if t.startswith('alloc::vec::Vec<') and t.endswith('>'):
        return split_targs(t[len('alloc::vec::Vec<'):-1])[0]
    if t.startswith('[') and t.endswith(']'):
        inner = t[1:-1]
        d = 0
        for i, c in enumerate(inner):
            if c in '<[(': d += 1
            elif c in '>])' and inner[i - 1] != '-': d -= 1
            elif c == ';' and d == 0:
                return inner[:i].strip()
        return inner
    return None


def split_targs(s):
    out, d, cur = [], 0, ''
    for i, c in enumerate(s):
        if c in '<[(': d += 1
        elif c in '>])' and s[i - 1] != '-': d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip(): out.append(cur.strip())
    return out


def deref_ty(ty):
    if not ty: return None
    if ty.startswith('&'):
        t = ty[1:].lstrip()
        if t.startswith("'"):
            t = t.split(' ', 1)[1] if ' ' in t else t
        if t.startswith('mut '): t = t[4:]
        return t
    if ty.startswith('*const '): return ty[7:]
    if ty.startswith('*mut '): return ty[5:]
    if ty.startswith('alloc::boxed::Box<'): return split_targs(ty[18:-1])[0]
    return None


TRANSPARENT = ('core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop', 'alloc::boxed::Box',
               'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'core::mem::maybe_dangling::MaybeDangling')


def is_vecish(v):
    return v.op in VECOPS or (v.ty or '').startswith('alloc::vec::Vec<')


def ref_to(v):
    """a shared reference to an immutable value"""
    return mk('app', 'refto', v)


def mkref(root, path):
    if root[0] == 'H' and not path:
        return root[1]
    return Ref(root, path)


def path_add(path, e):
    if path and path[-1][0] == 'rng':
        a = path[-1][1]
        if e[0] == 'i':
            return path[:-1] + (('i', add(a, e[1])),)
        if e[0] == 'rng':
            return path[:-1] + (('rng', add(a, e[1]), add(a, e[2])),)
    return path + (e,)


class FB(object):
    """what a set of facts says about ranges, with memo tables"""

    def __init__(self):
        self.b = {}
        self.lins = []
        self.ors = []
        self.memo = {}
        self.ent = {}
        self.idx = None

    def by_atom(self, t, pos):
        if self.idx is None:
            self.idx = {}
            for i, (c, d) in enumerate(self.lins):
                for u, k in d.items():
                    self.idx.setdefault((u, k > 0), []).append(i)
        return self.idx.get((t, pos), ())

    def range(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = term_range(t, self.b.get, 0, self.memo)
        return r


class Interp(object):
    def __init__(self, prog, opaque=None, cap=None, maxdepth=24, keep=None):
        self.prog = prog
        self.keep = keep              # facts that paths are kept apart by
        self.branches = False         # record what is known on each path into a join
        self.opaque = opaque or (lambda key: False)
        self.cap = cap or sys_cap
        self.unroll = 0               # loops that end within this many iterations are taken apart
        self.maxdepth = maxdepth
        self.ctxs = {}
        self.tag = 0      # keeps the terms of several analyses apart
        self.ctx_names = {}
        self.loopstack = []
        self.modes = {}
        self.terminals = []          # (kind, state-trace node)
        self.loop_heads = {}
        self.absorbed = set()
        self.phi_in = {}
        self.tried, self.loop_entries = {}, {}
        self.analysed = set()
        self.unknown_calls = {}
        self.range_cache = {}
        self.steps = 0
        self.call_sites = 0
        import lib
        self.lib = lib.Lib(self)

    # -------------------------------------------------------------- contexts
    def ctx(self, parent, key, site):
        k = (parent, key, site)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = self.tag * 100000 + len(self.ctxs) + 1
            self.ctx_names[c] = key
        return c

    def lf(self):
        return frozenset(self.loopstack)

    def event(self, st, kind, *data):
        fr = self.cur
        n = TNode(kind, data, (st.trace,) if st.trace else (), st.facts, (self.where_fn(fr), self.span), tuple(self.loopstack), fr.ctx if fr else None)
        st.trace = n
        return n

    def where_fn(self, fr):
        while fr is not None and fr.f.get('model'):
            fr = fr.parent
        return fr.f['path'] if fr else '?'

    # -------------------------------------------------------------- memory
    def initial(self, root):
        if root[0] == 'H':
            t = root[1]
            if t.op == 'app' and t.args[0] == 'refto':
                return t.args[1]
            return mk('deref', t, ty=deref_ty(t.ty))
        return UNDEF

    def load_root(self, st, root):
        v = st.store.get(root)
        if v is None:
            v = self.initial(root)
        return v

    def read(self, st, root, path):
        return self.getp(st, self.load_root(st, root), path)

    def getp(self, st, v, path):
        for e in path:
            k = e[0]
            if k == 'f':
                v = self.getf(v, e)
            elif k == 'i':
                v = self.index(st, v, e[1])
            elif k == 'rng':
                v = self.subseq(st, v, e[1], e[2])
            elif k == 'k':
                v = self.lib.hget(st, v, e[1])
            else:
                raise Unsupported('path %r' % (e,))
        return v

    def getf(self, v, e):
        return field(v, e[1], e[2], e[3], e[4])

    def subseq(self, st, v, a, b):
        if a.op == 'int' and a.args[0] == 0 and b is self.length(v):
            return v
        if v.op == 'sub':
            return self.subseq(st, v.args[0], add(v.args[1], a), add(v.args[1], b))
        if v.op in ('vec',) and a.op == 'int' and b.op == 'int':
            return mk('vec', v.args[0][a.args[0]:b.args[0]], ty=v.ty)
        return mk('sub', v, a, b, ty=v.ty)

    def index(self, st, v, i):
        while True:
            o = v.op
            if o == 'vec':
                if i.op == 'int' and 0 <= i.args[0] < len(v.args[0]):
                    return v.args[0][i.args[0]]
                if len(v.args[0]) and all(x is v.args[0][0] for x in v.args[0]):
                    return v.args[0][0]
            elif o == 'rep':
                return v.args[0]
            elif o == 'sub':
                i = add(v.args[1], i)
                v = v.args[0]
                continue
            elif o == 'upd':
                if v.args[1] is i:
                    return v.args[2]
                if self.prove_ne(st, v.args[1], i):
                    v = v.args[0]
                    continue
            elif o == 'push':
                n = self.length(v.args[0])
                if n is i:
                    return v.args[1]
                if st is not None and self.prove(st, lt(i, n)):
                    v = v.args[0]
                    continue
                if st is not None and self.prove(st, int_eq(i, n)):
                    return v.args[1]
            elif o == 'ext':
                n = self.length(v.args[0])
                if st is not None and self.prove(st, lt(i, n)):
                    v = v.args[0]
                    continue
                if st is not None and self.prove(st, le(n, i)):
                    i = sub(i, n)
                    v = v.args[1]
                    continue
            elif o == 'trunc':
                v = v.args[0]
                continue
            break
        return mk('idx', v, i, ty=elem_ty(v.ty))

    def length(self, v):
        o = v.op
        if o == 'vec': return Int(len(v.args[0]))
        if o == 'push': return addc(self.length(v.args[0]), 1)
        if o in ('upd', 'sorted'): return self.length(v.args[0])
        if o == 'ext': return add(self.length(v.args[0]), self.length(v.args[1]))
        if o == 'rep': return v.args[1]
        if o == 'sub': return sub(v.args[2], v.args[1])
        if o == 'trunc': return v.args[1]
        if o == 'splice':
            a, b, s = v.args[1:4]
            return add(sub(self.length(v.args[0]), sub(b, a)), self.length(s))
        if o == 'remove' or o == 'pop': return addc(self.length(v.args[0]), -1)
        if o == 'vinsert': return addc(self.length(v.args[0]), 1)
        if o == 'str': return Int(len(v.args[0].encode()))
        if o == 'phi' and len(v.args) > 3 and v.args[3] is not None: return v.args[3]
        if v.ty and v.ty.startswith('['):
            m = re.match(r'^\[.*; (\d+)(_usize)?\]$', v.ty)
            if m: return Int(int(m.group(1)))
        return mk('len', v, ty='usize')

    def setp(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if k == 'f':
            variant, idx = e[1], e[2]
            v = self.expand(st, v, e)
            if v.op == 'adt':
                fs = list(v.args[3])
                while len(fs) <= idx: fs.append(UNDEF)
                fs[idx] = self.setp(st, fs[idx], path[1:], new)
                return mk('adt', v.args[0], v.args[1], v.args[2], tuple(fs), ty=v.ty)
            if v is UNDEF and e[5]:
                # partially initialised aggregate
                ap = strip_generics(e[5])
                fs = [UNDEF] * (idx + 1)
                a = self.prog.adts.get(ap)
                if a and a['kind'] == 'struct':
                    fs = [UNDEF] * len(a['variants'][0]['fields'])
                fs[idx] = self.setp(st, UNDEF, path[1:], new)
                return Adt(ap if not e[5].startswith('(') else '()', variant or 0, '', fs)
            inner = self.setp(st, self.getf(v, e), path[1:], new)
            return mk('setf', v, variant, idx, inner, e[3])
        if k == 'i':
            if len(path) == 1:
                inner = new
            else:
                inner = self.setp(st, self.index(st, v, e[1]), path[1:], new)
            return self.upd(st, v, e[1], inner)
        if k == 'rng':
            s = self.setp(st, self.subseq(st, v, e[1], e[2]), path[1:], new)
            return mk('splice', v, e[1], e[2], s, ty=v.ty)
        if k == 'k':
            inner = self.setp(st, self.lib.hget(st, v, e[1]), path[1:], new)
            return mk('hins', v, e[1], inner, ty=v.ty)
        raise Unsupported('setp %r' % (e,))

    def upd(self, st, v, i, x):
        if v.op == 'rep' and v.args[1].op == 'int' and v.args[1].args[0] <= 64 and i.op == 'int':
            v = mk('vec', (v.args[0],) * v.args[1].args[0], ty=v.ty)
        if v.op == 'vec' and i.op == 'int' and 0 <= i.args[0] < len(v.args[0]):
            el = list(v.args[0])
            el[i.args[0]] = x
            return mk('vec', tuple(el), ty=v.ty)
        if v.op == 'upd' and v.args[1] is i:
            v = v.args[0]
        if x.op == 'idx' and x.args[0] is v and x.args[1] is i:
            return v
        return mk('upd', v, i, x, ty=v.ty)

    def expand(self, st, v, e):
        """open an opaque value of a known struct (or known enum variant) into its fields"""
        if v.op == 'adt' or v is UNDEF:
            return v
        parent = e[5]
        if not parent:
            return v
        ap = strip_generics(parent)
        if parent.startswith('('):
            ts = split_targs(parent[1:-1])
            return mk('adt', '()', 0, '', tuple(field(v, None, i, '', t) for i, t in enumerate(ts)), ty=v.ty)
        a = self.prog.adts.get(ap)
        if a is None:
            return v
        if a['kind'] == 'struct':
            va = a['variants'][0]
            return mk('adt', ap, 0, va['name'], tuple(field(v, None, i, n, t) for i, (n, t) in enumerate(va['fields'])), ty=v.ty)
        if a['kind'] == 'enum' and e[1] is not None:
            va = a['variants'][e[1]]
            return mk('adt', ap, e[1], va['name'], tuple(field(v, e[1], i, n, t) for i, (n, t) in enumerate(va['fields'])), ty=v.ty)
        return v

    def write(self, st, root, path, new):
        if not path:
            st.store[root] = new
        else:
            st.store[root] = self.setp(st, self.load_root(st, root), path, new)

    # references as values
    def rpath(self, v):
        """value of reference type -> (root, path)"""
        if v.op == 'ref':
            return v.args[0], v.args[1]
        return ('H', v), ()

    def deref(self, st, v):
        r, p = self.rpath(v)
        return self.read(st, r, p)

    def store_ref(self, st, v, new):
        r, p = self.rpath(v)
        self.write(st, r, p, new)

    # -------------------------------------------------------------- facts
    def bounds(self, facts):
        fb = self.range_cache.get(facts)
        if fb is not None:
            return fb
        fb = FB()
        b = fb.b
        lins = []
        for f in facts:
            if f.op == 'ge0':
                lins.append(f.args[0])
                c, d = lin_parts(f.args[0])
                if len(d) == 1:
                    (t, k), = d.items()
                    # k*t + c >= 0
                    if k > 0:
                        lo = -(c // k)
                        b[t] = meet(b.get(t, (None, None)), (lo, None))
                    else:
                        b[t] = meet(b.get(t, (None, None)), (None, c // (-k)))
            elif f.op == 'eq0':
                lins.append(f.args[0])
                lins.append(scale(f.args[0], -1))
                c, d = lin_parts(f.args[0])
                if len(d) == 1:
                    (t, k), = d.items()
                    if c % k == 0:
                        b[t] = meet(b.get(t, (None, None)), (-c // k, -c // k))
            elif f.op == 'or':
                fb.ors.append(f)
        # min and max
        mm = {t for l in lins for t in lin_parts(l)[1] if t.op in ('min', 'max')}
        for t in sorted(mm, key=lambda t: t.id):
            sg = 1 if t.op == 'min' else -1
            for x in t.args: lins.append(scale(sub(x, t), sg))
            es = [int_eq(t, x) for x in t.args]
            if not any(e in facts or e is TRUE for e in es): fb.ors.append(Or(es[0], es[1]))
        # x != bound
        for f in facts:
            if f.op == 'not' and f.args[0].op == 'eq0':
                c, d = lin_parts(f.args[0].args[0])
                if len(d) == 1:
                    (t, k), = d.items()
                    if c % k == 0:
                        x = -c // k
                        lo, hi = term_range(t, b.get)
                        if lo == x: b[t] = meet(b.get(t, (None, None)), (x + 1, None))
                        if hi == x: b[t] = meet(b.get(t, (None, None)), (None, x - 1))
                # l != 0 and l >= 0  =>  l >= 1
                l = f.args[0].args[0]
                if mk('ge0', l) in facts: lins.append(addc(l, -1))
                m = scale(l, -1)
                if mk('ge0', m) in facts: lins.append(addc(m, -1))
        fb.lins = [lin_parts(l) for l in lins]
        self.range_cache[facts] = fb
        return fb

    def range(self, st, t):
        return self.bounds(st.facts).range(t)

    depth = 2      # how many facts a linear argument may combine

    def prove_ge0(self, facts, l):
        fb = self.bounds(facts)
        c, d = lin_parts(l)
        if self._ge0(fb, c, d, self.depth): return True
        ax = frozenset(mk('ge0', scale(sub(x, t), 1 if t.op == 'min' else -1)) for t in d if t.op in ('min', 'max') for x in t.args)
        if ax and not ax <= facts: return self._ge0(self.bounds(facts | ax), c, d, self.depth)
        return False

    def deepen(self, depth):
        self.depth = depth
        self.range_cache.clear()

    def _ge0(self, fb, c, d, depth):
        lo = c
        unb = []
        for t, k in d.items():
            r = fb.range(t)
            x = r[0] if k > 0 else r[1]
            if x is None: unb.append(t)
            else: lo += k * x
        if not unb and lo >= 0:
            return True
        if depth <= 0 or not d or len(unb) > depth * 4:
            return False
        # every unbounded atom has to be cancelled by some fact: start with one of them
        if unb:
            pick = [min(unb, key=lambda t: len(fb.by_atom(t, d[t] > 0)))]
        else:
            pick = list(d)
        tried = set()
        for t0 in pick:
            e0 = d[t0]
            for gi in fb.by_atom(t0, e0 > 0):
                if gi in tried: continue
                tried.add(gi)
                gc, gd = fb.lins[gi]
                k = gd[t0]
                if e0 % k: continue
                q = e0 // k
                if q > 64: continue
                nd = dict(d)
                for u, j in gd.items():
                    x = nd.get(u, 0) - q * j
                    if x: nd[u] = x
                    else: nd.pop(u, None)
                if len(nd) > len(d) + 4: continue
                if self._ge0(fb, c - q * gc, nd, depth - 1):
                    return True
        return False

    def prove(self, st, c, ors=2):
        return self.entails(st.facts, c, ors)

    def entails(self, facts, c, nor=2):
        if c is TRUE: return True
        if c is FALSE: return False
        if c in facts: return True
        m = self.bounds(facts).ent
        r = m.get((c, nor))
        if r is None:
            r = m[(c, nor)] = self.entails0(facts, c, nor)
        return r

    def entails0(self, facts, c, nor):
        o = c.op
        if o == 'and':
            return self.entails(facts, c.args[0], nor) and self.entails(facts, c.args[1], nor)
        if o == 'or':
            if self.entails(facts, c.args[0], nor) or self.entails(facts, c.args[1], nor): return True
        elif o == 'ge0':
            if self.prove_ge0(facts, c.args[0]): return True
        elif o == 'eq0':
            if self.prove_ge0(facts, c.args[0]) and self.prove_ge0(facts, scale(c.args[0], -1)): return True
        elif o == 'not':
            x = c.args[0]
            if x.op == 'eq0':
                if self.prove_ge0(facts, addc(x.args[0], -1)) or self.prove_ge0(facts, addc(scale(x.args[0], -1), -1)):
                    return True
                # equal to something else
            elif x.op == 'var':
                for f in facts:
                    if f.op == 'var' and f.args[0] is x.args[0] and f.args[1] != x.args[1]: return True
            elif x.op == 'and':
                if self.entails(facts, Not(x.args[0]), nor) or self.entails(facts, Not(x.args[1]), nor): return True
            elif x.op == 'or':
                if self.entails(facts, Not(x.args[0]), nor) and self.entails(facts, Not(x.args[1]), nor): return True
        elif o == 'var':
            pass
        if nor > 0:
            for f in self.bounds(facts).ors:
                rest = facts - {f}
                l, r = self.add_fact(rest, f.args[0]), self.add_fact(rest, f.args[1])
                if (l is None or self.entails(l, c, nor - 1)) and (r is None or self.entails(r, c, nor - 1)):
                    return True
        return False

    def decide(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if self.entails(st.facts, c): return True
        if self.entails(st.facts, Not(c)): return False
        return None

    def prove_ne(self, st, a, b):
        c = Not(int_eq(a, b))
        if c is TRUE: return True
        return st is not None and c is not FALSE and self.entails(st.facts, c)

    def add_fact(self, facts, c):
        """facts plus c, or None when contradictory (cheaply detected)"""
        if c is TRUE: return facts
        if c is FALSE: return None
        if c in facts: return facts
        o = c.op
        if o == 'and':
            f = self.add_fact(facts, c.args[0])
            return None if f is None else self.add_fact(f, c.args[1])
        if o == 'not':
            x = c.args[0]
            if x.op == 'or':
                f = self.add_fact(facts, Not(x.args[0]))
                return None if f is None else self.add_fact(f, Not(x.args[1]))
            if x.op == 'and':
                c2 = Or(Not(x.args[0]), Not(x.args[1]))
                c = c2
                o = c.op
        if o == 'or':
            l, r = c.args
            if self.entails(facts, Not(l), 0): return self.add_fact(facts, r)
            if self.entails(facts, Not(r), 0): return self.add_fact(facts, l)
            return facts | {c}
        if self.entails(facts, Not(c), 0):
            return None
        nf = facts | {c}
        if o == 'var':
            nf = frozenset(f for f in nf if not (f.op == 'not' and f.args[0].op == 'var' and f.args[0].args[0] is c.args[0]))
        # an or-fact may have become decided
        ors = [f for f in nf if f.op == 'or']
        for f in ors:
            l, r = f.args
            if self.entails(nf - {f}, Not(l), 0):
                nf2 = self.add_fact(nf - {f}, r)
                if nf2 is None: return None
                nf = nf2
            elif self.entails(nf - {f}, Not(r), 0):
                nf2 = self.add_fact(nf - {f}, l)
                if nf2 is None: return None
                nf = nf2
        return nf

    def assume(self, st, c):
        """state refined by c (a copy), or None"""
        f = self.add_fact(st.facts, c)
        if f is None: return None
        if c.op == 'ge0' and self.loopstack and self.loopstack[-1] in c.loops:
            self.conjecture(self.loopstack[-1], st.facts, c)
        s = st.copy()
        s.facts = f
        return s

    def split(self, st, c):
        """[(bool, state)] feasible outcomes of the condition"""
        d = self.decide(st, c)
        if d is not None:
            return [(d, st)]
        r = []
        a = self.assume(st, c)
        if a is not None: r.append((True, a))
        b = self.assume(st, Not(c))
        if b is not None: r.append((False, b))
        return r

    def nvariants(self, ty):
        if not ty: return None
        a = self.prog.adts.get(strip_generics(ty))
        return len(a['variants']) if a and a['kind'] == 'enum' else None

    def split_variants(self, st, v, n):
        """[(variant, state)] for an enum value with n variants"""
        if v.op == 'adt':
            return [(v.args[1], st)]
        left = []
        for k in range(n):
            c = isvar(v, k)
            if c in st.facts:
                return [(k, st)]
            if Not(c) not in st.facts:
                left.append(k)
        r = []
        for k in left:
            s = st.copy()
            s.facts = self.add_fact(st.facts, isvar(v, k)) or (st.facts | {isvar(v, k)})
            r.append((k, s))
        return r

    # -------------------------------------------------------------- operands
    def const(self, k):
        if k is None: return mk('sym', 'const?')
        t = k.get('k')
        if t == 'int':
            if k.get('ty') == 'bool': return Bool(k['v'])
            return Int(k['v'])
        if t == 'float':
            return mk('float', float(k['v']), ty=k.get('ty'))
        if t == 'str':
            return ref_to(mk('str', k['v'], ty='str'))
        if t == 'ref':
            return ref_to(self.const(k['v']))
        if t == 'array':
            return mk('vec', tuple(self.const(x) for x in k['v']), ty=k.get('ty'))
        if t == 'tuple':
            return Tup([self.const(x) for x in k['v']])
        if t == 'adt':
            ap = strip_generics(k['ty'])
            a = self.prog.adts.get(ap)
            vn = a['variants'][k['variant']]['name'] if a else ''
            return Adt(ap, k['variant'], vn, [self.const(x) for x in k['v']])
        if t == 'fn':
            return mk('fn', json.dumps(k, sort_keys=True))
        if t == 'zst':
            ty = k.get('ty', '')
            if ty == '()': return UNIT
            a = self.prog.adts.get(strip_generics(ty))
            if a and a['kind'] == 'struct':
                return Adt(strip_generics(ty), 0, a['variants'][0]['name'], [UNIT] * len(a['variants'][0]['fields']))
            return mk('sym', 'zst:' + ty)
        if t == 'closure':
            return Adt('closure:' + k['def'], 0, '', ())
        if t == 'static':
            return mk('sym', 'static:' + str(k['v']))
        return mk('sym', 'const:' + json.dumps(k, sort_keys=True), ty=k.get('ty'))

    def place(self, fr, st, p):
        root, path = ('L', fr.ctx, p[0]), ()
        variant = None
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, root, path)
                if v is UNDEF:
                    v = mk('sym', 'undef@%s' % (root,))
                root, path = self.rpath(v)
                if v.op == 'adt' and v.args[0].startswith('closure:'):
                    pass
            elif k == 'f':
                parent = e[4] if len(e) > 4 else ''
                if any(parent.startswith(t) for t in TRANSPARENT):
                    variant = None
                    continue
                path = path_add(path, ('f', variant, e[1], e[2], e[3], parent))
                variant = None
            elif k == 'i':
                path = path_add(path, ('i', self.read(st, ('L', fr.ctx, e[1]), ())))
            elif k == 'ci':
                if e[3]:
                    n = self.length(self.read(st, root, path))
                    path = path_add(path, ('i', addc(n, -e[1])))
                else:
                    path = path_add(path, ('i', Int(e[1])))
            elif k == 'sub':
                n = self.length(self.read(st, root, path))
                path = path_add(path, ('rng', Int(e[1]), addc(n, -e[2]) if e[3] else Int(e[2])))
            elif k == 'v':
                variant = e[1]
            else:
                raise Unsupported('proj %r' % (e,))
        return root, path

    def operand(self, fr, st, o):
        if o[0] in ('c', 'm'):
            r, p = self.place(fr, st, o[1])
            return self.read(st, r, p)
        if o[0] == 'k':
            return self.const(o[1])
        return mk('sym', 'op:' + str(o))

    def rvalue(self, fr, st, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref':
            root, path = self.place(fr, st, r[2])
            return mkref(root, path)
        if k == 'bin':
            return self.lib.binary(st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), r[4])
        if k == 'un':
            a = self.operand(fr, st, r[2])
            if r[1] == 'Not':
                if r[3] == 'bool': return Not(a)
                lo, hi = ty_range(r[3])
                return sub(Int(hi), a) if lo == 0 else mk('app', 'not', a)
            if r[1] == 'PtrMetadata':
                return self.length(self.deref(st, a))
            if r[1] == 'Neg':
                return scale(a, -1) if is_int(r[3]) else mk('fneg', a, ty=r[3])
            return mk('app', r[1], a)
        if k == 'cast':
            return self.lib.cast(st, r[1], self.operand(fr, st, r[2]), r[3], r[4])
        if k == 'discr':
            root, path = self.place(fr, st, r[1])
            v = self.read(st, root, path)
            return self.lib.discr(v, r[2])
        if k == 'agg':
            fs = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1][0]
            if kk == 'array': return mk('vec', tuple(fs), ty=dty)
            if kk == 'tuple': return Tup(fs)
            if kk == 'adt':
                # several types that a derive declares in one function share a path
                p = r[1][1] + '#%s' % r[1][4] if len(r[1]) > 4 and r[1][4] is not None and r[1][1].endswith('__Visitor') else r[1][1]
                return Adt(p, r[1][2], r[1][3], fs)
            if kk == 'closure': return Adt('closure:' + r[1][1], 0, '', fs)
            raise Unsupported('agg %r' % (r[1],))
        if k == 'repeat':
            n = r[2]
            return mk('rep', self.operand(fr, st, r[1]), Int(n) if n is not None else mk('sym', 'n?', ty='usize'), ty=dty)
        raise Unsupported('rvalue %r' % (r,))

    # -------------------------------------------------------------- blocks
    def exec_block(self, fr, bb, st):
        """-> list of (target block | 'ret', state)"""
        self.steps += 1
        b = fr.f['blocks'][bb]
        self.cur = fr
        for s in b['s']:
            if s[0] == '=':
                self.span = s[3]
                v = self.rvalue(fr, st, s[2], fr.f['locals'][s[1][0]] if not s[1][1] else None)
                root, path = self.place(fr, st, s[1])
                if any(e[0] == '*' for e in s[1][1]) or (path and path[-1][0] == 'i'):
                    self.on_store(st, root, path, v)
                self.write(st, root, path, v)
            elif s[0] == 'dead':
                st.store.pop(('L', fr.ctx, s[1]), None)
            elif s[0] == 'setd':
                raise Unsupported('setd')
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'drop':
            return [(t[2], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'unreachable':
            return []
        if k == 'switch':
            self.span = t[5]
            return self.switch(fr, st, t)
        if k == 'assert':
            self.span = t[5]
            return self.do_assert(fr, st, t)
        if k == 'call':
            self.span = t[5]
            return self.do_call(fr, bb, st, t)
        if k == 'resume':
            return []
        raise Unsupported('terminator %r' % (t,))

    def on_store(self, st, root, path, v):
        if root[0] == 'L' and not any(e[0] == 'i' for e in path):
            return
        self.event(st, 'store', root, path, v)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        out = []
        if t[4] == 'bool':
            c = v if v.op not in ('int',) else Bool(v.args[0])
            tgt = {}
            for x, b in t[2]: tgt[x] = b
            for val, s in self.split(st, c):
                out.append((tgt.get(1 if val else 0, t[3]), s))
            return out
        if v.op == 'discr':
            base, ty = v.args[0], v.args[1]
            a = self.prog.adts.get(strip_generics(ty))
            if a:
                dmap = {int(va['discr']): i for i, va in enumerate(a['variants'])}
                tg = {dmap[x]: b for x, b in t[2] if x in dmap}
                rest = []
                for k, s in self.split_variants(st, base, len(a['variants'])):
                    if k in tg: out.append((tg[k], s))
                    else: rest.append((k, s))
                if len(rest) == 1:
                    out.append((t[3], rest[0][1]))
                elif rest:
                    s = st.copy()
                    f = s.facts
                    for k in tg:
                        f = f | {Not(isvar(base, k))}
                    s.facts = f
                    out.append((t[3], s))
                return out
        cur = st
        for x, b in t[2]:
            if cur is None: break
            c = int_eq(v, Int(x))
            nxt = None
            for val, s in self.split(cur, c):
                if val: out.append((b, s))
                else: nxt = s
            cur = nxt
        if cur is not None:
            out.append((t[3], cur))
        return out

    def do_assert(self, fr, st, t):
        c = self.operand(fr, st, t[1])
        if not t[2]: c = Not(c)
        d = self.decide(st, c)
        if d is True:
            return [(t[4], st)]
        msg = t[3]
        ops = tuple(self.operand(fr, st, o) if isinstance(o, list) else o for o in msg[1:])
        self.event(st, 'assert', msg[0], c, ops)
        if d is False:
            self.terminals.append(('panic', st.trace))
            return []
        s = self.assume(st, c)
        return [(t[4], s)] if s is not None else []

    # -------------------------------------------------------------- calls
    def do_call(self, fr, bb, st, t):
        args = [self.operand(fr, st, a) for a in t[2]]
        fo = t[1]
        if fo[0] == 'k':
            fn = fo[1]
        else:
            v = self.operand(fr, st, fo)
            fn = json.loads(v.args[0]) if v.op == 'fn' else {'k': 'fn', 'path': 'indirect', 'local': False, 'targs': []}
        dty = fr.f['locals'][t[3][0]] if not t[3][1] else (t[3][1][-1][3] if t[3][1][-1][0] == 'f' else None)
        outs = self.call(fr, (bb,), st, fn, args, t[6], dty)
        res = []
        if t[4] is None:
            for s, v in outs:
                self.terminals.append(('panic', s.trace))
            return res
        for s, v in outs:
            self.cur = fr
            root, path = self.place(fr, s, t[3])
            if any(e[0] == '*' for e in t[3][1]):
                self.on_store(s, root, path, v)
            self.write(s, root, path, v)
            res.append((t[4], s))
        return res

    def call(self, fr, site, st, fn, args, argtys, dty):
        """-> list of (state, value)"""
        self.call_sites += 1
        key = None
        if fn.get('res_local') and fn.get('res') in self.prog.fns:
            key = fn['res']
        elif fn.get('local') and fn['path'] in self.prog.fns and not fn.get('trait'):
            key = fn['path']
        if fr.f.get('model') and fn['path'] in self.prog.models:
            return self.inline(fr, site, st, self.prog.models[fn['path']], args, dty)
        h = self.lib.lookup(fn, args, st, key, argtys)
        if h is not None:
            r = h(fr, site, st, fn, args, argtys, dty)
            if isinstance(r, Term):
                return [(st, r)]
            if isinstance(r, tuple):
                return [r]
            return r
        if key is not None:
            f = self.prog.fns[key]
            if not self.opaque(key) and not any(x.f is f for x in fr.chain()):
                return self.inline(fr, site, st, f, args, dty)
        r = self.lib.opaque_call(fr, site, st, fn, args, argtys, dty, key)
        return [(st, r)] if isinstance(r, Term) else r

    def inline(self, fr, site, st, f, args, dty=None, closure=False):
        depth = sum(1 for _ in fr.chain()) if fr else 0
        if depth > self.maxdepth:
            raise Unsupported('inline depth at %s' % f['key'])
        if not f.get('model'):
            self.analysed.add(f['key'])
        ctx = self.ctx(fr.ctx if fr else 0, f['key'], site)
        nf = Frame(f, self.prog.cfg(f), ctx, fr)
        for i, a in enumerate(args):
            st.store[('L', ctx, i + 1)] = a
        if fr is not None and not f.get('model'):
            self.cur = fr
            self.event(st, 'enter', f['key'], tuple(args))
        rets = self.run_fn(nf, st)
        out = []
        for s in rets:
            v = s.store.pop(('L', ctx, 0), UNIT)
            self.drop_frame(s, ctx)
            if not f.get('model') and fr is not None:
                self.cur = nf
                self.event(s, 'leave', f['key'], v)
            out.append((s, v))
        self.cur = fr
        return out

    def drop_frame(self, s, ctx):
        for r in [r for r in s.store if r[0] == 'L' and r[1] == ctx]:
            del s.store[r]

    def run_fn(self, nf, st):
        backs, outs, rets = self.exec_region(nf, None, 0, [st])
        for s in rets:
            v = s.store.get(('L', nf.ctx, 0), UNIT)
            self.drop_frame(s, nf.ctx)
            s.store[('L', nf.ctx, 0)] = v
        return self.join(nf, 'ret', rets)

    # -------------------------------------------------------------- regions and joins
    def exec_region(self, fr, L, start, states):
        cfg = fr.cfg
        pend = {}
        heap = []
        backs, outs, rets = [], [], []
        header = L.header if L else None

        def route(tgt, s):
            if tgt == 'ret': rets.append(s)
            elif tgt == header: backs.append(s)
            elif L is not None and tgt not in L.blocks: outs.append((tgt, s))
            else:
                if tgt not in pend:
                    pend[tgt] = []
                    heapq.heappush(heap, cfg.rpo[tgt])
                pend[tgt].append(s)
        first = True
        for s in states:
            if start not in pend:
                pend[start] = []
                heapq.heappush(heap, cfg.rpo[start])
            pend[start].append(s)
        while heap:
            bb = cfg.order[heapq.heappop(heap)]
            sts = pend.pop(bb)
            if bb in cfg.loops and bb != header:
                sts = self.join(fr, bb, sts)
                for tgt, s in self.run_loop(fr, cfg.loops[bb], sts):
                    route(tgt, s)
                continue
            if not (first and bb == start):
                sts = self.join(fr, bb, sts)
            first = False
            for s in sts:
                for tgt, s2 in self.exec_block(fr, bb, s):
                    route(tgt, s2)
        return backs, outs, rets

    def prune(self, fr, bb, s):
        if bb == 'ret': return
        live = fr.cfg.live[bb]
        bor = fr.cfg.borrowed
        ctx = fr.ctx
        dead = [r for r in s.store if r[0] == 'L' and r[1] == ctx and r[2] not in live and r[2] not in bor]
        for r in dead:
            del s.store[r]

    def join(self, fr, bb, states):
        for s in states: self.prune(fr, bb, s)
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            k = frozenset(s.store.items())
            if self.keep: k = (k, frozenset(f for f in s.facts if self.keep(f)))
            groups.setdefault(k, []).append(s)
        res = [self.merge_equal(g) for g in groups.values()]
        if len(res) > self.cap:
            res = self.join_phi(fr, bb, res)
        return res

    def merge_equal(self, g):
        if len(g) == 1: return g[0]
        facts = g[0].facts
        for s in g[1:]:
            facts = self.join_facts(facts, s.facts)
        preds = []
        for s in g:
            t = s.trace
            if t is not None and self.branches and s.facts != facts: t = TNode('br', (), (t,), s.facts, t.where, tuple(self.loopstack))
            if t is not None and t not in preds: preds.append(t)
        if len(preds) == 1:
            tr = preds[0]
        else:
            tr = TNode('join', (), tuple(preds), facts, preds[0].where, tuple(self.loopstack))
        return State(g[0].store, facts, tr)

    def join_facts(self, a, b):
        common = a & b
        ra, rb = a - common, b - common
        if not ra or not rb:
            return common
        ra = frozenset(f for f in ra if not self.entails(b, f, 0)) if len(ra) < 12 else ra
        rb2 = frozenset(f for f in rb if not self.entails(a, f, 0)) if len(rb) < 12 else rb
        common = common | frozenset(f for f in (a - common) if f not in ra and f.op != 'or') | frozenset(f for f in (b - common) if f not in rb2 and f.op != 'or')
        rb = rb2
        if not ra or not rb:
            return common
        if len(ra) == 1 and len(rb) == 1:
            x, = ra
            y, = rb
            if x is Not(y): return common
        # what an overflow check leaves behind is of little use: do not let it crowd out the rest
        if len(ra) > 3: ra = frozenset(f for f in ra if not wide(f))
        if len(rb) > 3: rb = frozenset(f for f in rb if not wide(f))
        if ra and rb and len(ra) <= 4 and len(rb) <= 4:
            x = TRUE
            for f in sorted(ra, key=lambda t: t.id): x = And(x, f)
            y = TRUE
            for f in sorted(rb, key=lambda t: t.id): y = And(y, f)
            n = sum(1 for f in common if f.op == 'or')
            # drop complementary parts: (c & p) | (!c & q)
            if n < 6 and self.term_size(x) + self.term_size(y) < 60:
                return common | {Or(x, y)}
        return common

    def term_size(self, t):
        if t.op in ('and', 'or'): return 1 + self.term_size(t.args[0]) + self.term_size(t.args[1])
        return 1

    def shape(self, v, depth=0):
        if v.op == 'adt' and depth < 6:
            return (v.args[1],) + tuple(self.shape(x, depth + 1) for x in v.args[3])
        if v.op in ('true', 'false', 'ref', 'fn'): return v
        if v.op == 'int': return v
        if v.op == 'wr': return ('wr', self.shape(v.args[0]), len(v.args[2]))
        return '*'

    def join_phi(self, fr, bb, states):
        roots = set()
        for s in states: roots.update(s.store)
        diff = []
        for r in roots:
            v0 = states[0].store.get(r)
            if any(s.store.get(r) is not v0 for s in states[1:]): diff.append(r)
        diff.sort(key=str)
        groups = {}
        for s in states:
            k = tuple(self.shape(self.load_root(s, r)) for r in diff)
            if self.keep: k += (frozenset(f for f in s.facts if self.keep(f)),)
            groups.setdefault(k, []).append(s)
        if len(groups) > 4 * self.cap:
            groups2 = {}
            for k, g in groups.items():
                groups2.setdefault(tuple('#' if isinstance(x, Term) and x.op == 'int' else x for x in k), []).extend(g)
            groups = groups2
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            m = self.merge_equal(g)
            store = dict(g[0].store)
            for r in diff:
                vals = [self.load_root(s, r) for s in g]
                store[r] = self.phi_merge(fr, bb, (r,), vals, g)
            out.append(State(store, m.facts, m.trace))
        return out

    def phi_merge(self, fr, bb, leaf, vals, g):
        v0 = vals[0]
        if all(v is v0 for v in vals): return v0
        if v0.op == 'adt' and all(v.op == 'adt' and v.args[:2] == v0.args[:2] and len(v.args[3]) == len(v0.args[3]) for v in vals):
            fs = []
            for i in range(len(v0.args[3])):
                fs.append(self.phi_merge(fr, bb, leaf + ((v0.args[1], i),), [v.args[3][i] for v in vals], g))
            return mk('adt', v0.args[0], v0.args[1], v0.args[2], tuple(fs), ty=v0.ty)
        ln = None
        if any(is_vecish(v) for v in vals):
            ls = [self.length(v) for v in vals]
            if all(l is ls[0] for l in ls): ln = ls[0]
        ty = next((v.ty for v in vals if v.ty), None) or self.leaf_ty(fr, leaf)
        p = mk('phi', self.lf(), ('j', fr.ctx, bb), leaf_name(leaf), ln, ty=ty)
        self.phi_in.setdefault(p, []).extend((v, s.facts, None) for v, s in zip(vals, g))
        return p

    def leaf_ty(self, fr, leaf):
        r = leaf[0]
        t = None
        if r[0] == 'L':
            f = fr
            while f is not None:
                if f.ctx == r[1]:
                    t = f.f['locals'][r[2]]
                    break
                f = f.parent
        for v, i in leaf[1:]:
            if not t: return None
            if t.startswith('(') and t.endswith(')'):
                ts = split_targs(t[1:-1])
            elif t.startswith('core::option::Option<') and v == 1:
                ts = split_targs(t[t.index('<') + 1:-1])
            else:
                a = self.prog.adts.get(t)
                ts = [x[1] for x in a['variants'][v]['fields']] if a and v < len(a['variants']) else []
            t = ts[i] if i < len(ts) else None
        return t

    # -------------------------------------------------------------- loops
    def run_loop(self, fr, L, entries):
        lid = '%d.%d' % (fr.ctx, L.header)
        if self.unroll:
            r = self.unrolled(fr, L, entries)
            if r is not None: return r
        modes = self.modes.setdefault(lid, {})
        self.loopstack.append(lid)
        for s in entries:
            s.facts = frozenset(f for f in s.facts if lid not in f.loops)
        # bounds of the induction variable found in an earlier run of this loop, if they hold on entry
        inv = self.modes.get((lid, 'inv'))
        if inv:
            k = self.kap(lid)
            for s in entries:
                s.facts = s.facts | frozenset(c for c in inv if self.entails(s.facts, subst(c, {k: Int(0)})))
        self.tried[lid] = set()
        self.loop_entries[lid] = entries
        depth = len(self.loopstack)
        rounds = 0
        try:
            while True:
                rounds += 1
                if rounds > 40:
                    raise Unsupported('no fixpoint for loop %s in %s' % (lid, fr.f['key']))
                tmark = len(self.terminals)
                try:
                    r = self.loop_round(fr, L, lid, modes, entries)
                except Restart as e:
                    if e.args[0] != lid: raise
                    del self.loopstack[depth:]
                    self.cur = fr
                    r = None
                if r is not None:
                    return r
                del self.terminals[tmark:]
        finally:
            self.loopstack.pop()

    def unrolled(self, fr, L, entries):
        """a loop over a handful of known items: its iterations one after the other; None if they do not come to an end"""
        tmark = len(self.terminals)
        out, cur = [], [e.copy() for e in entries]
        for k in range(self.unroll):
            backs, outs, rets = self.exec_region(fr, L, L.header, cur)
            out.extend(outs)
            out.extend(('ret', s) for s in rets)
            cur = self.join(fr, L.header, backs)
            if not cur: return out
        del self.terminals[tmark:]
        return None

    def loop_round(self, fr, L, lid, modes, entries):
        heads = {}
        work = []
        upgrade = {}
        for e in entries:
            g = State({}, e.facts, e.trace)
            for r, v in e.store.items():
                g.store[r] = self.generalize(fr, lid, modes, (r,), v, v, True)
            k = frozenset(g.store.items())
            if k in heads:
                h = heads[k]
                h['facts'] = self.join_facts(h['facts'], g.facts | self.fits(fr, lid, g.store))
                h['entries'].append(e)
            else:
                heads[k] = {'store': g.store, 'facts': g.facts | self.fits(fr, lid, g.store), 'entries': [e], 'backs': {}, 'outs': [], 'rets': []}
                work.append(k)
        if len(heads) > 64:
            raise Unsupported('too many loop heads at %s' % lid)
        budget = 60 + 8 * len(heads)
        while work:
            k = work.pop(0)
            h = heads[k]
            budget -= 1
            if budget < 0:
                raise Unsupported('loop heads do not stabilise at %s in %s' % (lid, fr.f['key']))
            node = TNode('loop', (lid,), tuple(e.trace for e in h['entries'] if e.trace is not None), h['facts'], (self.where_fn(fr), fr.f['path']), tuple(self.loopstack), fr.ctx)
            node.backs = []
            node.store = h['store']
            node.ents = h['entries']
            h['node'] = node
            h['tmark'] = len(self.terminals)
            hs = State(dict(h['store']), h['facts'], node)
            backs, outs, rets = self.exec_region(fr, L, L.header, [hs])
            h['term'] = self.terminals[h['tmark']:]
            del self.terminals[h['tmark']:]
            backs = self.join(fr, L.header, backs)
            h['outs'] = outs
            h['rets'] = rets
            h['bk'] = []
            bad = False
            for b in backs:
                # per-iteration objects are forgotten
                for r in [r for r in b.store if r not in h['store'] and self.root_varies(r, lid)]:
                    del b.store[r]
                for r in set(b.store) | set(h['store']):
                    hv = h['store'].get(r)
                    if hv is None: hv = self.initial(r)
                    bv = b.store.get(r)
                    if bv is None: bv = self.initial(r)
                    self.compare(fr, lid, modes, upgrade, (r,), hv, bv)
            if upgrade:
                modes.update(upgrade)
                return None
            for b in backs:
                g = {}
                for r in set(b.store) | set(h['store']):
                    bv = b.store.get(r)
                    if bv is None: bv = self.initial(r)
                    hv = h['store'].get(r)
                    if hv is None: hv = self.initial(r)
                    g[r] = self.generalize(fr, lid, modes, (r,), bv, hv, False)
                k2 = frozenset(g.items())
                inv = frozenset(f for f in b.facts if lid not in f.loops)
                inv = inv | self.kappa_facts(lid, b, h, fr) | self.fits(fr, lid, g)
                h['bk'].append((k2, b))
                if k2 not in heads:
                    if len(heads) > 64:
                        # too many partitions: give up distinguishing the values that differ
                        self.coarsen(lid, modes, heads, g)
                        return None
                    heads[k2] = {'store': g, 'facts': inv, 'entries': [], 'outs': [], 'rets': []}
                    work.append(k2)
                else:
                    h2 = heads[k2]
                    nf = frozenset(f for f in h2['facts'] if f in inv or self.entails(inv, f))
                    if nf != h2['facts']:
                        h2['facts'] = nf
                        if k2 not in work: work.append(k2)
        out = []
        rets = []
        copied = [self.copied(fr, lid, k, h) for k, h in heads.items()]
        grp = [h['node'] for h in heads.values()]
        for k, h in heads.items():
            h['node'].grp = grp
            for k2, b in h['bk']:
                heads[k2]['node'].backs.append((b.trace, b, h['node']))
                for r in heads[k2]['store']:
                    pass
            self.terminals.extend(h['term'])
            for tgt, s in h['outs']:
                s.trace = TNode('exit', (lid, h['node'], tgt), (s.trace,), s.facts, h['node'].where, tuple(self.loopstack[:-1]), fr.ctx)
            for c in copied:
                if c is not None and all(copied): self.copy_out(fr, h, *c) if c[0] is h else None
            self.filled(lid, k, h)
            out.extend(h['outs'])
            rets.extend(h['rets'])
            self.loop_heads.setdefault(lid, [])
        self.loop_heads[lid] = [h for h in heads.values()]
        # what feeds each phi
        for h in heads.values():
            for e in h['entries']:
                self.record_phi(h['store'], e.store, e.facts, None)
            for k2, b in h['bk']:
                self.record_phi(heads[k2]['store'], b.store, b.facts, lid)
        return out + [('ret', s) for s in rets]

    def copied(self, fr, lid, k, h):
        """an iteration that does one thing to a sequence, storing element kappa of another sequence at base + kappa, in a loop
        that runs over all of that sequence: (head, root, base, source)"""
        if len(h['bk']) != 1 or h['bk'][0][0] != k or len(h['entries']) != 1 or h['rets'] or not h['outs']: return None
        b = h['bk'][0][1]
        kap = self.kap(lid)
        r = None
        for r0, hv in h['store'].items():
            bv = b.store.get(r0)
            if hv.op == 'phi' and bv is not None and bv.op == 'upd' and bv.args[0] is hv:
                if r is not None: return None
                r = r0
        if r is None: return None
        hv = h['store'][r]
        i, x = b.store[r].args[1:3]
        if x.op != 'idx' or x.args[1] is not kap or lid in x.args[0].loops or not (hv.ty or '').startswith('alloc::vec::Vec<u8'): return None
        base = sub(i, kap)
        if lid in base.loops or r not in h['entries'][0].store: return None
        for _, s in h['outs']:
            if s.store.get(r) is not hv or not self.entails(s.facts, le(self.length(x.args[0]), kap)): return None
        return (h, r, base, x.args[0])

    def filled(self, lid, k, h):
        """a loop that runs a known number of times and appends the same value each time leaves that many copies of it"""
        if len(h['bk']) != 1 or h['bk'][0][0] != k or len(h['entries']) != 1: return
        b = h['bk'][0][1]
        kap = self.kap(lid)
        for r, hv in h['store'].items():
            bv = b.store.get(r)
            v = h['entries'][0].store.get(r)
            if hv.op != 'phi' or bv is None or bv.op != 'push' or bv.args[0] is not hv or v is None or v.op != 'vec' or lid in bv.args[1].loops: continue
            for _, s in h['outs']:
                if s.store.get(r) is not hv: continue
                for f in s.facts:
                    if f.op != 'ge0': continue
                    c, d = lin_parts(f.args[0])
                    if d == {kap: 1} and 0 <= -c <= 64 and self.entails(s.facts, le(kap, Int(-c))):
                        s.store[r] = mk('vec', v.args[0] + (bv.args[1],) * -c, ty=v.ty)
                        break

    def copy_out(self, fr, h, _h, r, base, src):
        """such a loop is the copy of the whole source: say so at its end, in place of the stores of its iterations"""
        n = self.length(src)
        stack, seen = [h['bk'][0][1].trace], set()
        while stack:
            t = stack.pop()
            if t is None or t is h['node'] or t in seen: continue
            seen.add(t)
            if t.kind == 'store' and t.data[0] == r: self.absorbed.add(t)
            stack.extend(t.preds)
        v = h['entries'][0].store[r]
        for _, s in h['outs']:
            if src.op == 'vec' and len(src.args[0]) <= 32:
                parts = [(('i', addc(base, j)), x) for j, x in enumerate(src.args[0])]
            else:
                parts = [(('rng', base, add(base, n)), src)]
            w = v
            for e, x in parts:
                w = self.setp(s, w, (e,), x)
                s.trace = TNode('store', (r, (e,), x), (s.trace,), s.facts, h['node'].where, tuple(self.loopstack[:-1]), fr.ctx)
            s.store[r] = w

    def record_phi(self, hstore, vstore, facts, lid):
        for r, hv in hstore.items():
            v = vstore.get(r)
            if v is not None:
                self._rp(hv, v, facts, lid)

    def _rp(self, hv, v, facts, lid):
        if hv is v: return
        if hv.op == 'phi':
            l = self.phi_in.setdefault(hv, [])
            if not any(x[0] is v and x[1] == facts for x in l):
                l.append((v, facts, lid))
        elif hv.op == 'adt' and v.op == 'adt' and hv.args[1] == v.args[1]:
            for a, b in zip(hv.args[3], v.args[3]): self._rp(a, b, facts, lid)

    def root_varies(self, r, lid):
        if r[0] == 'H': return lid in r[1].loops
        if r[0] == 'B': return True
        return False

    def kap(self, lid):
        return mk('kap', frozenset(self.loopstack), lid, ty='usize')

    def compare(self, fr, lid, modes, up, leaf, hv, bv):
        m = modes.get(leaf)
        if m is not None and leaf in up: m = up[leaf]
        if m == 'phi' or (isinstance(m, tuple) and m[0] == 'vphi'):
            if isinstance(m, tuple):
                d = sub(self.length(bv), self.length(hv))
                if m[1] is not None and not (d.op == 'int' and d.args[0] == m[1]):
                    if m[1] == 0 and d.op == 'int' and not m[2]:
                        up[leaf] = ('vphi', d.args[0], True)
                    else:
                        up[leaf] = ('vphi', None, True)
            return
        if isinstance(m, tuple) and m[0] == 'ind':
            if bv is not addc(hv, m[1]):
                up[leaf] = 'phi'
            return
        if hv is bv and hv.op != 'adt':
            return
        if hv.op == 'adt' and bv.op == 'adt' and hv.args[:2] == bv.args[:2] and len(hv.args[3]) == len(bv.args[3]) and m is None:
            # identical values are looked into as well: a part that was taken to move along must not stand still
            for i, (x, y) in enumerate(zip(hv.args[3], bv.args[3])):
                self.compare(fr, lid, modes, up, leaf + ((hv.args[1], i),), x, y)
            return
        inv = lid not in bv.loops
        if m == 'part' or (isinstance(m, tuple) and m[0] == 'part'):
            if hv.op == 'adt' and bv.op == 'adt' and hv.args[:2] == bv.args[:2]:
                for i, (x, y) in enumerate(zip(hv.args[3], bv.args[3])):
                    self.compare(fr, lid, modes, up, leaf + ((hv.args[1], i),), x, y)
                return
            if bv.op == 'adt':
                # payload reaches the head for the first time or replaces another variant
                for i, y in enumerate(bv.args[3]):
                    self.payload_mode(lid, modes, up, leaf + ((bv.args[1], i),), y)
                return
            if not inv and (self.is_intval(hv) or self.is_intval(bv)) or self.derived(bv, hv):
                up[leaf] = ('vphi', None, True) if is_vecish(hv) or is_vecish(bv) else 'phi'
            return
        if hv is bv: return
        if self.is_intval(hv) and self.is_intval(bv):
            d = sub(bv, hv)
            if d.op == 'int':
                up[leaf] = ('ind', d.args[0])
            elif inv and not self.derived(bv, hv):
                up[leaf] = ('part', 0)
            else:
                up[leaf] = 'phi'
            return
        if is_vecish(hv) or is_vecish(bv):
            d = sub(self.length(bv), self.length(hv))
            up[leaf] = ('vphi', d.args[0] if d.op == 'int' else None, d.op == 'int' and d.args[0] != 0)
            return
        if bv.op == 'adt' or hv.op == 'adt':
            up[leaf] = ('part', 0)
            if bv.op == 'adt':
                for i, y in enumerate(bv.args[3]):
                    self.payload_mode(lid, modes, up, leaf + ((bv.args[1], i),), y)
            return
        if inv and not self.derived(bv, hv):
            up[leaf] = ('part', 0)
        else:
            up[leaf] = 'phi'

    def derived(self, bv, hv):
        """is the next value computed from the current one?"""
        return hv.op not in ('int', 'true', 'false', 'undef', 'adt', 'str', 'sym') and hv in subterms(bv)

    def payload_mode(self, lid, modes, up, leaf, y):
        if leaf in modes or leaf in up: return
        if y.op == 'adt':
            for i, z in enumerate(y.args[3]):
                self.payload_mode(lid, modes, up, leaf + ((y.args[1], i),), z)
            return
        if lid in y.loops:
            up[leaf] = ('vphi', None, True) if is_vecish(y) else 'phi'

    def is_intval(self, v):
        return v.op in ('int', 'lin', 'kap', 'mul', 'bin', 'min', 'max', 'len', 'sat') or is_int(v.ty or '')

    def generalize(self, fr, lid, modes, leaf, v, hv, entry):
        m = modes.get(leaf)
        if m == 'phi':
            ty = (v.ty if v.op != 'adt' else None) or self.leaf_ty(fr, leaf)
            return mk('phi', frozenset(self.loopstack), lid, leaf_name(leaf), None, ty=ty)
        if isinstance(m, tuple) and m[0] == 'vphi':
            ln = None
            if m[1] is not None:
                if entry:
                    ln = add(self.length(v), scale(self.kap(lid), m[1]))
                else:
                    ln = self.length(hv)
            return mk('phi', frozenset(self.loopstack), lid, leaf_name(leaf), ln, ty=v.ty)
        if isinstance(m, tuple) and m[0] == 'ind':
            if entry:
                return add(v, scale(self.kap(lid), m[1]))
            return hv
        if v.op == 'adt':
            hf = hv.args[3] if hv.op == 'adt' and hv.args[1] == v.args[1] and len(hv.args[3]) == len(v.args[3]) else v.args[3]
            fs = [self.generalize(fr, lid, modes, leaf + ((v.args[1], i),), x, y, entry) for i, (x, y) in enumerate(zip(v.args[3], hf))]
            return mk('adt', v.args[0], v.args[1], v.args[2], tuple(fs), ty=v.ty)
        if isinstance(m, tuple) and m[0] == 'part':
            if not entry and lid in v.loops and v is not hv:
                return mk('phi', frozenset(self.loopstack), lid, leaf_name(leaf), None, ty=v.ty)
            if not entry and lid in v.loops:
                return v
        return v

    def coarsen(self, lid, modes, heads, g):
        ch = False
        for leaf, m in list(modes.items()):
            if isinstance(m, tuple) and m[0] == 'part':
                modes[leaf] = 'phi'
                ch = True
        if not ch:
            raise Unsupported('too many partitions in loop %s' % lid)

    def fits(self, fr, lid, store):
        """an integer that a loop counts up or down fits its type"""
        out = set()
        for r, v in store.items():
            if r[0] != 'L' or r[1] != fr.ctx or v.op not in ('lin', 'kap') or not any(t.op == 'kap' and lid in t.loops for t in lin_parts(v)[1]): continue
            lo, hi = ty_range(fr.f['locals'][r[2]]) or (None, None)
            if lo is None: continue
            for c in (le(Int(lo), v), le(v, Int(hi)) if hi <= 0xffff else TRUE):
                if c not in (TRUE, FALSE) and not self.entails((), c): out.add(c)
        return frozenset(out)

    def kappa_facts(self, lid, b, h, fr):
        """facts of the back edge that only speak about the induction variable, restated for the next iteration"""
        inv = self.modes.get((lid, 'inv'))
        if not inv: return frozenset()
        out = set()
        k = self.kap(lid)
        for f in inv:
            # f must hold for kappa+1 under the facts of the back edge
            g = subst(f, {k: addc(k, 1)})
            if self.entails(b.facts, g):
                out.add(f)
        return frozenset(out)

    def conjecture(self, lid, facts, c):
        """a guard 'bound - kappa > 0' inside loop lid: try 'bound - kappa >= 0' as an invariant; what does not survive an
        iteration is dropped again when the facts of the loop head are intersected with those of the back edges"""
        d = lin_parts(c.args[0])[1]
        k = None
        for t in d:
            if lid in t.loops:
                if k is not None or t.op != 'kap': return
                k = t
        if k is None or d[k] != -1 or len(d) > 3: return
        c = ge0(addc(c.args[0], 1))
        tried = self.tried[lid]
        if c in tried or c in (TRUE, FALSE) or wide(c): return
        tried.add(c)
        if self.entails(facts, c): return
        c0 = subst(c, {k: Int(0)})
        entries = self.loop_entries[lid]
        if not all(self.entails(e.facts, c0) for e in entries): return
        key = (lid, 'inv')
        self.modes[key] = (self.modes.get(key) or frozenset()) | {c}
        for e in entries: e.facts = e.facts | {c}
        raise Restart(lid)

    # -------------------------------------------------------------- entry
    def analyse(self, key, args=None, facts=()):
        f = self.prog.fns[key]
        self.cur = None
        self.span = f['span']
        st = State({}, frozenset(facts), None)
        ctx = self.ctx(0, key, 'entry')
        fr = Frame(f, self.prog.cfg(f), ctx, None)
        self.cur = fr
        self.entry_ctx = ctx
        names = {}
        for n, p in f['names']:
            if not p[1]: names[p[0]] = n
        argv = []
        for i in range(1, f['args'] + 1):
            v = args[i - 1] if args and i - 1 < len(args) and args[i - 1] is not None else mk('sym', names.get(i, 'arg%d' % i) + ('#%d' % self.tag if self.tag else ''), ty=f['locals'][i])
            argv.append(v)
            st.store[('L', ctx, i)] = v
        self.analysed.add(key)
        st.trace = TNode('start', (key,), (), st.facts, (key, f['span']), ())
        rets = self.run_fn(fr, st)
        out = []
        for s in rets:
            v = s.store.pop(('L', ctx, 0), UNIT)
            n = TNode('return', (v,), (s.trace,), s.facts, (key, f['span']), ())
            n.store = s.store
            s.trace = n
            self.terminals.append(('return', n))
            out.append((s, v))
        return Result(self, argv, out)


def leaf_name(leaf):
    r = leaf[0]
    if r[0] == 'L': s = '_%s@%s' % (r[2], r[1])
    elif r[0] == 'H': s = '*' + show(r[1], 4)
    else: s = str(r)
    for v, i in leaf[1:]:
        s += '.%s:%s' % (v, i)
    return s


class Result(object):
    """the events of one analysis, restricted to those that reach a return or an abort"""

    def __init__(self, I, args, rets):
        self.I, self.args, self.rets = I, args, rets
        seen = {}
        order = []
        stack = [n for _, n in I.terminals if n is not None]
        for s, v in rets: stack.append(s.trace)
        while stack:
            n = stack.pop()
            if n is None or n.id in seen: continue
            seen[n.id] = n
            order.append(n)
            stack.extend(n.preds)
            if n.backs:
                for tr, b, hn in n.backs: stack.append(tr)
        order.sort(key=lambda n: n.id)
        self.nodes = order
        self.ids = seen

    def events(self, kind=None, fn=None):
        return [n for n in self.nodes if (kind is None or n.kind == kind) and (fn is None or fn(n))]
