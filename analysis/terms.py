"""Hash-consed symbolic value terms: the value domain of the dataflow analysis.

Terms are value numbers: two program points that provably hold the same value
hold the same term object.  Integer sums are kept in a canonical linear form.
Nothing here searches or solves; entailment is bounded subtraction of facts.
"""
import sys
sys.setrecursionlimit(100000)

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128, 'bool': 1, 'char': 32}


def is_int(ty):
    return ty in WIDTH and ty != 'bool'


def ty_range(ty):
    if ty not in WIDTH:
        return (None, None)
    w = WIDTH[ty]
    if ty[0] == 'i':
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if ty == 'bool':
        return (0, 1)
    return (0, (1 << w) - 1)


class Term(object):
    __slots__ = ('op', 'args', 'id', 'loops', 'ty', '_atoms')

    def __repr__(self):
        return show(self)

    def __hash__(self):        # deterministic set order
        return self.id


_tab = {}
_next = [0]
NOLOOPS = frozenset()


# operators whose machine type is part of their meaning; elsewhere the type is only an annotation
TYPED = {'vec', 'bin', 'cast', 'sat', 'fbin', 'float', 'i2f', 'f2i', 'f2f', 'ite', 'fneg'}


def mk(op, *args, **kw):
    ty = kw.get('ty')
    key = (op, args, ty) if op in TYPED else (op, args)
    t = _tab.get(key)
    if t is not None:
        if t.ty is None and ty is not None:
            t.ty = ty
            _range0.clear()
        return t
    t = Term()
    t.op = op
    t.args = args
    t.ty = ty
    _next[0] += 1
    t.id = _next[0]
    lp = NOLOOPS
    for a in args:
        lp = lp | _loops_of(a)
    if op in ('phi', 'kap', 'res'):
        lp = lp | args[0]          # args[0]: frozenset of loop contexts the symbol varies with
    t.loops = lp
    t._atoms = None
    _tab[key] = t
    return t


def _loops_of(a):
    if isinstance(a, Term):
        return a.loops
    if isinstance(a, tuple):
        r = NOLOOPS
        for x in a:
            r = r | _loops_of(x)
        return r
    return NOLOOPS


def Int(v):
    return mk('int', int(v))


def Bool(b):
    return TRUE if b else FALSE


TRUE = mk('true')
FALSE = mk('false')
UNDEF = mk('undef')


def Sym(name, ty=None):
    return mk('sym', name, ty=ty)


def Adt(path, variant, vname, fields):
    return mk('adt', path, variant, vname, tuple(fields))


def Tup(fields):
    return mk('adt', '()', 0, '', tuple(fields))


UNIT = Tup(())


def Some(x):
    return Adt('core::option::Option', 1, 'Some', (x,))


NONE = Adt('core::option::Option', 0, 'None', ())


def Ok(x):
    return Adt('core::result::Result', 0, 'Ok', (x,))


def Err(x):
    return Adt('core::result::Result', 1, 'Err', (x,))


def Ref(root, path=()):
    return mk('ref', root, tuple(path))


# ---------------------------------------------------------------- linear sums
def lin_parts(t):
    """-> (const, {term: coef})"""
    if t.op == 'int':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return Int(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('lin', c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def lin_comb(a, ka, b, kb):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = {t: k * ka for t, k in da.items()}
    for t, k in db.items():
        d[t] = d.get(t, 0) + k * kb
    return mk_lin(ca * ka + cb * kb, d)


def add(a, b):
    return lin_comb(a, 1, b, 1)


def sub(a, b):
    return lin_comb(a, 1, b, -1)


def scale(a, k):
    return lin_comb(a, k, Int(0), 0)


def addc(a, c):
    return lin_comb(a, 1, Int(c), 1)


def mul(a, b):
    if a.op == 'int':
        return scale(b, a.args[0])
    if b.op == 'int':
        return scale(a, b.args[0])
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    # distribute small products
    if len(da) + (ca != 0) <= 3 and len(db) + (cb != 0) <= 3 and (len(da) + (ca != 0) > 1 or len(db) + (cb != 0) > 1 or list(da.values()) != [1] or list(db.values()) != [1]):
        r = Int(ca * cb)
        for t, k in da.items():
            r = add(r, scale(t, k * cb))
        for t, k in db.items():
            r = add(r, scale(t, k * ca))
        for t, k in da.items():
            for u, l in db.items():
                r = add(r, scale(_mul2(t, u), k * l))
        return r
    return _mul2(a, b)


def _mul2(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk('mul', a, b)


# ---------------------------------------------------------------- intervals
def term_range(t, lookup=None, depth=0, memo=None):
    """interval of an integer term; lookup(t) may give better bounds for leaves"""
    if memo is None:
        # without facts the interval of a term never changes
        if lookup is None:
            memo = _range0
        else:
            memo = {}
    r = memo.get(t)
    if r is None:
        r = memo[t] = _term_range(t, lookup, depth, memo)
    return r


_range0 = {}


def _term_range(t, lookup, depth, memo):
    lo = hi = None
    op = t.op
    if op == 'int':
        return (t.args[0], t.args[0])
    if depth > 40:
        return ty_range(t.ty) if t.ty else (None, None)
    if op == 'lin':
        lo = hi = t.args[0]
        for u, k in t.args[1]:
            a, b = term_range(u, lookup, depth + 1, memo)
            if k < 0:
                a, b = b, a
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
        if lookup:
            lo, hi = meet((lo, hi), lookup(t))
        return (lo, hi)
    if op == 'mul':
        a = term_range(t.args[0], lookup, depth + 1, memo)
        b = term_range(t.args[1], lookup, depth + 1, memo)
        if None not in a and None not in b:
            c = [x * y for x in a for y in b]
            lo, hi = min(c), max(c)
        elif a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
            lo = a[0] * b[0]
    elif op == 'bin':
        lo, hi = bin_range(t, lookup, depth, memo)
    elif op == 'min' or op == 'max':
        rs = [term_range(x, lookup, depth + 1, memo) for x in t.args]
        los, his = [r[0] for r in rs], [r[1] for r in rs]
        f = min if op == 'min' else max
        if op == 'min':
            hs = [h for h in his if h is not None]
            hi = min(hs) if hs else None
            lo = None if None in los else min(los)
        else:
            ls = [l for l in los if l is not None]
            lo = max(ls) if ls else None
            hi = None if None in his else max(his)
    elif op == 'len':
        lo, hi = 0, (1 << 63) - 1
    elif op == 'kap':
        lo = 0
    elif op == 'ite':
        a = term_range(t.args[1], lookup, depth + 1, memo)
        b = term_range(t.args[2], lookup, depth + 1, memo)
        lo = None if None in (a[0], b[0]) else min(a[0], b[0])
        hi = None if None in (a[1], b[1]) else max(a[1], b[1])
    elif op == 'sat':       # saturating_{add,sub,mul}(name, a, b) : type
        a = term_range(t.args[1], lookup, depth + 1, memo)
        b = term_range(t.args[2], lookup, depth + 1, memo)
        if None not in a and None not in b:
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[t.args[0]]
            c = [f(x, y) for x in a for y in b]
            l, h = ty_range(t.ty)
            lo, hi = min(max(min(c), l), h), max(min(max(c), h), l)
    if t.ty:
        lo, hi = meet((lo, hi), ty_range(t.ty))
    if lookup:
        lo, hi = meet((lo, hi), lookup(t))
    return (lo, hi)


def meet(a, b):
    if b is None:
        return a
    lo = a[0] if b[0] is None else (b[0] if a[0] is None else max(a[0], b[0]))
    hi = a[1] if b[1] is None else (b[1] if a[1] is None else min(a[1], b[1]))
    return (lo, hi)


def bin_range(t, lookup, depth, memo=None):
    name, a, b = t.args
    if t.ty not in WIDTH:
        return (None, None)
    ra = term_range(a, lookup, depth + 1, memo)
    rb = term_range(b, lookup, depth + 1, memo)
    full = ty_range(t.ty)
    if ra[0] is None or ra[0] < 0:
        return full
    if name == 'BitAnd':
        his = [h for h in (ra[1], rb[1]) if h is not None]
        return (0, min(his)) if his else full
    if name in ('BitOr', 'BitXor'):
        if ra[1] is not None and rb[1] is not None:
            m = max(ra[1], rb[1])
            lo = max(ra[0], rb[0] or 0) if name == 'BitOr' else 0
            return (lo, (1 << m.bit_length()) - 1)
        return full
    if name == 'Shr':
        if rb[0] is not None and rb[0] == rb[1]:
            return (ra[0] >> rb[0], None if ra[1] is None else ra[1] >> rb[0])
        return (0, ra[1])
    if name == 'Shl':
        if rb[0] is not None and rb[0] == rb[1] and ra[1] is not None and (ra[1] << rb[0]) <= full[1]:
            return (ra[0] << rb[0], ra[1] << rb[0])
        return full
    if name == 'Div':
        if rb[0] is not None and rb[0] > 0:
            return (0 if rb[1] is None else ra[0] // rb[1], None if ra[1] is None else ra[1] // rb[0])
        return (0, ra[1])
    if name == 'Rem':
        if rb[1] is not None and rb[0] is not None and rb[0] > 0:
            hi = rb[1] - 1
            if ra[1] is not None:
                hi = min(hi, ra[1])
            if ra[1] is not None and ra[1] < rb[0]:
                return ra
            return (0, hi)
        return (0, ra[1])
    return full


# ---------------------------------------------------------------- operators
def truncate(t, ty):
    """value of `t as ty` (ints)"""
    lo, hi = ty_range(ty)
    a, b = term_range(t)
    if a is not None and b is not None and a >= lo and b <= hi:
        return t
    if t.op == 'int':
        w = WIDTH[ty]
        v = t.args[0] & ((1 << w) - 1)
        if ty[0] == 'i' and v >= 1 << (w - 1):
            v -= 1 << w
        return Int(v)
    if ty[0] == 'u' and a is not None and a >= 0:
        return binop('BitAnd', t, Int(hi), ty)
    return mk('cast', t, ty=ty)


def binop(name, a, b, ty):
    """arithmetic on machine integers that is not plain +,-,*"""
    if a.op == 'int' and b.op == 'int':
        x, y = a.args[0], b.args[0]
        try:
            if name == 'BitAnd': return Int(x & y)
            if name == 'BitOr': return Int(x | y)
            if name == 'BitXor': return Int(x ^ y)
            if name == 'Shl': return truncate(Int(x << y), ty)
            if name == 'Shr': return Int(x >> y)
            if name == 'Div' and y and x >= 0: return Int(x // y)
            if name == 'Rem' and y and x >= 0: return Int(x % y)
        except Exception:
            pass
    if name in ('BitAnd', 'BitOr', 'BitXor') and a.op == 'int':
        a, b = b, a
    ra = term_range(a)
    nonneg = ra[0] is not None and ra[0] >= 0
    if b.op == 'int' and nonneg:
        c = b.args[0]
        if name == 'Div' and c > 0 and c & (c - 1) == 0:
            name, b, c = 'Shr', Int(c.bit_length() - 1), c.bit_length() - 1
        elif name == 'Rem' and c > 0 and c & (c - 1) == 0:
            name, b, c = 'BitAnd', Int(c - 1), c - 1
        if name == 'Div' and c == 1:
            return a
        if name == 'Shr':
            if c == 0:
                return a
            if ra[1] is not None and (ra[1] >> c) == 0:
                return Int(0)
            if a.op == 'bin' and a.args[0] == 'Shr' and a.args[2].op == 'int':
                return binop('Shr', a.args[1], Int(a.args[2].args[0] + c), ty)
            # (2^c * x + y) >> c with 0 <= y < 2^c
            k, d = lin_parts(a)
            q, r = {}, {}
            for t, f in d.items():
                (q if f % (1 << c) == 0 else r)[t] = f
            rem = mk_lin(k % (1 << c), r)
            rr = term_range(rem)
            if q and rr[0] is not None and rr[1] is not None and rr[0] >= 0 and rr[1] < (1 << c):
                return mk_lin(k >> c, {t: f >> c for t, f in q.items()})
        if name == 'BitAnd':
            if c == 0:
                return Int(0)
            if c & (c + 1) == 0:      # low mask
                if ra[1] is not None and ra[1] <= c:
                    return a
                n = c + 1
                if a.op == 'bin' and a.args[0] == 'BitAnd' and a.args[2].op == 'int':
                    return binop('BitAnd', a.args[1], Int(c & a.args[2].args[0]), ty)
                k, d = lin_parts(a)
                if a.op == 'lin':
                    d2 = {t: f % n for t, f in d.items()}
                    a2 = mk_lin(k % n, d2)
                    if a2 is not a:
                        r2 = term_range(a2)
                        if r2[0] is not None and r2[0] >= 0:
                            return binop('BitAnd', a2, b, ty)
            elif a.op == 'bin' and a.args[0] == 'BitAnd' and a.args[2].op == 'int':
                return binop('BitAnd', a.args[1], Int(c & a.args[2].args[0]), ty)
        if name == 'BitOr' and c == 0:
            return a
        if name == 'Shl':
            hi = ty_range(ty)[1]
            if ra[1] is not None and (ra[1] << c) <= hi:
                return scale(a, 1 << c)
    if name == 'BitOr':
        # disjoint bits -> sum
        ba, bb = known_bits(a), known_bits(b)
        if ba is not None and bb is not None and ba & bb == 0:
            return add(a, b)
    if name in ('BitAnd', 'BitOr', 'BitXor') and b.op != 'int' and a.id > b.id:
        a, b = b, a
    return mk('bin', name, a, b, ty=ty)


def known_bits(t):
    """mask of the bits that may be set, for non-negative bounded terms"""
    lo, hi = term_range(t)
    if lo is None or hi is None or lo < 0:
        return None
    m = (1 << hi.bit_length()) - 1
    if t.op == 'int':
        return t.args[0]
    if t.op == 'bin' and t.args[0] == 'BitAnd' and t.args[2].op == 'int':
        k = known_bits(t.args[1])
        return (m if k is None else k) & t.args[2].args[0]
    if t.op == 'lin':
        r = t.args[0]
        if r < 0:
            return m
        for u, k in t.args[1]:
            if k < 0 or k & (k - 1):
                return m
            b = known_bits(u)
            if b is None:
                return m
            b *= k
            if b & r:
                return m
            r |= b
        return r & m
    return m


# ---------------------------------------------------------------- bit vectors
def bits(t, n=32):
    """provenance of the low n bits: list of 0, 1 or (term, bit)"""
    if t.op == 'int':
        return [(t.args[0] >> i) & 1 for i in range(n)]
    if t.op == 'bin' and t.args[2].op == 'int':
        name, a, c = t.args[0], t.args[1], t.args[2].args[0]
        if name == 'BitAnd':
            return [x if (c >> i) & 1 else 0 for i, x in enumerate(bits(a, n))]
        if name == 'BitOr':
            return [1 if (c >> i) & 1 else x for i, x in enumerate(bits(a, n))]
        if name == 'Shr':
            return bits(a, n + c)[c:]
        if name == 'Shl':
            w = WIDTH.get(t.ty, 64)
            return ([0] * c + bits(a, n))[:n][:w] + [0] * max(0, n - w)
    if t.op == 'lin':
        # sum of shifted pieces with disjoint bits; otherwise opaque
        acc = [(t.args[0] >> i) & 1 for i in range(n)] if t.args[0] >= 0 else None
        if acc is not None:
            ok = True
            for u, k in t.args[1]:
                if k <= 0 or k & (k - 1):
                    ok = False
                    break
                s = k.bit_length() - 1
                ub = ([0] * s + bits(u, n))[:n]
                for i in range(n):
                    if ub[i] != 0:
                        if acc[i] != 0:
                            ok = False
                            break
                        acc[i] = ub[i]
                if not ok:
                    break
            if ok:
                return acc
    lo, hi = term_range(t)
    w = hi.bit_length() if (hi is not None and lo is not None and lo >= 0) else 10 ** 6
    return [(t, i) if i < w else 0 for i in range(n)]


# ---------------------------------------------------------------- conditions
def ge0(l):
    lo, hi = term_range(l)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    return mk('ge0', l)


def lt(a, b):
    return ge0(addc(sub(b, a), -1))


def le(a, b):
    return ge0(sub(b, a))


def eq0(l):
    lo, hi = term_range(l)
    if lo == 0 and hi == 0:
        return TRUE
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    c, d = lin_parts(l)
    first = min(d, key=lambda t: t.id)
    if d[first] < 0:
        l = scale(l, -1)
    return mk('eq0', l)


def int_eq(a, b):
    return eq0(sub(a, b))


def Not(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.args[0]
    if c.op == 'ge0': return ge0(addc(scale(c.args[0], -1), -1))
    return mk('not', c)


def And(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk('and', a, b)


def Or(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk('or', a, b)


def gen_eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'int' or b.op == 'int' or is_int(a.ty or '') or is_int(b.ty or '') or a.op == 'lin' or b.op == 'lin':
        return int_eq(a, b)
    if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.args[3], b.args[3]):
            r = And(r, gen_eq(x, y))
        return r
    if a.op == 'str' and b.op == 'str':
        return Bool(a.args[0] == b.args[0])
    if a in (TRUE, FALSE):
        a, b = b, a
    if b is TRUE: return a
    if b is FALSE: return Not(a)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def isvar(t, v):
    if t.op == 'adt':
        return Bool(t.args[1] == v)
    return mk('var', t, v)


# ---------------------------------------------------------------- printing
def show(t, depth=0, maxd=14):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, depth + 1, maxd) for x in t) + ')'
        if isinstance(t, frozenset):
            return ''
        return str(t)
    if depth > maxd:
        return '…'
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1, maxd)
    if o in ('int', 'sym'): return str(a[0])
    if o == 'str': return repr(a[0])
    if o == 'float': return str(a[0])
    if o in ('true', 'false', 'undef'): return o
    if o == 'lin':
        r = []
        for u, k in a[1]:
            r.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + s(u))
        if a[0]: r.append(str(a[0]) if abs(a[0]) < 256 else hex(a[0]))
        return '(' + ' + '.join(r) + ')'
    if o == 'adt':
        n = a[2] or a[0].split('::')[-1]
        return (n if n != '()' else '') + ('(' + ', '.join(s(x) for x in a[3]) + ')' if a[3] or n == '()' else '')
    if o == 'fld': return s(a[0]) + '.' + (str(a[1]) + '@' if a[1] is not None else '') + str(a[3] or a[2])
    if o == 'idx': return s(a[0]) + '[' + s(a[1]) + ']'
    if o == 'ref': return '&' + root_name(a[0]) + ''.join(path_str(e, depth) for e in a[1])
    if o == 'phi': return 'φ' + str(a[1]) + '.' + str(a[2])
    if o == 'kap': return 'κ' + str(a[1])
    if o == 'res': return str(a[1]).split('::')[-1] + '#' + str(a[2]) + '(' + ','.join(s(x) for x in a[3]) + ')'
    if o == 'app': return str(a[0]).split('::')[-1] + '(' + ', '.join(s(x) for x in a[1:]) + ')'
    if o == 'bin': return '(' + s(a[1]) + {'BitAnd': '&', 'BitOr': '|', 'Shr': '>>', 'Shl': '<<', 'Div': '/', 'Rem': '%'}.get(a[0], a[0]) + s(a[2]) + ')'
    if o == 'ge0': return s(a[0]) + '>=0'
    if o == 'eq0': return s(a[0]) + '==0'
    return o + '(' + ', '.join(s(x) for x in a) + ')'


def root_name(r):
    if isinstance(r, tuple) and r[0] == 'L':
        return '_%s@%s' % (r[2], r[1])
    if isinstance(r, tuple) and r[0] == 'H':
        return '*' + show(r[1], 4)
    return str(r)


def path_str(e, depth=0):
    if e[0] == 'f': return '.' + (str(e[1]) + '@' if e[1] is not None else '') + str(e[3] or e[2])
    if e[0] == 'i': return '[' + show(e[1], depth + 1) + ']'
    if e[0] == 'rng': return '[' + show(e[1], depth + 1) + '..' + show(e[2], depth + 1) + ']'
    return str(e)


def subterms(t, seen=None):
    """all subterms, including those inside refs"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen


def subst(t, m, memo=None):
    """replace terms by terms, rebuilding arithmetic canonically"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    o = t.op
    S = lambda x: subst(x, m, memo)

    def S2(x):
        if isinstance(x, Term): return S(x)
        if isinstance(x, tuple): return tuple(S2(y) for y in x)
        return x
    if o == 'lin':
        r = Int(t.args[0])
        for u, k in t.args[1]:
            r = add(r, scale(S(u), k))
    elif o == 'mul':
        r = mul(S(t.args[0]), S(t.args[1]))
    elif o == 'bin':
        r = binop(t.args[0], S(t.args[1]), S(t.args[2]), t.ty)
    elif o == 'ge0':
        r = ge0(S(t.args[0]))
    elif o == 'eq0':
        r = eq0(S(t.args[0]))
    elif o == 'not':
        r = Not(S(t.args[0]))
    elif o in ('and', 'or'):
        r = (And if o == 'and' else Or)(S(t.args[0]), S(t.args[1]))
    elif o == 'eq':
        r = gen_eq(S(t.args[0]), S(t.args[1]))
    elif o == 'var':
        r = isvar(S(t.args[0]), t.args[1])
    elif o == 'fld':
        b = S(t.args[0])
        r = field(b, t.args[1], t.args[2], t.args[3], t.ty)
    elif o in ('int', 'sym', 'str', 'float', 'true', 'false', 'undef', 'phi', 'kap'):
        r = t
    else:
        na = tuple(S2(x) for x in t.args)
        r = t if na == t.args else mk(o, *na, ty=t.ty)
    memo[t] = r
    return r


def field(v, variant, idx, name, ty):
    if v.op == 'adt':
        fs = v.args[3]
        if (variant is None or v.args[1] == variant) and idx < len(fs):
            return fs[idx]
        return UNDEF
    if v.op == 'ref' and idx == 0:
        return v               # Box internals
    if v.op == 'setf':
        if (v.args[1], v.args[2]) == (variant, idx):
            return v.args[3]
        return field(v.args[0], variant, idx, name, ty)
    if (ty is None or len(ty) == 1) and idx == 0: ty = payload_type(v.ty, variant) or ty
    return mk('fld', v, variant, idx, name, ty=ty)


def payload_type(ty, k):
    """type of what variant k of an Option or Result of type ty holds"""
    if not ty: return None
    if ty.startswith('core::option::Option<') and k == 1: return ty[21:-1]
    if ty.startswith('core::result::Result<'):
        d, cur, out = 0, '', []
        for c in ty[21:-1]:
            if c in '<([': d += 1
            elif c in '>)]': d -= 1
            if c == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else: cur += c
        out.append(cur.strip())
        if k in (0, 1) and k < len(out): return out[k]
    return None
