"""P27: the JSON form of a song."""
from terms import *
from rules.base import *
from rules.cli import fin, fin_keep, string

ASSUME = ['serde and serde_json behave as documented: the derived code\'s calls write and read what their arguments say, missing optional members read as None, and std types round-trip']
PLAIN = {'bool', 'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'alloc::string::String', '()'}
BOXES = ('alloc::vec::Vec', 'core::option::Option', 'alloc::boxed::Box')
HEADS = ('serialize_struct', 'serialize_tuple_variant', 'serialize_struct_variant')
SER, DE, VIS = 'serde::ser::Serialize', 'serde::de::Deserialize', 'serde::de::Visitor'


def parts(ty):
    """(outer path, type arguments) of a type"""
    ty = ty.strip()
    if ty.startswith('(') and ty.endswith(')'): return '()', split(ty[1:-1])
    if '<' in ty and ty.endswith('>'): return ty[:ty.index('<')], split(ty[ty.index('<') + 1:-1])
    return ty, []


def split(s):
    r, d, cur = [], 0, ''
    for c in s:
        if c in '<([': d += 1
        if c in '>)]': d -= 1
        if c == ',' and d == 0:
            r.append(cur)
            cur = ''
        else: cur += c
    return [x.strip() for x in r + [cur] if x.strip()]


def local_types(ck, ty, seen, odd):
    p, a = parts(ty)
    if p in ck.prog.adts and any(f.get('impl_self') and strip_lt(f['impl_self']).split('<')[0] == p and f.get('impl_trait') in (SER, DE) for f in ck.prog.fns.values()):
        if p in seen: return
        seen.append(p)
        for v in ck.adt(p)['variants']:
            for n, t in v['fields']: local_types(ck, t, seen, odd)
    elif p in BOXES or p == '()':
        for x in a: local_types(ck, x, seen, odd)
    elif p not in PLAIN: odd.append(ty)


class Type(object):
    """what is written and read for a type"""

    def __init__(self, ck, path):
        self.ck, self.path = ck, path
        self.adt = ck.adt(path)
        self.enum = len(self.adt['variants']) != 1 or self.adt['variants'][0]['name'] != path.split('::')[-1]
        self.ser = self.impl(SER, 'serialize')
        self.de = self.impl(DE, 'deserialize')

    def impl(self, trait, m):
        c = [k for k, f in self.ck.prog.fns.items() if f.get('impl_trait') == trait and strip_lt(f.get('impl_self') or '') == self.path and f['path'].split('::')[-1] == m]
        if len(c) != 1: raise Missing('%s for %s' % (trait, self.path))
        return c[0]

    def nested(self, name, method):
        """method of the visitor called name that is declared in the deserialiser"""
        pre = self.ck.prog.fns[self.de]['path'] + '::' + name
        c = [k for k, f in self.ck.prog.fns.items() if f.get('impl_trait') == VIS and f.get('impl_self') in (pre, pre + "<'de>") and f['path'].split('::')[-1] == method]
        if len(c) != 1: raise Missing('%s of the %s of %s' % (method, name, self.path))
        return c[0]

    # ---- writing: [(variant or None, kind, name, [(field name or None, field index)], events)]
    def written(self):
        ck = self.ck
        I, R = ck.analyse(self.ser)
        me = mk('deref', R.args[0], ty=self.path)
        start = {n.id for n in R.nodes if n.kind == 'start'}
        ser = lambda n: n.kind == 'lib' and n.data[0].startswith('serde::ser::')
        out = []
        for n in R.nodes:
            if n.kind == 'call': raise Unsupported('%s calls %s' % (self.ser, n.data[0]))
            if not ser(n): continue
            m = n.data[0].split('::')[-1]
            a = [fin(x) for x in n.data[2]]
            if m in HEADS or m in ('serialize_field', 'skip_field'): continue
            k = self.var(I, me, n.facts)
            if m == 'serialize_unit_variant': out.append((k, 'unit', string(a[3]), [], [n]))
            elif m == 'serialize_newtype_variant': out.append((k, 'newtype', string(a[3]), [(None, self.field(me, a[4], k))], [n]))
            elif m == 'end':
                for q in back_paths(n, start, ser):
                    q = [x for x in q if x.id not in start and x is not n]
                    h = q[0].data[0].split('::')[-1] if q else ''
                    if h not in HEADS or any(x.data[0].split('::')[-1] not in ('serialize_field', 'skip_field') for x in q[1:]): raise Unsupported('the form in which %s writes' % self.ser)
                    fs = [[fin(y) for y in x.data[2]][1:] for x in q[1:] if x.data[0].endswith('::serialize_field')]
                    fs = [(string(x[0]) if len(x) == 2 else None, self.field(me, x[-1], k if h != 'serialize_struct' else None)) for x in fs]
                    a = [fin(y) for y in q[0].data[2]]
                    if h == 'serialize_struct': out.append((None, 'struct', string(a[1]), fs, q + [n]))
                    else: out.append((k, 'tuple' if h == 'serialize_tuple_variant' else 'fields', string(a[3]), fs, q + [n]))
            else: raise Unsupported('%s writes with %s' % (self.ser, m))
        self.I, self.me = I, me
        return out

    def var(self, I, me, F):
        for k in range(len(self.adt['variants'])):
            if I.entails(F, isvar(me, k)): return k
        return None

    def field(self, me, t, k):
        """index of the field of this value that t is; None if it is something else"""
        if t.op != 'fld' or fin(t.args[0]) is not fin(me): return None
        if self.enum and t.args[1] != k: return None
        return t.args[2]

    # ---- reading
    def names(self):
        """{name: index of the key it is read as}"""
        ck = self.ck
        I, R = ck.analyse(self.nested('__FieldVisitor', 'visit_str'))
        v = fin(R.args[1])
        out = {}
        for s, r in R.rets:
            if not is_ok(r): continue
            k = payload(r)
            if k.op != 'adt': raise Unsupported('keys of ' + self.path)
            for f in s.facts:
                f = fin(f)
                if f.op == 'eq' and any(x is v for x in f.args):
                    n = [string(x) for x in f.args if string(x) is not None]
                    if n: out.setdefault(n[0], set()).add(k.args[1])
        return {n: next(iter(k)) for n, k in out.items() if len(k) == 1}

    def read_struct(self, key=None, path=None):
        """[({field index: key it is read from}, {field index: what stands for a missing one})] of a visit_map"""
        ck = self.ck
        I, R = ck.analyse(key or self.nested('__Visitor', 'visit_map'))
        slots = {}
        heads = [h for h in R.nodes if h.kind == 'loop']
        phis = {}
        for h in heads:
            for r, x in h.store.items():
                for t in (x, payload(x) if x.op == 'adt' and is_some(x) else x):
                    if t.op == 'phi': phis[t] = r
        bad = set()
        for h in {g.id: g for x in heads for g in heads_into(x)}.values():
            for e in h.ents or ():
                for r in {x for x in phis.values()}:
                    if r in e.store and e.store[r].op == 'adt' and is_some(e.store[r]): bad.add(r)
            for tr, b, hn in h.backs or ():
                for r in set(phis.values()):
                    new, old = b.store.get(r), hn.store.get(r)
                    if new is None or new is old: continue
                    x = payload(new) if new.op == 'adt' and is_some(new) else None
                    ks = {j for f in b.facts for j in [key_index(f, next_key)] if j is not None}
                    nx = x.args[0] if x is not None and x.op == 'fld' and x.args[1] == 0 else None
                    if nx is None or not is_call(nx, 'next_value') or len(ks) != 1:
                        if new.op == 'adt' and len(new.args[3]) <= 1 or new.op == 'phi' and x is None: bad.add(r)
                        continue
                    slots.setdefault(r, set()).update(ks)
        out = []
        for s, v in R.rets:
            if is_err(v): continue
            x = payload(v) if is_ok(v) else None
            if x is None or x.op != 'adt' or x.args[0] != self.path: raise Unsupported('what %s returns: %s' % (key or 'visit_map of ' + self.path, show(v)[:100]))
            got, miss = {}, {}
            for i, t in enumerate(x.args[3]):
                if t.op == 'fld' and t.args[0].op == 'phi' and t.args[1] == 1: t0 = t.args[0]
                else: t0 = t
                r = phis.get(t0)
                if r is not None:
                    ks = slots.get(r, set())
                    got[i] = next(iter(ks)) if len(ks) == 1 and r not in bad else None
                else: miss[i] = t
            out.append((got, miss, s))
        return out

    def read_enum(self):
        """{key: (variant, kind, [field indices in order read])}"""
        ck = self.ck
        I, R = ck.analyse(self.nested('__Visitor', 'visit_enum'))
        out = {}
        evs = [n for n in R.nodes if n.kind == 'lib' and n.data[0].startswith('serde::de::VariantAccess::')]
        direct = {fin(n.data[-1]): n for n in evs}
        memo = {}
        for n in evs:
            ks = {j for f in n.facts for j in [key_index(f, variant_key)] if j is not None}
            if len(ks) != 1: raise Unsupported('variants of ' + self.path)
            k = ks.pop()
            kind = n.data[0].split('::')[-1].replace('_variant', '')
            out.setdefault(k, []).append([kind, n, None, None])
            if kind in ('tuple', 'struct'):
                vis = fin(n.data[2][-1])
                i = vis.args[0].rpartition('#')[2] if vis.op == 'adt' else ''
                c = [q for q, f in ck.prog.fns.items() if f.get('impl_trait') == VIS and str(f.get('impl_self_id')) == i and f['path'].split('::')[-1] == ('visit_seq' if kind == 'tuple' else 'visit_map')]
                if len(c) != 1: raise Missing('visitor of variant %d of %s' % (k, self.path))
                out[k][-1][2:] = self.read_seq(c[0])
        # unit and newtype variants: the value that is made of the call's result
        vals = {}
        for s, v in R.rets:
            for t in values(R, v):
                if is_ok(t) and payload(t).op == 'adt' and payload(t).args[0] == self.path:
                    p = payload(t)
                    ks = {j for f in s.facts for j in [key_index(f, variant_key)] if j is not None}
                    if len(ks) == 1: vals.setdefault(ks.pop(), []).append(p)
        r = {}
        for k, es in out.items():
            if len(es) != 1: raise Unsupported('variant %d of %s' % (k, self.path))
            kind, n, var, order = es[0]
            if kind in ('unit', 'newtype'):
                ps = vals.get(k, [])
                if not ps or len({p.args[1] for p in ps}) != 1: raise Unsupported('value of variant %d of %s' % (k, self.path))
                var = ps[0].args[1]
                order = [0] if kind == 'newtype' and all(len(p.args[3]) == 1 and p.args[3][0].op == 'fld' and p.args[3][0].args[1] == 0 and fin(p.args[3][0].args[0]) is fin(n.data[-1]) for p in ps) else [None] if kind == 'newtype' else []
            r[k] = (var, kind, order)
        self.other = [v for s, v in R.rets if not is_err(v) and not (is_ok(v) and payload(v).op == 'adt') and v not in direct and v.op != 'phi']
        return r

    def read_seq(self, key):
        ck = self.ck
        I, R = ck.analyse(key)
        got = None
        for s, v in R.rets:
            if is_err(v): continue
            x = payload(v) if is_ok(v) else None
            if x is None or x.op != 'adt' or x.args[0] != self.path: raise Unsupported('what %s returns' % key)
            order = []
            for t in x.args[3]:
                # Some payload of the Ok payload of the nth call of next_element
                n = None
                if t.op == 'fld' and t.args[1] == 1 and t.args[0].op == 'fld' and t.args[0].args[1] == 0 and is_call(t.args[0].args[0], 'next_element'):
                    n, q = 0, t.args[0].args[0]
                    q = (q.args[3] if q.op == 'res' else q.args[1:])[0]
                    while is_call(q, 'next_element'):
                        n += 1
                        q = (q.args[3] if q.op == 'res' else q.args[1:])[0]
                order.append(n)
            r = (x.args[1], [order.index(i) if i in order else None for i in range(len(order))])
            if got not in (None, r): raise Unsupported('what %s returns' % key)
            got = r
        if got is None: raise Unsupported('what %s returns' % key)
        return got


def is_call(t, m):
    return t.op in ('app', 'res') and (t.args[0] if t.op == 'app' else t.args[1]).split('#')[0].split('::')[-1] == m


def next_key(t):
    """is t the key read by next_key?"""
    return t.op == 'fld' and t.args[1] == 1 and t.args[0].op == 'fld' and t.args[0].args[1] == 0 and is_call(t.args[0].args[0], 'next_key')


def variant_key(t):
    return t.op == 'fld' and t.args[0].op == 'fld' and t.args[0].args[1] == 0 and is_call(t.args[0].args[0], 'variant')


def key_index(f, want):
    """k if fact f says that a key is the kth"""
    if f.op == 'var' and want(f.args[0]): return f.args[1]
    if f.op == 'eq0':
        c, d = lin_parts(f.args[0])
        if len(d) == 1:
            (t, k), = d.items()
            if t.op == 'discr' and want(t.args[0]) and k in (1, -1): return -c * k
    return None


def values(R, v, seen=None):
    return [v]


def p27(ck):
    """derived-code analysis of the MIR: for every type reachable from Song, the names and fields the generated writer emits on every way to its finishing call are matched against the key table and slot assignments of the generated reader, variant by variant; writer and reader functions are checked by value flow ::
    Decided for all songs: all fields and variants of all types are enumerated from the type definitions."""
    song = 'nspc::Song'
    ck.adt(song)
    types, odd = [], []
    local_types(ck, song, types, odd)
    ck.req(not odd, 'types', 'plain', (song, ''), 'the rule does not know how %s is written' % odd)
    ck.floor(len(types), 5, 'types', 'types written to JSON')
    nf = 0
    for p in types: nf += one_type(ck, Type(ck, p), p)
    ck.floor(nf, 60, 'fields', 'fields and variants')
    writer(ck)
    reader(ck)


def one_type(ck, T, p):
    w = (T.ser, '')
    nm = p.split('::')[-1]
    n = 0
    names = T.names()
    wr = T.written()
    # the deserialiser hands over to its visitor
    I, R = ck.analyse(T.de)
    for s, v in R.rets:
        ck.req(is_call(v, 'deserialize_enum' if T.enum else 'deserialize_struct'), 'reader', nm + ' form', s.trace, '%s is not read as it is written: %s' % (nm, show(v)[:100]))
    if T.enum:
        rd = T.read_enum()
        ck.req(not T.other, 'reader', nm + ' other', (T.de, ''), '%s can be read as %s' % (nm, [show(v)[:80] for v in T.other]))
        seen = set()
        for k, kind, name, fs, evs in wr:
            ev = evs[-1]
            vn = T.adt['variants'][k]['name'] if k is not None else '?'
            if not ck.req(k is not None and name is not None, 'writer', '%s %s' % (nm, name), ev, '%s is written for an unknown command' % name): continue
            seen.add(k)
            nfld = len(T.adt['variants'][k]['fields'])
            ck.req(sorted(i if i is not None else -1 for x, i in fs) == list(range(nfld)), 'writer', '%s::%s fields' % (nm, vn), ev, '%s::%s is written without all its %d values, or with something else: %s' % (nm, vn, nfld, [i for x, i in fs]))
            if not ck.req(name in names, 'names', '%s::%s' % (nm, vn), ev, '%s::%s is written as %s, which the reader does not know' % (nm, vn, name)): continue
            r = rd.get(names[name])
            if not ck.req(r is not None and r[0] == k, 'names', '%s::%s variant' % (nm, vn), ev, '%s::%s is written as %s, which is read as %s' % (nm, vn, name, T.adt['variants'][r[0]]['name'] if r else 'nothing')): continue
            ck.req(r[1] == kind, 'names', '%s::%s kind' % (nm, vn), ev, '%s::%s is written as a %s variant and read as a %s variant' % (nm, vn, kind, r[1]))
            ck.req(r[2] == [i for x, i in fs], 'names', '%s::%s order' % (nm, vn), ev, 'the values of %s::%s are written in the order %s and read in the order %s' % (nm, vn, [i for x, i in fs], r[2]))
            n += 1 + nfld
        for k, v in enumerate(T.adt['variants']): ck.req(k in seen, 'writer', '%s::%s' % (nm, v['name']), w, '%s::%s is not written' % (nm, v['name']))
        return n
    fields = T.adt['variants'][0]['fields']
    rd = T.read_struct()
    ck.floor(len(wr), 1, 'writer', 'ways of writing ' + nm)
    ck.floor(len(rd), 1, 'reader', 'ways of reading ' + nm)
    for k, kind, name, fs, evs in wr:
        ev, facts = evs[-1], frozenset(f for e in evs for f in e.facts)
        if not ck.req(kind == 'struct', 'writer', nm + ' kind', ev, '%s is written as a %s' % (nm, kind)): continue
        ks = [names.get(x) for x, i in fs]
        ck.req(len(set(x for x, i in fs)) == len(fs), 'writer', nm + ' names', ev, 'two members of %s have the same name' % nm)
        for i, (fname, ty) in enumerate(fields):
            n += 1
            at = [x for x, j in fs if j == i]
            if at:
                ck.req(at[0] in names, 'names', '%s.%s' % (nm, fname), ev, '%s.%s is written as %s, which the reader does not know' % (nm, fname, at[0]))
                for got, miss, s in rd:
                    if i in got: ck.req(got[i] == names.get(at[0]), 'names', '%s.%s slot' % (nm, fname), s.trace, '%s.%s is written as %s, but read from another member' % (nm, fname, at[0]))
                    else:
                        # only when the member is missing
                        ck.req(any(i in g for g, m, s2 in rd), 'names', '%s.%s read' % (nm, fname), s.trace, '%s.%s is never read' % (nm, fname))
            else:
                t = field(T.me, None, i, fname, ty)
                for got, miss, s in rd:
                    if i in miss:
                        d = miss[i]
                        ok = is_call(d.args[0], 'missing_field') and parts(ty)[0] == 'core::option::Option' and T.I.entails(facts, isvar(t, 0)) if d.op == 'fld' else \
                            (d is FALSE and T.I.entails(facts, Not(t)) or d is TRUE and T.I.entails(facts, t) or d.op == 'adt' and is_none(d) and T.I.entails(facts, isvar(t, 0)))
                        ck.req(ok, 'writer', '%s.%s' % (nm, fname), ev, '%s.%s is left out although a missing one is read as %s' % (nm, fname, show(d)[:60]))
                if not any(i in m for g, m, s in rd): ck.req(False, 'writer', '%s.%s' % (nm, fname), ev, '%s.%s is not written' % (nm, fname))
        for x, i in fs: ck.req(i is not None, 'writer', '%s %s value' % (nm, x), ev, 'the member %s of %s is not a field' % (x, nm))
    return n


def whole_file(t, path):
    """a file that is opened for writing at path and emptied"""
    for x in subterms(t):
        if x.op == 'res' and x.args[1].split('#')[0].split('::')[-1] in ('fopen',):
            o, p = x.args[3][0], x.args[3][1]
            if fin(p) is path and o.op == 'adt':
                rd, wr, ap, tr, cr, cn = [y is TRUE for y in o.args[3]]
                if wr and (tr or cn) and (cr or cn) and not ap: return True
    return False


def writer(ck):
    key = ck.fn('nspc::Song::write_to_json')
    I, R = ck.analyse(key)
    me, path = fin(R.args[0]), fin(R.args[1])
    start = {n.id for n in R.nodes if n.kind == 'start'}
    ev = lambda n: n.kind in ('lib', 'fwrite', 'fs') and any(isinstance(x, Term) for x in flat(n.data)) and writes(n) is not None

    def writes(n):
        """(what, to) of an event that writes JSON"""
        if n.kind == 'lib' and n.data[0].startswith('serde_json::') and n.data[0].split('::')[-1] in ('to_writer', 'to_writer_pretty'):
            return fin(n.data[2][1]), n.data[2][0]
        if n.kind in ('fwrite', 'fs'):
            ts = [x for x in flat(n.data) if isinstance(x, Term)]
            js = {fin((y.args[3] if y.op == 'res' else y.args[1:])[0]) for x in ts for y in subterms(x) if y.op in ('res', 'app') and str(y.args[1] if y.op == 'res' else y.args[0]).split('#')[0].split('::')[-1] in ('to_string', 'to_string_pretty', 'to_vec', 'to_vec_pretty') and 'serde_json' in str(y.args[:2])}
            if len(js) == 1: return js.pop(), ts
        return None
    n = 0
    for s, v in R.rets:
        if is_err(v): continue
        for q in back_paths(s.trace, start, ev):
            q = [x for x in q if x.id not in start]
            if not ck.req(len(q) == 1, 'file', 'written once', s.trace, 'a song is written %d times on a way through write_to_json' % len(q)): continue
            n += 1
            what, to = writes(q[0])
            ck.req(what is me or what is fin(mk('deref', me)), 'file', 'whole song', q[0], 'what is written is %s' % show(what)[:100])
            ok = whole_file(to, path) if isinstance(to, Term) else q[0].kind == 'fs' and 'write' in str(q[0].data[0]) and any(fin(x) is path for x in to) or any(whole_file(x, path) for x in to)
            ck.req(ok, 'file', 'replaced', q[0], 'the song is not written to the start of the emptied file')
    ck.floor(n, 1, 'file', 'ways of writing a song')


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [x]


def reader(ck):
    key = ck.fn('nspc::Song::from_json')
    I, R = ck.analyse(key)
    path = fin(R.args[0])
    n = 0
    for s, v in R.rets:
        if is_err(v): continue
        n += 1
        x = payload(v) if is_ok(v) else v
        c = x.args[0] if x.op == 'fld' and x.args[1] == 0 else x if not is_ok(v) else None
        ok = c is not None and c.op in ('res', 'app') and str(c.args[1] if c.op == 'res' else c.args[0]).startswith('serde_json::') and str(c.args[1] if c.op == 'res' else c.args[0]).split('#')[0].split('::')[-1] in ('from_reader', 'from_str', 'from_slice')
        ok = ok and any(y.op == 'res' and y.args[1].split('#')[0] in ('fopen', 'std::fs::read', 'std::fs::read_to_string') and any(fin(z) is path for z in y.args[3]) for y in subterms(c))
        ck.req(ok, 'file', 'read back', s.trace, 'the song that is read is %s' % show(v)[:120])
    ck.floor(n, 1, 'file', 'ways of reading a song')


RULES = {'P27': p27}
