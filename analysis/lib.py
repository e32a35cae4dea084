"""Transfer functions for the library calls the analysed crate makes.

Combinators that take closures are not described here: their reference bodies (models/models.rs)
are inlined, so that a chain of adaptors and the loop it stands for get the same treatment.
"""
import re
from terms import *
import interp as X

OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
RANGE = 'core::ops::range::Range'
JSON = 'serde_json::value::Value'
CURSOR = 'core::io::cursor::Cursor'

IMPURE = ('std::fs', 'std::io', 'alloc::io', 'core::io', 'std::time', 'std::env', 'std::process', 'std::thread', 'std::sync',
          'rand', 'ghakuf::reader', 'serde_json', 'clap', 'pbr', 'byteorder', 'std::net', 'std::os')

IDENT_REF = {'core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref',
             'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut',
             'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::as_str', 'core::str::as_bytes',
             'alloc::string::String::as_bytes', 'std::path::PathBuf::as_path', 'std::path::Path::new', 'core::array::as_slice',
             'std::io::Write::by_ref', 'core::iter::traits::iterator::Iterator::by_ref', 'core::hint::black_box',
             'core::io::write::Write::by_ref', 'alloc::boxed::Box::as_ref', 'core::str::as_str', 'core::array::as_mut_slice',
             'alloc::vec::Vec::leak'}
COPY_OUT = {'core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::to_vec', 'std::path::Path::to_path_buf',
            'alloc::string::ToString::to_string', 'alloc::slice::to_owned', 'alloc::string::String::from', 'alloc::str::to_owned'}
IDENT = {'core::hint::must_use', 'core::iter::traits::iterator::Iterator::fuse', 'alloc::vec::Vec::into_boxed_slice', 'alloc::slice::into_vec',
         'alloc::borrow::Cow::into_owned', 'core::iter::traits::iterator::Iterator::into_iter', 'alloc::vec::Vec::into_iter_sorted',
         'core::convert::identity', 'alloc::string::String::into_boxed_str'}
NOOP = {'alloc::vec::Vec::reserve', 'alloc::vec::Vec::shrink_to_fit', 'std::io::stdio::_print', 'std::io::stdio::_eprint',
        'alloc::vec::Vec::reserve_exact', 'core::mem::drop', 'core::mem::forget', 'std::collections::hash::map::HashMap::reserve'}
CONST_STR = {'alloc::fmt::format', 'core::fmt::Arguments::new', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug',
             'core::fmt::rt::Argument::new_upper_hex', 'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::Arguments::from_str',
             'core::fmt::rt::Argument::new_octal', 'core::fmt::rt::Argument::new_binary', 'core::fmt::Arguments::new_const', 'core::fmt::Arguments::new_v1',
             'core::fmt::Arguments::from_str_nonconst'}

IT = 'core::iter::traits::iterator::Iterator::'
# iterator method -> adaptor struct built from (self, args...)
ADAPT = {'map': 'Map', 'filter': 'Filter', 'filter_map': 'FilterMap', 'enumerate': 'Enumerate', 'take_while': 'TakeWhile', 'skip_while': 'SkipWhile',
         'map_while': 'MapWhile', 'inspect': 'Inspect', 'zip': 'Zip', 'chain': 'Chain', 'flat_map': 'FlatMap', 'flatten': 'Flatten',
         'cloned': 'Cloned', 'copied': 'Cloned', 'rev': 'Rev', 'take': 'Take', 'skip': 'Skip', 'peekable': 'Peekable', 'step_by': 'StepBy'}
ADAPT_NEXT = {'Map': 'map_next', 'Filter': 'filter_next', 'FilterMap': 'filter_map_next', 'Enumerate': 'enumerate_next', 'TakeWhile': 'take_while_next',
              'SkipWhile': 'skip_while_next', 'MapWhile': 'map_while_next', 'Inspect': 'inspect_next', 'Zip': 'zip_next', 'Chain': 'chain_next',
              'FlatMap': 'flat_map_next', 'Flatten': 'flatten_next', 'Cloned': 'cloned_next', 'Rev': 'rev_next', 'Take': 'take_next', 'Skip': 'skip_next',
              'Peekable': 'peekable_next', 'FromFn': 'from_fn_next'}
ADAPT_BACK = {'Map': 'map_next_back', 'Filter': 'filter_next_back', 'FilterMap': 'filter_map_next_back', 'Cloned': 'cloned_next_back'}
CONSUME = {'for_each': 'for_each', 'fold': 'fold', 'any': 'any', 'all': 'all', 'find': 'find', 'find_map': 'find_map', 'position': 'position',
           'count': 'count', 'last': 'last', 'nth': 'nth', 'sum': 'sum', 'min_by_key': 'min_by_key', 'max_by_key': 'max_by_key', 'min_by': 'min_by', 'max_by': 'max_by', 'max': 'max', 'min': 'min',
           'try_for_each': 'try_for_each', 'try_fold': 'try_fold', 'partition': 'partition'}
OPTM = {'map': 'opt_map', 'map_or': 'opt_map_or', 'map_or_else': 'opt_map_or_else', 'is_some_and': 'opt_is_some_and', 'is_none_or': 'opt_is_none_or',
        'and_then': 'opt_and_then', 'and': 'opt_and', 'or': 'opt_or', 'or_else': 'opt_or_else', 'filter': 'opt_filter', 'unwrap_or': 'opt_unwrap_or',
        'unwrap_or_else': 'opt_unwrap_or_else', 'ok_or': 'opt_ok_or', 'ok_or_else': 'opt_ok_or_else', 'cloned': 'opt_cloned', 'copied': 'opt_cloned',
        'zip': 'opt_zip', 'flatten': 'opt_flatten', 'transpose': 'opt_transpose', 'get_or_insert_with': 'opt_get_or_insert_with'}
RESM = {'map': 'res_map', 'map_err': 'res_map_err', 'and_then': 'res_and_then', 'and': 'res_and', 'or_else': 'res_or_else', 'unwrap_or': 'res_unwrap_or',
        'unwrap_or_else': 'res_unwrap_or_else', 'map_or': 'res_map_or', 'ok': 'res_ok', 'err': 'res_err', 'is_ok_and': 'res_is_ok_and'}


def adt(path, *fs):
    return Adt(path, 0, path.split('::')[-1], fs)


def is_map(t):
    """is t a map, or a reference to one?"""
    t = re.sub(r"^(&('[a-z_0-9]+ )?(mut )?)*", '', t or '').split('<', 1)[0]
    return t.endswith('::HashMap') or t.endswith('::BTreeMap')


def is_set(t):
    t = re.sub(r"^(&('[a-z_0-9]+ )?(mut )?)*", '', t or '').split('<', 1)[0]
    return t.endswith('::HashSet') or t.endswith('::BTreeSet')


class Lib(object):
    def __init__(self, I):
        self.I = I
        self.P = I.prog
        self.table = {}
        for n in dir(self):
            if n.startswith('h_'):
                m = getattr(self, n)
                for p in (m.__doc__ or '').split():
                    self.table[p] = m
        for p in IDENT_REF: self.table[p] = self.ident_ref
        for p in COPY_OUT: self.table[p] = self.copy_out
        for p in IDENT: self.table[p] = lambda fr, site, st, fn, args, at, dty: args[0]
        for p in NOOP: self.table[p] = lambda fr, site, st, fn, args, at, dty: UNIT
        for p in CONST_STR: self.table[p] = lambda fr, site, st, fn, args, at, dty: mk('sym', 'text', ty=dty)
        for k, v in ADAPT.items(): self.table[IT + k] = self.adaptor(v)
        for k, v in CONSUME.items(): self.table[IT + k] = self.flat_model(v) if 'flat_' + v in self.P.models else self.model(v)
        for k, v in OPTM.items(): self.table[OPT + '::' + k] = self.model(v)
        for k, v in RESM.items(): self.table[RES + '::' + k] = self.model(v)
        self.table['itertools::Itertools::find_position'] = self.model('find_position')
        for n in ('reverse', 'then', 'then_with', 'is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne'): self.table['core::cmp::Ordering::' + n] = self.model('ord_' + n)
        self.table['core::bool::then'] = self.model('bool_then')
        self.table['core::bool::then_some'] = self.model('bool_then_some')
        self.table['alloc::vec::Vec::retain'] = self.model('retain')
        self.table['core::iter::adapters::peekable::Peekable::peek'] = self.model('peekable_peek')

    # ------------------------------------------------------------ dispatch
    def lookup(self, fn, args, st, key, argtys):
        p = X.normpath(fn['path'])
        if p in ('core::iter::traits::iterator::Iterator::next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back') and key is not None:
            return None
        h = self.table.get(p)
        if h is None and fn.get('trait') and key is None and args:
            # a trait method of a local type reached through generic code
            v = self.I.deref(st, args[0]) if args[0].op == 'ref' else args[0]
            if v.op == 'adt':
                f = self.P.local_impls.get((fn['trait'], v.args[0], p.split('::')[-1]))
                if f is not None:
                    return lambda fr, site, st, fn, args, at, dty: self.I.inline(fr, site, st, f, args, dty)
        if h is None and key is None:
            base, _, name = p.rpartition('::')
            a = self.P.adts.get(base)
            if a and a['kind'] == 'enum':
                for i, va in enumerate(a['variants']):
                    if va['name'] == name:
                        return lambda fr, site, st, fn, args, at, dty, i=i, name=name: Adt(base, i, name, args)
            a = self.P.adts.get(p)
            if a and a['kind'] == 'struct':
                return lambda fr, site, st, fn, args, at, dty: Adt(p, 0, a['variants'][0]['name'], args)
        return h

    def model(self, name):
        def h(fr, site, st, fn, args, at, dty):
            return self.run_model(fr, site, st, name, args, dty)
        return h

    def flat_model(self, name):
        """a consumer of an iterator; over a fresh flat_map it is a nested loop"""
        def h(fr, site, st, fn, args, at, dty):
            v = args[0]
            while v.op == 'ref': v = self.I.deref(st, v)
            if v.op == 'adt' and v.args[0] == 'FlatMap' and len(v.args[3]) == 3 and v.args[3][2] is NONE and len(args) == 2:
                if args[0].op == 'ref':
                    r, p = self.I.rpath(args[0])
                    self.I.write(st, r, p, self.resv(fr, site, 'next', (self.snapshot(st, v),), v.ty, '#mut'))
                return self.run_model(fr, site, st, 'flat_' + name, [v.args[3][0], v.args[3][1], args[1]], dty)
            return self.run_model(fr, site, st, name, args, dty)
        return h

    def run_model(self, fr, site, st, name, args, dty=None):
        return self.I.inline(fr, site, st, self.P.models[name], args, dty)

    def adaptor(self, name):
        def h(fr, site, st, fn, args, at, dty):
            extra = {'Enumerate': (Int(0),), 'TakeWhile': (FALSE,), 'SkipWhile': (FALSE,), 'Chain': (FALSE,), 'FlatMap': (NONE,), 'Flatten': (NONE,), 'Peekable': (NONE,)}
            a = list(args)
            if name in ('Zip', 'Chain'):
                a[1] = self.into_iter(st, a[1], at[1] if len(at) > 1 else None)
            if name == 'Skip':
                r = self.skipped(st, a[0], a[1])
                if r is not None: return r
            return adt(name, *(tuple(a) + extra.get(name, ())))
        return h

    def skipped(self, st, it, k):
        """an iterator over part of a sequence, without its first k elements"""
        o = it.args[0] if it.op == 'adt' else None
        if o in ('SliceIter', 'VecIter'):
            b = it.args[3]
            return [(s, adt(o, b[0], add(b[1], k) if f else b[2], b[2])) for f, s in self.I.split(st, le(add(b[1], k), b[2]))]
        if o in ('Cloned', 'Enumerate'):
            r = self.skipped(st, it.args[3][0], k)
            if r is None: return None
            return [(s, adt(o, x, *((add(it.args[3][1], k),) if o == 'Enumerate' else ()))) for s, x in r]
        return None

    def resv(self, fr, site, path, args, ty, tag=''):
        c = self.I.ctx(fr.ctx, path + tag, site)
        return mk('res', self.I.lf(), path + tag, c, tuple(args), ty=ty)

    # ------------------------------------------------------------ opaque calls
    def opaque_call(self, fr, site, st, fn, args, at, dty, key):
        I = self.I
        I.cur = fr
        p = key or X.normpath(fn['path'])
        if p == 'indirect' and fr is not None:
            p = 'indirect'
        if key is None and not any(p.startswith(x) for x in IMPURE):
            I.unknown_calls.setdefault(p, (I.where_fn(fr), I.span))
        vals = [self.snapshot(st, a) for a in args]
        muts = [i for i, t in enumerate(at) if t and (t.startswith('&') and self.mut_ref(t))]
        clos = [a for a in args if self.is_closure(st, a)]
        impure = bool(muts) or bool(clos) or any(p.startswith(x) for x in IMPURE) or p == 'indirect' or (key is None and fn.get('trait') is not None and 'Fn' in (fn.get('trait') or ''))
        if impure:
            r = self.resv(fr, site, p, vals, dty)
        else:
            r = mk('app', p, *vals, ty=dty)
        ev = I.event(st, 'call' if key else 'lib', p, tuple(args), tuple(vals), r)
        for i in muts:
            root, path = I.rpath(args[i])
            old = I.read(st, root, path)
            # std::fs::File and friends stay themselves: only data is havocked
            new = self.resv(fr, site, p, vals, X.deref_ty(at[i]) or old.ty, '#mut%d' % i)
            I.write(st, root, path, new)
        for c in clos:
            self.havoc_closure(fr, site, st, c)
        if dty == '!':
            I.terminals.append(('panic', st.trace))
            return []
        return r

    def mut_ref(self, t):
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.split(' ', 1)[1] if ' ' in t else t
        return t.startswith('mut ')

    def is_closure(self, st, a):
        v = a
        if v.op == 'ref': v = self.I.deref(st, v)
        return v.op == 'adt' and v.args[0].startswith('closure:')

    def havoc_closure(self, fr, site, st, c):
        v = self.I.deref(st, c) if c.op == 'ref' else c
        for i, x in enumerate(v.args[3]):
            if x.op == 'ref':
                root, path = self.I.rpath(x)
                old = self.I.read(st, root, path)
                self.I.write(st, root, path, self.resv(fr, site, 'closure-effect', (old,), old.ty, '#%d' % i))

    def snapshot(self, st, a, depth=0):
        """the value reachable through a reference argument"""
        n = 0
        while a.op == 'ref' and n < 6:
            a = self.I.deref(st, a)
            n += 1
        if a.op == 'app' and a.args[0] == 'refto':
            return self.snapshot(st, a.args[1])
        if a.op == 'adt' and depth < 3 and any(x.op == 'ref' or (x.op == 'app' and x.args[0] == 'refto') for x in a.args[3]):
            return mk('adt', a.args[0], a.args[1], a.args[2], tuple(self.snapshot(st, x, depth + 1) for x in a.args[3]), ty=a.ty)
        return a

    # ------------------------------------------------------------ arithmetic
    def binary(self, st, op, a, b, ty):
        I = self.I
        if ty in ('f32', 'f64'):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if op == 'Gt': a, b, op = b, a, 'Lt'
                if op == 'Ge': a, b, op = b, a, 'Le'
                if op == 'Ne': return Not(mk('fcmp', 'Eq', a, b))
                return mk('fcmp', op, a, b)
            return mk('fbin', op, a, b, ty=ty)
        if op in ('Eq', 'Ne'):
            c = self.eq(a, b)
            return c if op == 'Eq' else Not(c)
        if op == 'Lt': return lt(a, b) if X.is_int(ty) or ty == 'char' else mk('cmp', 'Lt', a, b)
        if op == 'Le': return le(a, b) if X.is_int(ty) or ty == 'char' else mk('cmp', 'Le', a, b)
        if op == 'Gt': return lt(b, a) if X.is_int(ty) or ty == 'char' else mk('cmp', 'Lt', b, a)
        if op == 'Ge': return le(b, a) if X.is_int(ty) or ty == 'char' else mk('cmp', 'Le', b, a)
        if ty == 'bool':
            if op == 'BitAnd': return And(a, b)
            if op == 'BitOr': return Or(a, b)
            if op == 'BitXor': return Not(self.eq(a, b))
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = add(a, b) if op[:3] == 'Add' else sub(a, b) if op[:3] == 'Sub' else mul(a, b)
            lo, hi = ty_range(ty)
            if lo is None:
                return mk('app', op, a, b)
            if op.endswith('WithOverflow'):
                return Tup((r, Or(lt(r, Int(lo)), lt(Int(hi), r))))
            return self.fit(st, r, ty)
        if op in ('Div', 'Rem') and ty and ty[0] == 'u':
            return self.divrem(st, op, a, b, ty)
        if op in ('ShlUnchecked', 'ShrUnchecked'): op = op[:3]
        if op == 'Cmp': return mk('app', 'cmp', a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Div', 'Rem'):
            if op == 'Shl' and b.op == 'int':
                rg = I.range(st, a)
                if rg[0] is not None and rg[0] >= 0 and rg[1] is not None and (rg[1] << b.args[0]) <= ty_range(ty)[1]:
                    return scale(a, 1 << b.args[0])
                if ty in WIDTH and b.args[0] < WIDTH[ty]:
                    I.event(st, 'lossy', 'Shl', a, ty)
            return binop(op, a, b, ty)
        return mk('app', op, a, b)

    def divrem(self, st, op, a, b, ty):
        rg = self.I.range(st, a)
        if b.op == 'int' and rg[0] is not None and rg[1] is not None and b.args[0] > 0:
            if rg[0] >= 0 and rg[0] // b.args[0] == rg[1] // b.args[0]:
                q = rg[0] // b.args[0]
                return Int(q) if op == 'Div' else addc(a, -q * b.args[0])
        q = binop(op, a, b, ty)
        if op == 'Div' and b.op == 'int' and b.args[0] > 1 and q.op == 'bin' and rg[0] is not None and rg[0] >= 0:
            e = sub(a, scale(q, b.args[0]))
            st.facts = st.facts | {ge0(e), ge0(addc(scale(e, -1), b.args[0] - 1))} - {TRUE}
        return q

    def fit(self, st, r, ty):
        lo, hi = ty_range(ty)
        rg = self.I.range(st, r)
        if rg[0] is not None and rg[0] >= lo and rg[1] is not None and rg[1] <= hi:
            return r
        if self.I.prove(st, le(Int(lo), r)) and self.I.prove(st, le(r, Int(hi))):
            return r
        return truncate(r, ty)

    def cast(self, st, kind, v, toty, fromty):
        I = self.I
        if kind == 'IntToInt':
            if v.op in ('true', 'false') or (fromty == 'bool'):
                if v is TRUE: return Int(1)
                if v is FALSE: return Int(0)
                return mk('ite', v, Int(1), Int(0), ty=toty)
            if v.op == 'discr': return v
            lo, hi = ty_range(toty)
            a, b = I.range(st, v)
            if a is not None and a >= lo and b is not None and b <= hi:
                return v
            if I.prove(st, le(Int(lo), v)) and I.prove(st, le(v, Int(hi))):
                return v
            I.event(st, 'lossy', 'cast', v, toty)
            return truncate(v, toty)
        if kind == 'IntToFloat':
            return mk('i2f', v, ty=toty)
        if kind == 'FloatToInt':
            return mk('f2i', v, ty=toty)
        if kind == 'FloatToFloat':
            if v.op == 'float': return mk('float', v.args[0], ty=toty)
            return mk('f2f', v, ty=toty)
        return v

    def discr(self, v, ty):
        if v.op == 'adt':
            a = self.P.adts.get(v.args[0])
            if a and a['variants']:
                return Int(int(a['variants'][v.args[1]]['discr']))
            return Int(v.args[1])
        return mk('discr', v, ty, ty='isize')

    # ------------------------------------------------------------ equality
    def deep(self, st, v):
        n = 0
        while n < 6 and (v.op == 'ref' or (v.op == 'app' and v.args[0] == 'refto')):
            v = self.I.deref(st, v)
            n += 1
        while v.ty and v.ty.startswith('&') and n < 6 and v.op not in ('adt',):
            v = self.I.deref(st, v)
            n += 1
        return v

    def eq(self, a, b):
        if a is b: return TRUE
        if a.op == 'adt' and b.op != 'adt': a, b = b, a
        if b.op == 'adt' and a.op not in ('adt', 'int', 'lin'):
            p = b.args[0]
            ad = self.P.adts.get(p)
            if p == '()' or (ad and ad['kind'] == 'struct'):
                r = TRUE
                ts = [None] * len(b.args[3])
                if ad: ts = [t for _, t in ad['variants'][0]['fields']]
                names = [n for n, _ in ad['variants'][0]['fields']] if ad else [str(i) for i in range(len(ts))]
                for i, y in enumerate(b.args[3]):
                    r = And(r, self.eq(field(a, None, i, names[i], ts[i]), y))
                return r
            if ad and ad['kind'] == 'enum':
                r = isvar(a, b.args[1])
                fl = ad['variants'][b.args[1]]['fields']
                for i, y in enumerate(b.args[3]):
                    t = fl[i][1] if i < len(fl) else None
                    r = And(r, self.eq(field(a, b.args[1], i, fl[i][0] if i < len(fl) else str(i), t), y))
                return r
        if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]: return FALSE
            r = TRUE
            for x, y in zip(a.args[3], b.args[3]): r = And(r, self.eq(x, y))
            return r
        return gen_eq(a, b)

    def h_eq(self, fr, site, st, fn, args, at, dty):
        "core::cmp::PartialEq::eq"
        return self.eq(self.deep(st, args[0]), self.deep(st, args[1]))

    def h_ne(self, fr, site, st, fn, args, at, dty):
        "core::cmp::PartialEq::ne"
        return Not(self.h_eq(fr, site, st, fn, args, at, dty))

    def less(self, a, b, strict=True):
        if self.I.is_intval(a) or self.I.is_intval(b):
            return lt(a, b) if strict else le(a, b)
        if a.op == 'adt' and b.op == 'adt' and a.args[0] == '()' == b.args[0] and len(a.args[3]) == len(b.args[3]) and a.args[3]:
            r = None
            for x, y in reversed(list(zip(a.args[3], b.args[3]))):
                if r is None: r = self.less(x, y, strict)
                else: r = Or(self.less(x, y), And(self.eq(x, y), r))
            return r
        return mk('cmp', 'Lt', a, b) if strict else Not(mk('cmp', 'Lt', b, a))

    def h_lt(self, fr, site, st, fn, args, at, dty):
        "core::cmp::PartialOrd::lt core::cmp::PartialOrd::le core::cmp::PartialOrd::gt core::cmp::PartialOrd::ge"
        a, b = self.deep(st, args[0]), self.deep(st, args[1])
        n = fn['path'].split('::')[-1]
        if n in ('gt', 'ge'): a, b = b, a
        return self.less(a, b, n in ('lt', 'gt'))

    def h_cmp(self, fr, site, st, fn, args, at, dty):
        "core::cmp::Ord::cmp core::cmp::PartialOrd::partial_cmp"
        I = self.I
        a, b = self.deep(st, args[0]), self.deep(st, args[1])
        o = lambda i: Adt('core::cmp::Ordering', i, ('Less', 'Equal', 'Greater')[i], ())
        w = Some if fn['path'].endswith('partial_cmp') else lambda x: x
        out = []
        for lt_, s in I.split(st, self.less(a, b)):
            if lt_:
                out.append((s, w(o(0))))
                continue
            for eq_, s2 in I.split(s, self.eq(a, b)): out.append((s2, w(o(1 if eq_ else 2))))
        return out

    # ------------------------------------------------------------ identity-like
    def ident_ref(self, fr, site, st, fn, args, at, dty):
        t = at[0] if at else ''
        if t and 'alloc::boxed::Box<' in t and X.normpath(fn['path']).startswith('core::ops::deref'):
            return self.I.deref(st, args[0])
        if t and 'alloc::borrow::Cow<' in t:
            return self.I.deref(st, args[0]) if self.I.deref(st, args[0]).op in ('ref', 'app') else args[0]
        return args[0]

    def copy_out(self, fr, site, st, fn, args, at, dty):
        v = args[0]
        if v.op == 'ref' or (at and at[0] and at[0].startswith('&')) or (v.op == 'app' and v.args[0] == 'refto') or (v.ty or '').startswith('&'):
            v = self.I.deref(st, v)
        return v

    def h_from(self, fr, site, st, fn, args, at, dty):
        "core::convert::From::from core::convert::Into::into"
        a, t = args[0], (at[0] if at else '') or ''
        d = dty or ''
        if t == d or X.is_int(t) and X.is_int(d): return a
        if t.startswith('&') and ('String' in d or 'PathBuf' in d or 'Vec<' in d or 'Cow<' in d):
            return self.I.deref(st, a) if 'Cow<' not in d else a
        if t == 'bool' and X.is_int(d): return self.cast(st, 'IntToInt', a, d, 'bool')
        if X.is_int(t) and d in ('f32', 'f64'): return mk('i2f', a, ty=d)
        if t in ('f32', 'f64') and d in ('f32', 'f64'): return self.cast(st, 'FloatToFloat', a, d, t)
        if t.startswith('alloc::vec::Vec<') or d.startswith('alloc::vec::Vec<') or t.startswith('['): return a
        if d.startswith(OPT + '<'): return Some(a)
        return mk('app', 'from', self.snapshot(st, a), ty=dty)

    def h_tryfrom(self, fr, site, st, fn, args, at, dty):
        "core::convert::TryFrom::try_from core::convert::TryInto::try_into"
        d = dty or ''
        if d.startswith(RES + '<'):
            to = X.split_targs(d[len(RES) + 1:-1])[0]
            if X.is_int(to) and self.I.is_intval(args[0]):
                lo, hi = ty_range(to)
                c = And(le(Int(lo), args[0]), le(args[0], Int(hi)))
                return [(s, Ok(args[0]) if b else Err(mk('sym', 'TryFromIntError'))) for b, s in self.I.split(st, c)]
        return self.opaque_call(fr, site, st, fn, args, at, dty, None)

    def h_mem(self, fr, site, st, fn, args, at, dty):
        "core::mem::replace core::mem::take core::mem::swap"
        I = self.I
        n = fn['path'].split('::')[-1]
        old = I.deref(st, args[0])
        I.cur = fr
        if n == 'replace':
            r, p = I.rpath(args[0])
            I.on_store(st, r, p, args[1])
            I.write(st, r, p, args[1])
            return old
        if n == 'take':
            t = X.deref_ty(at[0]) or ''
            new = self.default(t)
            r, p = I.rpath(args[0])
            I.on_store(st, r, p, new)
            I.write(st, r, p, new)
            return old
        b = I.deref(st, args[1])
        for a, v in ((args[0], b), (args[1], old)):
            r, p = I.rpath(a)
            I.on_store(st, r, p, v)
            I.write(st, r, p, v)
        return UNIT

    def default(self, t):
        if t.startswith(OPT): return NONE
        if t.startswith('alloc::vec::Vec'): return mk('vec', (), ty=t)
        if X.is_int(t): return Int(0)
        if t == 'bool': return FALSE
        if t.startswith('std::collections::hash::map::HashMap'): return mk('app', 'hempty', ty=t)
        if t == 'alloc::string::String': return mk('str', '', ty='str')
        if t in ('f32', 'f64'): return mk('float', 0.0, ty=t)
        return mk('app', 'default:' + t, ty=t)

    def h_default(self, fr, site, st, fn, args, at, dty):
        "core::default::Default::default"
        return self.default(dty or '')

    # ------------------------------------------------------------ try
    def h_branch(self, fr, site, st, fn, args, at, dty):
        "core::ops::try_trait::Try::branch"
        v = args[0]
        t = at[0] or ''
        isopt = t.startswith(OPT)
        out = []
        for k, s in self.I.split_variants(st, v, 2):
            if isopt:
                out.append((s, Adt(CF, 0, 'Continue', (self.pay(v, 1, t),)) if k == 1 else Adt(CF, 1, 'Break', (NONE,))))
            else:
                out.append((s, Adt(CF, 0, 'Continue', (self.pay(v, 0, t),)) if k == 0 else Adt(CF, 1, 'Break', (Err(self.pay(v, 1, t)),))))
        return out

    def pay(self, v, k, t):
        """payload of variant k of an Option / Result"""
        ts = X.split_targs(t[t.index('<') + 1:-1]) if t and '<' in t else []
        if t and t.startswith(OPT): et = ts[0] if ts else None
        else: et = ts[k] if k < len(ts) else None
        return field(v, k, 0, '0', et)

    def h_residual(self, fr, site, st, fn, args, at, dty):
        "core::ops::try_trait::FromResidual::from_residual"
        v = args[0]
        if v is NONE: return NONE
        e = self.pay(v, 1, at[0] or '')
        d = dty or ''
        et = X.split_targs(d[d.index('<') + 1:-1])[-1] if '<' in d else None
        st_ = X.split_targs(at[0][at[0].index('<') + 1:-1])[-1] if at[0] and '<' in at[0] else None
        if d.startswith(OPT): return NONE
        if et != st_ and et is not None and st_ is not None:
            e = mk('app', 'from', e, ty=et)
        return Err(e)

    # ------------------------------------------------------------ Option / Result basics
    def h_is(self, fr, site, st, fn, args, at, dty):
        "core::option::Option::is_some core::option::Option::is_none core::result::Result::is_ok core::result::Result::is_err"
        v = self.I.deref(st, args[0])
        n = fn['path'].split('::')[-1]
        return isvar(v, {'is_some': 1, 'is_none': 0, 'is_ok': 0, 'is_err': 1}[n])

    def h_asref(self, fr, site, st, fn, args, at, dty):
        "core::option::Option::as_ref core::option::Option::as_mut core::option::Option::as_deref core::option::Option::as_deref_mut core::result::Result::as_ref core::result::Result::as_mut core::option::Option::iter"
        I = self.I
        v = I.deref(st, args[0])
        r, p = I.rpath(args[0])
        t = X.deref_ty(at[0]) or v.ty or ''
        isopt = 'Option' in fn['path']
        ts = X.split_targs(t[t.index('<') + 1:-1]) if '<' in t else [None, None]
        out = []
        for k, s in I.split_variants(st, v, 2):
            if isopt and k == 0:
                out.append((s, NONE))
                continue
            et = ts[0] if isopt else ts[k]
            x = X.mkref(r, X.path_add(p, ('f', k, 0, '0', et, t)))
            out.append((s, Some(x) if isopt else (Ok(x) if k == 0 else Err(x))))
        return out

    def h_unwrap(self, fr, site, st, fn, args, at, dty):
        "core::option::Option::unwrap core::option::Option::expect core::result::Result::unwrap core::result::Result::expect core::option::Option::unwrap_unchecked core::result::Result::unwrap_err core::result::Result::expect_err"
        I = self.I
        v = args[0]
        isopt = X.normpath(fn['path']).startswith(OPT)
        good = 1 if isopt or fn['path'].endswith('_err') else 0
        out = []
        I.cur = fr
        for k, s in I.split_variants(st, v, 2):
            if k == good:
                out.append((s, self.pay(v, k, at[0] or '')))
            else:
                if s is st: s = st.copy()
                I.cur = fr
                I.event(s, 'unwrap', v, isvar(v, good))
                I.terminals.append(('panic', s.trace))
        return out

    def h_unwrap_default(self, fr, site, st, fn, args, at, dty):
        "core::option::Option::unwrap_or_default core::result::Result::unwrap_or_default"
        v = args[0]
        good = 1 if (at[0] or '').startswith(OPT) else 0
        return [(s, self.pay(v, k, at[0] or '') if k == good else self.default(dty or '')) for k, s in self.I.split_variants(st, v, 2)]

    def h_opttake(self, fr, site, st, fn, args, at, dty):
        "core::option::Option::take core::option::Option::replace core::option::Option::insert"
        I = self.I
        v = I.deref(st, args[0])
        n = fn['path'].split('::')[-1]
        new = NONE if n == 'take' else Some(args[1])
        r, p = I.rpath(args[0])
        I.cur = fr
        I.on_store(st, r, p, new)
        I.write(st, r, p, new)
        if n == 'insert':
            return X.mkref(r, X.path_add(p, ('f', 1, 0, '0', None, OPT)))
        return v

    # ------------------------------------------------------------ Vec / slice
    def seq(self, st, a):
        v = self.I.deref(st, a)
        n = 0
        while n < 3 and v.op == 'ref':
            a, v = v, self.I.deref(st, v)
            n += 1
        return v

    def put(self, fr, st, a, new, kind='store', *data):
        I = self.I
        I.cur = fr
        r, p = I.rpath(a)
        if kind == 'store':
            I.on_store(st, r, p, new)
        else:
            I.event(st, kind, r, p, *data)
        I.write(st, r, p, new)

    def h_vecnew(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::new alloc::vec::Vec::with_capacity"
        return mk('vec', (), ty=dty)

    def h_from_elem(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::from_elem"
        if args[1].op == 'int' and args[1].args[0] <= 64:
            return mk('vec', (args[0],) * args[1].args[0], ty=dty)
        return mk('rep', args[0], args[1], ty=dty)

    def h_new_uninit(self, fr, site, st, fn, args, at, dty):
        "alloc::boxed::Box::new_uninit"
        c = self.I.ctx(fr.ctx, 'box', site)
        root = ('B', c)
        st.store[root] = UNDEF
        return Ref(root, ())

    def h_box_vec(self, fr, site, st, fn, args, at, dty):
        "alloc::boxed::box_assume_init_into_vec_unsafe"
        r, p = self.I.rpath(args[0])
        v = self.I.read(st, r, p)
        if r[0] == 'B': st.store.pop(r, None)
        return v

    def h_box(self, fr, site, st, fn, args, at, dty):
        "alloc::boxed::Box::new"
        return X.ref_to(args[0])

    def h_push(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::push alloc::string::String::push alloc::collections::vec_deque::VecDeque::push_back"
        v = self.seq(st, args[0])
        if v.op == 'vec' and len(v.args[0]) < 64:
            new = mk('vec', v.args[0] + (args[1],), ty=v.ty)
        else:
            new = mk('push', v, args[1], ty=v.ty)
        self.put(fr, st, args[0], new, 'push', args[1], v)
        return UNIT

    def h_pop(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::pop"
        I = self.I
        v = self.seq(st, args[0])
        if v.op == 'push':
            self.put(fr, st, args[0], v.args[0], 'vpop', v)
            return Some(v.args[1])
        n = I.length(v)
        out = []
        for b, s in I.split(st, lt(Int(0), n)):
            if b:
                if s is st: s = st
                x = I.index(s, v, addc(n, -1))
                new = mk('vec', v.args[0][:-1], ty=v.ty) if v.op == 'vec' else mk('pop', v, ty=v.ty)
                self.put(fr, s, args[0], new, 'vpop', v)
                out.append((s, Some(x)))
            else:
                out.append((s, NONE))
        return out

    def h_remove(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::remove alloc::vec::Vec::swap_remove"
        I = self.I
        v = self.seq(st, args[0])
        s = self.need(fr, st, lt(args[1], I.length(v)), args[1], I.length(v))
        if s is None: return []
        x = I.index(s, v, args[1])
        self.put(fr, s, args[0], mk('remove' if not fn['path'].endswith('swap_remove') else 'swrem', v, args[1], ty=v.ty), 'vremove', args[1], v)
        return [(s, x)]

    def h_vinsert(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::insert"
        v = self.seq(st, args[0])
        self.put(fr, st, args[0], mk('vinsert', v, args[1], args[2], ty=v.ty), 'vinsert', args[1], args[2], v)
        return UNIT

    def h_splitoff(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::split_off"
        I = self.I
        v = self.seq(st, args[0])
        s = self.need(fr, st, le(args[1], I.length(v)), args[1], I.length(v))
        if s is None: return []
        out = I.subseq(s, v, args[1], I.length(v))
        self.put(fr, s, args[0], I.subseq(s, v, Int(0), args[1]), 'vtrunc', args[1], v)
        return [(s, out)]

    def h_trunc(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::truncate alloc::vec::Vec::clear"
        I = self.I
        v = self.seq(st, args[0])
        if fn['path'].endswith('clear'):
            self.put(fr, st, args[0], mk('vec', (), ty=v.ty), 'vtrunc', Int(0), v)
            return UNIT
        out = []
        for b, s in I.split(st, lt(args[1], I.length(v))):
            if b: self.put(fr, s, args[0], mk('trunc', v, args[1], ty=v.ty), 'vtrunc', args[1], v)
            out.append((s, UNIT))
        return out

    def h_extslice(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::extend_from_slice alloc::vec::Vec::append alloc::string::String::push_str"
        v = self.seq(st, args[0])
        s = self.seq(st, args[1])
        self.put(fr, st, args[0], self.cat(v, s), 'ext', s, v)
        if fn['path'].endswith('append'):
            self.put(fr, st, args[1], mk('vec', (), ty=s.ty), 'vtrunc', Int(0), s)
        return UNIT

    def cat(self, v, s):
        if v.op == 'vec' and not v.args[0]: return s if s.ty == v.ty else mk('ext', v, s, ty=v.ty)
        if s.op == 'vec' and len(s.args[0]) <= 16:
            for x in s.args[0]:
                v = mk('vec', v.args[0] + (x,), ty=v.ty) if v.op == 'vec' and len(v.args[0]) < 64 else mk('push', v, x, ty=v.ty)
            return v
        return mk('ext', v, s, ty=v.ty)

    def h_extend(self, fr, site, st, fn, args, at, dty):
        "core::iter::traits::collect::Extend::extend"
        t = at[0] or ''
        if 'alloc::vec::Vec<' in t:
            if (at[1] or '').startswith('core::option::Option<') and not at[1].startswith('core::option::Option<&'): return self.run_model(fr, site, st, 'extend_option', args)
            it = self.into_iter(st, args[1], at[1])
            s = self.whole(st, it)
            if s is not None:
                v = self.seq(st, args[0])
                self.put(fr, st, args[0], self.cat(v, s), 'ext', s, v)
                return UNIT
            return self.run_model(fr, site, st, 'extend', [args[0], it])
        return self.opaque_call(fr, site, st, fn, args, at, dty, None)

    def whole(self, st, it):
        """the sequence an iterator yields, when it is a plain copy of (part of) one"""
        cl = False
        while it.op == 'adt' and it.args[0] == 'Cloned':
            it = it.args[3][0]
            cl = True
        if it.op == 'adt' and it.args[0] == 'Take' and it.args[3][0].op == 'adt' and it.args[3][0].args[0] in ('SliceIter', 'VecIter'):
            b = it.args[3][0].args[3]
            lim = add(b[1], it.args[3][1])
            if self.I.prove(st, le(lim, b[2])):
                it = adt(it.args[3][0].args[0], b[0], b[1], lim)
        if it.op == 'adt' and it.args[0] == 'SliceIter' and cl:
            r, i, n = it.args[3]
            return self.I.subseq(st, self.I.deref(st, r), i, n)
        if it.op == 'adt' and it.args[0] == 'VecIter' and not cl:
            v, i, n = it.args[3]
            return self.I.subseq(st, v, i, n)
        return None

    def h_splice(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::splice"
        I = self.I
        v = self.seq(st, args[0])
        a, b = self.bounds(st, args[1], I.length(v))
        s = self.need(fr, st, And(le(a, b), le(b, I.length(v))), b, I.length(v))
        if s is None: return []
        it = self.into_iter(s, args[2], at[2])
        seq = self.whole(s, it)
        if seq is None:
            seq = self.resv(fr, site, 'collected', (self.snapshot(s, it),), v.ty)
        I.cur = fr
        r, p = I.rpath(args[0])
        I.event(s, 'store', r, p + (('rng', a, b),), seq)
        I.write(s, r, p, mk('splice', v, a, b, seq, ty=v.ty))
        return [(s, mk('app', 'spliced', ty=dty))]

    def h_copyfrom(self, fr, site, st, fn, args, at, dty):
        "core::slice::copy_from_slice core::slice::clone_from_slice core::slice::fill core::slice::swap"
        I = self.I
        n = fn['path'].split('::')[-1]
        v = self.seq(st, args[0])
        r, p = I.rpath(args[0])
        I.cur = fr
        if n in ('copy_from_slice', 'clone_from_slice'):
            s = self.seq(st, args[1])
            s2 = self.need(fr, st, int_eq(I.length(v), I.length(s)), I.length(s), I.length(v))
            if s2 is None: return []
            if not (p and p[-1][0] == 'rng'): p = p + (('rng', Int(0), I.length(v)),)
            I.event(s2, 'store', r, p, s)
            I.write(s2, r, p, s)
            return [(s2, UNIT)]
        if n == 'fill':
            s = mk('rep', args[1], I.length(v), ty=v.ty)
            I.event(st, 'store', r, p + (('rng', Int(0), I.length(v)),), s)
            I.write(st, r, p, s)
            return UNIT
        s = self.need(fr, st, And(lt(args[1], I.length(v)), lt(args[2], I.length(v))), args[1], I.length(v))
        if s is None: return []
        x, y = I.index(s, v, args[1]), I.index(s, v, args[2])
        for i, z in ((args[1], y), (args[2], x)):
            I.event(s, 'store', r, X.path_add(p, ('i', i)), z)
            I.write(s, r, X.path_add(p, ('i', i)), z)
        return [(s, UNIT)]

    def need(self, fr, st, c, i, n):
        """an indexing obligation: recorded unless it is discharged"""
        I = self.I
        I.cur = fr
        d = I.decide(st, c)
        if d is True: return st
        I.event(st, 'bounds', i, n, c)
        if d is False:
            I.terminals.append(('panic', st.trace))
            return None
        return I.assume(st, c)

    def bounds(self, st, rng, n):
        if rng.op == 'adt':
            k = rng.args[0].split('::')[-1]
            f = rng.args[3]
            if k == 'Range': return f[0], f[1]
            if k == 'RangeFrom': return f[0], n
            if k == 'RangeTo': return Int(0), f[0]
            if k == 'RangeFull': return Int(0), n
            if k == 'RangeInclusive': return f[0], addc(f[1], 1)
            if k == 'RangeToInclusive': return Int(0), addc(f[0], 1)
        if self.I.is_intval(rng): return None
        t = rng.ty or ''
        return field(rng, None, 0, 'start', 'usize'), field(rng, None, 1, 'end', 'usize')

    def h_index(self, fr, site, st, fn, args, at, dty):
        "core::ops::index::Index::index core::ops::index::IndexMut::index_mut"
        I = self.I
        t = at[0] or ''
        if t.lstrip('&').replace('mut ', '') == JSON and len(at) > 1 and (at[1] or '').endswith(('str', 'String')):
            return X.ref_to(self.jget(st, args))
        if is_map(t):
            return self.h_unwrap(fr, site, st, {'path': OPT + '::unwrap'}, [self.hget_opt(fr, st, args)[0][1]], [OPT + '<&>'], dty)
        v = self.seq(st, args[0])
        a = args[0]
        while I.deref(st, a).op == 'ref': a = I.deref(st, a)
        r, p = I.rpath(a)
        n = I.length(v)
        k = args[1]
        b = self.bounds(st, k, n) if len(at) < 2 or at[1] != 'usize' else None
        if b is None:
            s = self.need(fr, st, lt(k, n), k, n)
            if s is None: return []
            return [(s, X.mkref(r, X.path_add(p, ('i', k))))]
        s = self.need(fr, st, And(le(b[0], b[1]), le(b[1], n)), b[1], n)
        if s is None: return []
        return [(s, X.mkref(r, X.path_add(p, ('rng', b[0], b[1]))))]

    # ------------------------------------------------------------ parsed JSON
    def jget(self, st, args):
        """the member of a JSON object under a name (Null if there is none)"""
        return mk('app', 'jget', self.snapshot(st, args[0]), self.snapshot(st, args[1]), ty=JSON)

    def jvar(self, name):
        a = self.P.adts.get(JSON)
        if a:
            for i, v in enumerate(a['variants']):
                if v['name'] == name: return i
        return None

    def h_json(self, fr, site, st, fn, args, at, dty):
        "serde_json::value::Value::get serde_json::value::Value::as_str serde_json::value::Value::as_bool serde_json::value::Value::as_f64 serde_json::value::Value::is_string serde_json::value::Value::is_boolean serde_json::value::Value::is_number serde_json::value::Value::is_null serde_json::value::Value::is_object serde_json::value::Value::is_array serde_json::value::Value::as_object serde_json::value::Value::as_array"
        I = self.I
        n = fn['path'].split('::')[-1]
        if n == 'get':
            g, out = self.jget(st, args), []
            if not (at[1] or '').endswith(('str', 'String')): return self.opaque_call(fr, site, st, fn, args, at, dty, None)
            for b, s in I.split(st, mk('app', 'jhas', g.args[1], g.args[2], ty='bool')):
                if not b: s = I.assume(s, isvar(g, self.jvar('Null')))
                if s is not None: out.append((s, Some(X.ref_to(g)) if b else NONE))
            return out
        v = self.snapshot(st, args[0])
        k = self.jvar({'str': 'String', 'string': 'String', 'bool': 'Bool', 'boolean': 'Bool', 'f64': 'Number', 'number': 'Number', 'null': 'Null', 'object': 'Object', 'array': 'Array'}[n.split('_')[1]])
        if k is None: return self.opaque_call(fr, site, st, fn, args, at, dty, None)
        if n.startswith('is_'): return isvar(v, k)
        out = []
        for b, s in I.split(st, isvar(v, k)):
            x = field(v, k, 0, '0', {'as_str': 'str', 'as_bool': 'bool'}.get(n))
            if n == 'as_f64': x = mk('app', 'jnum', x, ty='f64')
            out.append((s, Some(x if n in ('as_f64', 'as_bool') else X.ref_to(x)) if b else NONE))
        return out

    # ------------------------------------------------------------ parsed command line
    def h_clap(self, fr, site, st, fn, args, at, dty):
        "clap::args::arg_matches::ArgMatches::is_present clap::args::arg_matches::ArgMatches::value_of clap::args::arg_matches::ArgMatches::values_of clap::args::arg_matches::ArgMatches::subcommand_matches clap::args::arg_matches::ArgMatches::subcommand_name clap::args::arg_matches::ArgMatches::subcommand clap::args::arg_matches::ArgMatches::occurrences_of"
        I = self.I
        n = fn['path'].split('::')[-1]
        a = tuple(self.snapshot(st, x) for x in args)
        I.event(st, 'clap', n, a)
        if n == 'values_of':
            q = mk('app', 'cl_values', *a, ty='[&str]')
            return [(s, Some(adt('SeqIter', q, Int(0))) if b else NONE) for b, s in I.split(st, mk('app', 'cl_is_present', *a, ty='bool'))]
        if n == 'subcommand':
            return mk('adt', '', 0, '', (mk('app', 'cl_name', *a, ty='&str'), mk('app', 'cl_matches', *a, ty=OPT + '<&clap::args::arg_matches::ArgMatches>')), ty=dty)
        return mk('app', 'cl_' + n, *a, ty=dty)

    def h_len(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::len core::slice::len core::str::len alloc::string::String::len alloc::vec::Vec::is_empty core::slice::is_empty core::str::is_empty alloc::string::String::is_empty core::array::len"
        n = self.I.length(self.seq(st, args[0]))
        return int_eq(n, Int(0)) if fn['path'].endswith('is_empty') else n

    def h_get(self, fr, site, st, fn, args, at, dty):
        "core::slice::get core::slice::get_mut core::slice::first core::slice::last core::slice::first_mut core::slice::last_mut"
        I = self.I
        v = self.seq(st, args[0])
        a = args[0]
        while I.deref(st, a).op == 'ref': a = I.deref(st, a)
        r, p = I.rpath(a)
        n = I.length(v)
        m = fn['path'].split('::')[-1]
        if m.startswith('get'):
            b = self.bounds(st, args[1], n)
            if b is not None:
                return [(s, Some(X.mkref(r, X.path_add(p, ('rng', b[0], b[1])))) if k else NONE) for k, s in I.split(st, And(le(b[0], b[1]), le(b[1], n)))]
            k, c = args[1], lt(args[1], n)
        elif m.startswith('first'):
            k, c = Int(0), lt(Int(0), n)
        else:
            k, c = addc(n, -1), lt(Int(0), n)
        return [(s, Some(X.mkref(r, X.path_add(p, ('i', k)))) if b else NONE) for b, s in I.split(st, c)]

    def h_contains(self, fr, site, st, fn, args, at, dty):
        "core::slice::contains core::str::contains"
        v = self.seq(st, args[0])
        x = self.deep(st, args[1])
        if v.op == 'vec' and len(v.args[0]) <= 8:
            r = FALSE
            for y in v.args[0]: r = Or(r, self.eq(self.deep(st, y), x))
            return r
        return mk('contains', v, x)

    def h_range_contains(self, fr, site, st, fn, args, at, dty):
        "core::ops::range::Range::contains core::ops::range::RangeInclusive::contains core::ops::range::RangeTo::contains core::ops::range::RangeFrom::contains"
        v, x = self.I.deref(st, args[0]), self.deep(st, args[1])
        b = self.bounds(st, v, None)
        c = TRUE
        if b[0] is not None: c = And(c, le(b[0], x))
        if b[1] is not None: c = And(c, lt(x, b[1]))
        return c

    def h_sort(self, fr, site, st, fn, args, at, dty):
        "alloc::slice::sort_by_key alloc::slice::sort alloc::slice::sort_by core::slice::sort_unstable core::slice::sort_unstable_by_key core::slice::sort_unstable_by alloc::slice::sort_by_cached_key core::slice::reverse alloc::vec::Vec::dedup"
        v = self.seq(st, args[0])
        m = fn['path'].split('::')[-1]
        self.put(fr, st, args[0], mk('sorted', v, m, args[1] if len(args) > 1 else UNIT, ty=v.ty), 'sort', m, v, args[1] if len(args) > 1 else UNIT)
        return UNIT

    def h_range_new(self, fr, site, st, fn, args, at, dty):
        "core::ops::range::RangeInclusive::new"
        return adt('core::ops::range::RangeInclusive', args[0], args[1], FALSE)

    # ------------------------------------------------------------ iterators
    def into_iter(self, st, v, t):
        I = self.I
        if v.op == 'adt':
            if v.args[0] == OPT: return adt('OptIter', v)
            return v
        t = t or v.ty or ''
        if v.op == 'ref' or t.startswith('&') or (v.op == 'app' and v.args[0] == 'refto') or (v.ty or '').startswith('&'):
            x = I.deref(st, v)
            if x.op == 'ref':
                return self.into_iter(st, x, None)
            if x.op == 'adt' and (x.args[0] in ADAPT_NEXT or x.args[0] in ('SliceIter', 'VecIter', 'SeqIter')):
                return adt('ByRef', v)
            if is_map(t) or is_map(x.ty):
                I.event(st, 'hiter', x, 'iter')
                return adt('SeqIter', mk('app', 'hpairs', x), Int(0))
            if is_set(t) or is_set(x.ty):
                I.event(st, 'hiter', x, 'iter')
                return adt('SeqIter', mk('app', 'hkeys', x), Int(0))
            if X.is_vecish(x) or x.op in ('vec', 'rep', 'str') or 'alloc::vec::Vec<' in t or '[' in t or X.elem_ty(x.ty):
                return adt('SliceIter', v, Int(0), I.length(x))
        if is_map(t) or is_map(v.ty):
            I.event(st, 'hiter', v, 'into_iter')
            return adt('SeqIter', mk('app', 'hpairs', v), Int(0))
        if is_set(t) or is_set(v.ty):
            I.event(st, 'hiter', v, 'into_iter')
            return adt('SeqIter', mk('app', 'hitems', v), Int(0))
        if X.is_vecish(v) or X.elem_ty(v.ty) or v.op in ('vec', 'rep'):
            return adt('VecIter', v, Int(0), I.length(v))
        return v

    def h_into_iter(self, fr, site, st, fn, args, at, dty):
        "core::iter::traits::collect::IntoIterator::into_iter"
        return self.into_iter(st, args[0], at[0] if at else None)

    def h_iter(self, fr, site, st, fn, args, at, dty):
        "core::slice::iter core::slice::iter_mut alloc::vec::Vec::iter core::array::iter"
        I = self.I
        a = args[0]
        while I.deref(st, a).op == 'ref': a = I.deref(st, a)
        return adt('SliceIter', a, Int(0), I.length(I.deref(st, a)))

    def h_drain(self, fr, site, st, fn, args, at, dty):
        "alloc::vec::Vec::drain"
        I = self.I
        v = self.seq(st, args[0])
        a, b = self.bounds(st, args[1], I.length(v))
        out = I.subseq(st, v, a, b)
        new = mk('vec', (), ty=v.ty) if out is v else mk('splice', v, a, b, mk('vec', ()), ty=v.ty)
        self.put(fr, st, args[0], new, 'vtrunc', a, v)
        return adt('VecIter', out, Int(0), I.length(out))

    def h_once(self, fr, site, st, fn, args, at, dty):
        "core::iter::sources::once::once core::iter::sources::empty::empty core::iter::sources::from_fn::from_fn core::iter::sources::repeat_n::repeat_n"
        n = fn['path'].split('::')[-1]
        if n == 'once': return adt('VecIter', mk('vec', (args[0],)), Int(0), Int(1))
        if n == 'empty': return adt('VecIter', mk('vec', ()), Int(0), Int(0))
        if n == 'repeat_n': return adt('VecIter', mk('rep', args[0], args[1]), Int(0), args[1])
        return adt('FromFn', args[0])

    def h_next(self, fr, site, st, fn, args, at, dty):
        "core::iter::traits::iterator::Iterator::next core::iter::traits::double_ended::DoubleEndedIterator::next_back"
        return self.next(fr, site, st, args[0], dty, fn['path'].endswith('next_back'))

    def next(self, fr, site, st, ref, dty, back=False):
        I = self.I
        r, p = I.rpath(ref)
        v = I.read(st, r, p)
        while v.op == 'ref':
            r, p = I.rpath(v)
            v = I.read(st, r, p)
        if v.op == 'adt':
            n, f = v.args[0], v.args[3]
            if n == 'ByRef':
                return self.next(fr, site, st, f[0], dty, back)
            if n in ('SliceIter', 'VecIter'):
                out = []
                for b, s in I.split(st, lt(f[1], f[2])):
                    if not b:
                        out.append((s, NONE))
                        continue
                    k = addc(f[2], -1) if back else f[1]
                    if n == 'SliceIter':
                        rr, pp = I.rpath(f[0])
                        x = X.mkref(rr, X.path_add(pp, ('i', k)))
                    else:
                        x = I.index(s, f[0], k)
                    nf = (f[0], f[1], k) if back else (f[0], addc(f[1], 1), f[2])
                    I.write(s, r, p, adt(n, *nf))
                    out.append((s, Some(x)))
                return out
            if n == RANGE or n == 'core::ops::range::RangeFrom':
                out = []
                c = lt(f[0], f[1]) if n == RANGE else TRUE
                for b, s in I.split(st, c):
                    if not b:
                        out.append((s, NONE))
                        continue
                    if back:
                        x = addc(f[1], -1)
                        nf = (f[0], x)
                    else:
                        x = f[0]
                        nf = (addc(f[0], 1),) + tuple(f[1:])
                    I.write(s, r, p, mk('adt', v.args[0], v.args[1], v.args[2], nf, ty=v.ty))
                    out.append((s, Some(x)))
                return out
            if n == 'core::ops::range::RangeInclusive':
                # presented as start..end+1
                out = []
                for b, s in I.split(st, le(f[0], f[1])):
                    if not b:
                        out.append((s, NONE))
                        continue
                    x = f[1] if back else f[0]
                    nf = (f[0], addc(f[1], -1), f[2]) if back else (addc(f[0], 1), f[1], f[2])
                    I.write(s, r, p, mk('adt', v.args[0], v.args[1], v.args[2], nf, ty=v.ty))
                    out.append((s, Some(x)))
                return out
            if n == 'SeqIter':
                ln = mk('app', 'seqlen', f[0], ty='usize')
                out = []
                for b, s in I.split(st, lt(f[1], ln)):
                    if not b:
                        out.append((s, NONE))
                        continue
                    x = mk('idx', f[0], f[1])
                    if f[0].op == 'app' and f[0].args[0] in ('hvals', 'hkeys'):
                        x = X.ref_to(x)
                    elif f[0].op == 'app' and f[0].args[0] == 'hpairs':
                        x = Tup((X.ref_to(mk('idx', mk('app', 'hkeys', f[0].args[1]), f[1])), X.ref_to(mk('idx', mk('app', 'hvals', f[0].args[1]), f[1]))))
                    I.write(s, r, p, adt(n, f[0], addc(f[1], 1)))
                    out.append((s, Some(x)))
                return out
            if n == 'OptIter':
                out = []
                for k, s in I.split_variants(st, f[0], 2):
                    if k == 1: I.write(s, r, p, adt(n, NONE))
                    out.append((s, Some(field(f[0], 1, 0, '0', None)) if k == 1 else NONE))
                return out
            if n == 'StepBy' and not back and f[0].op == 'adt' and f[0].args[0] == RANGE and f[1].op == 'int':
                g = f[0].args[3]
                out = []
                for b, s in I.split(st, lt(g[0], g[1])):
                    if b:
                        I.write(s, r, p, adt(n, adt(RANGE, add(g[0], f[1]), g[1]), f[1]))
                        out.append((s, Some(g[0])))
                    else:
                        out.append((s, NONE))
                return out
            m = (ADAPT_BACK if back else ADAPT_NEXT).get(n)
            if n == 'Rev' and back: m = None
            if n == 'Enumerate' and back: m = None
            if m:
                return self.run_model(fr, site, st, m, [X.mkref(r, p)], dty)
            lf = self.P.local_impls.get(('core::iter::traits::iterator::Iterator', n, 'next'))
            if lf is not None and not back and not any(x.f is lf for x in fr.chain()):
                return I.inline(fr, site, st, lf, [X.mkref(r, p)], dty)
        res = self.resv(fr, site, 'next', (self.snapshot(st, v),), dty)
        I.write(st, r, p, self.resv(fr, site, 'next', (self.snapshot(st, v),), v.ty, '#mut'))
        return res

    def h_collect(self, fr, site, st, fn, args, at, dty):
        "core::iter::traits::iterator::Iterator::collect"
        d = dty or ''
        it = args[0]
        if d.startswith('alloc::vec::Vec<'):
            w = self.whole(st, it)
            if w is not None: return w
            return self.run_model(fr, site, st, 'collect_vec', [it], d)
        if d.startswith(RES + '<alloc::vec::Vec<'):
            return self.run_model(fr, site, st, 'collect_result_vec', [it], d)
        if d.startswith(OPT + '<alloc::vec::Vec<'):
            return self.run_model(fr, site, st, 'collect_option_vec', [it], d)
        return mk('app', 'collect', self.snapshot(st, it), ty=d)

    # ------------------------------------------------------------ closures
    def h_callf(self, fr, site, st, fn, args, at, dty):
        "core::ops::function::FnOnce::call_once core::ops::function::FnMut::call_mut core::ops::function::Fn::call"
        I = self.I
        f = args[0]
        tup = args[1]
        params = list(tup.args[3]) if tup.op == 'adt' else None
        n = 0
        while n < 6:
            if f.op in ('ref',) or (f.op == 'app' and f.args[0] == 'refto'):
                v = I.deref(st, f)
                if v.op == 'adt' and v.args[0].startswith('closure:'):
                    break
                f = v
                n += 1
                continue
            break
        isref = f.op in ('ref', 'app')
        v = I.deref(st, f) if isref else f
        if v.op == 'fn' and params is not None:
            import json
            return I.call(fr, site, st, json.loads(v.args[0]), params, [None] * len(params), dty)
        if v.op == 'adt' and v.args[0].startswith('closure:') and params is not None:
            key = v.args[0][8:]
            b = self.P.fns.get(key)
            if b is not None and not any(x.f is b for x in fr.chain()):
                byref = b['locals'][1].startswith('&')
                if byref and not isref:
                    root = ('B', I.ctx(fr.ctx, 'clo', site))
                    st.store[root] = v
                    f = Ref(root, ())
                elif not byref and isref:
                    f = v
                return I.inline(fr, site, st, b, [f] + params, dty)
        return self.opaque_call(fr, site, st, {'path': 'indirect', 'trait': 'Fn'}, [f] + (params or [tup]), [None] + ([None] * len(params) if params else [None]), dty, None)

    # ------------------------------------------------------------ numbers
    def h_minmax(self, fr, site, st, fn, args, at, dty):
        "core::cmp::Ord::min core::cmp::Ord::max core::cmp::min core::cmp::max"
        I = self.I
        a, b = args
        mx = fn['path'].endswith('max')
        if I.is_intval(a) or I.is_intval(b):
            d = I.decide(st, le(a, b))
            if d is None: d2 = I.decide(st, le(b, a))
            else: d2 = None
            if d is True or d2 is False: return b if mx else a
            if d is False or d2 is True: return a if mx else b
            if a.id > b.id: a, b = b, a
            return mk('max' if mx else 'min', a, b, ty=dty)
        return mk('app', 'max' if mx else 'min', a, b, ty=dty)

    def h_clamp(self, fr, site, st, fn, args, at, dty):
        "core::cmp::Ord::clamp"
        a = self.h_minmax(fr, site, st, {'path': 'core::cmp::max'}, [args[0], args[1]], at, dty)
        return self.h_minmax(fr, site, st, {'path': 'core::cmp::min'}, [a, args[2]], at, dty)

    def h_limits(self, fr, site, st, fn, args, at, dty):
        "core::num::max_value core::num::min_value"
        lo, hi = ty_range(dty)
        return Int(hi if fn['path'].endswith('max_value') else lo)

    def h_intbytes(self, fr, site, st, fn, args, at, dty):
        "core::num::to_le_bytes core::num::to_be_bytes core::num::from_le_bytes core::num::from_be_bytes"
        n = fn['path'].split('::')[-1]
        if n.startswith('to_'):
            t = at[0] if at[0] in WIDTH else args[0].ty
            if t in WIDTH and t[0] == 'u':
                bs = tuple(self.cast(st, 'IntToInt', self.binary(st, 'BitAnd', self.binary(st, 'Shr', args[0], Int(8 * i), t) if i else args[0], Int(0xff), t), 'u8', t)
                           for i in range(WIDTH[t] // 8))
                return mk('vec', bs if 'le' in n else bs[::-1], ty=dty)
        elif dty in WIDTH and dty[0] == 'u':
            k = WIDTH[dty] // 8
            bs = [self.I.index(st, args[0], Int(i)) for i in range(k)]
            if 'be' in n: bs = bs[::-1]
            r = bs[0]
            for i in range(1, k): r = add(r, scale(bs[i], 1 << 8 * i))
            return r
        return mk('app', 'num:' + n, *args, ty=dty)

    def h_arith(self, fr, site, st, fn, args, at, dty):
        "core::num::saturating_add core::num::saturating_sub core::num::saturating_mul core::num::wrapping_add core::num::wrapping_sub core::num::wrapping_mul core::num::checked_add core::num::checked_sub core::num::checked_mul core::num::pow core::num::abs_diff core::num::checked_div core::num::checked_rem core::num::div_ceil core::num::is_power_of_two core::num::wrapping_shl core::num::wrapping_shr core::num::rem_euclid core::num::div_euclid"
        I = self.I
        kind, _, op = fn['path'].split('::')[-1].partition('_')
        a = args[0]
        b = args[1] if len(args) > 1 else None
        t = at[0] or a.ty
        if t not in WIDTH:
            if kind == 'checked' and dty and dty.startswith(OPT): t = X.split_targs(dty[len(OPT) + 1:-1])[0]
            else: t = dty
        if kind in ('rem', 'div') and op == 'euclid' and t and t[0] == 'u':
            return self.divrem(st, 'Rem' if kind == 'rem' else 'Div', a, b, t)
        if kind in ('saturating', 'wrapping', 'checked') and op in ('add', 'sub', 'mul') and t in WIDTH:
            r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
            lo, hi = ty_range(t)
            if kind == 'checked':
                return [(s, Some(r) if k else NONE) for k, s in I.split(st, And(le(Int(lo), r), le(r, Int(hi))))]
            x = self.fit(st, r, t)
            if x is r: return r
            if kind == 'wrapping':
                I.event(st, 'lossy', 'wrap', r, t)
                return x
            if op == 'sub' and t[0] == 'u':
                d = I.decide(st, le(Int(0), r))
                if d is False: return Int(0)
                if b.op == 'int': return [(s, r if k else Int(0)) for k, s in I.split(st, le(Int(0), r))]
            return mk('sat', op, a, b, ty=t)
        if kind == 'pow' and a.op == 'int' and b.op == 'int':
            return Int(a.args[0] ** b.args[0])
        return mk('app', 'num:' + fn['path'].split('::')[-1], *args, ty=dty)

    def h_float(self, fr, site, st, fn, args, at, dty):
        "std::f32::ceil std::f32::floor std::f32::round std::f32::trunc std::f64::ceil std::f64::floor std::f64::round std::f64::trunc core::f32::ceil core::f32::floor core::f32::round core::f32::trunc"
        return mk('fn1', fn['path'].split('::')[-1], args[0], ty=dty)

    # ------------------------------------------------------------ cursor / writers
    def h_cursor_new(self, fr, site, st, fn, args, at, dty):
        "core::io::cursor::Cursor::new std::io::cursor::Cursor::new"
        return Adt(CURSOR, 0, 'Cursor', (args[0], Int(0)))

    def h_cursor_get(self, fr, site, st, fn, args, at, dty):
        "core::io::cursor::Cursor::position core::io::cursor::Cursor::into_inner core::io::cursor::Cursor::get_ref core::io::cursor::Cursor::get_mut core::io::cursor::Cursor::set_position"
        I = self.I
        n = fn['path'].split('::')[-1]
        if n == 'into_inner':
            return field(args[0], None, 0, 'inner', None)
        if n == 'position':
            return field(I.deref(st, args[0]), None, 1, 'pos', 'u64')
        r, p = I.rpath(args[0])
        if n == 'set_position':
            self.setcur(st, args[0], None, args[1])
            I.cur = fr
            I.event(st, 'seek', r, p, args[1])
            return UNIT
        return X.mkref(r, X.path_add(p, ('f', None, 0, 'inner', None, CURSOR)))

    def setcur(self, st, ref, content, pos):
        I = self.I
        v = I.deref(st, ref)
        c = content if content is not None else field(v, None, 0, 'inner', None)
        p = pos if pos is not None else field(v, None, 1, 'pos', 'u64')
        I.store_ref(st, ref, Adt(CURSOR, 0, 'Cursor', (c, p)))

    def is_cursor(self, t):
        return t is not None and ('io::cursor::Cursor<' in t)

    def h_write_u8(self, fr, site, st, fn, args, at, dty):
        "byteorder::io::WriteBytesExt::write_u8 core::io::write::Write::write core::io::write::Write::write_all byteorder::io::WriteBytesExt::write_u16 std::io::Write::write std::io::Write::write_all core::io::write::Write::flush core::io::write::Write::write_fmt"
        I = self.I
        m = fn['path'].split('::')[-1]
        t = at[0] or ''
        ref = args[0]
        while I.deref(st, ref).op == 'ref': ref = I.deref(st, ref)
        if m == 'flush': return Ok(UNIT) if self.is_cursor(t) else self.opaque_call(fr, site, st, fn, args, at, dty, None)
        v = I.deref(st, ref)
        I.cur = fr
        r, p = I.rpath(ref)
        iscur = self.is_cursor(t) or (v.op == 'adt' and v.args[0] == CURSOR)
        isvec = 'alloc::vec::Vec<u8>' in t and not iscur
        if m == 'write_u8':
            bytes_ = (args[1],)
        elif m == 'write_u16':
            be = any('BigEndian' in x for x in fn.get('targs') or [])
            lo, hi = binop('BitAnd', args[1], Int(255), 'u16'), binop('Shr', args[1], Int(8), 'u16')
            bytes_ = (hi, lo) if be else (lo, hi)
        elif m in ('write', 'write_all'):
            s = self.seq(st, args[1])
            bytes_ = s.args[0] if s.op == 'vec' else None
        else:
            return self.opaque_call(fr, site, st, fn, args, at, dty, None)
        if iscur or isvec:
            if isvec:
                content = v
                for b in bytes_ or (): content = mk('push', content, b, ty=content.ty)
                if bytes_ is None: content = mk('ext', v, s, ty=v.ty)
                I.event(st, 'emit', r, p, I.length(v), bytes_ if bytes_ is not None else s)
                I.write(st, r, p, content)
                n = Int(len(bytes_)) if bytes_ is not None else I.length(s)
            else:
                c = field(v, None, 0, 'inner', None)
                pos = field(v, None, 1, 'pos', 'u64')
                I.event(st, 'emit', r, p, pos, bytes_ if bytes_ is not None else s)
                if bytes_ is not None:
                    n = Int(len(bytes_))
                    if c.op == 'wr' and pos is addc(c.args[1], len(c.args[2])) and len(c.args[2]) < 40:
                        c2 = mk('wr', c.args[0], c.args[1], c.args[2] + bytes_, ty=c.ty)
                    else:
                        c2 = mk('wr', c, pos, tuple(bytes_), ty=c.ty or 'alloc::vec::Vec<u8>')
                else:
                    n = I.length(s)
                    c2 = mk('wrs', c, pos, s, ty=c.ty or 'alloc::vec::Vec<u8>')
                self.setcur(st, ref, c2, add(pos, n))
            return Ok(n) if m == 'write' else Ok(UNIT)
        # some other writer: a file
        res = self.resv(fr, site, 'io::' + m, (), dty)
        I.event(st, 'fwrite', m, v, bytes_ if bytes_ is not None else s, res)
        return res

    def h_file(self, fr, site, st, fn, args, at, dty):
        "std::fs::OpenOptions::new std::fs::OpenOptions::read std::fs::OpenOptions::write std::fs::OpenOptions::append std::fs::OpenOptions::truncate std::fs::OpenOptions::create std::fs::OpenOptions::create_new std::fs::OpenOptions::open std::fs::File::open std::fs::File::create std::fs::File::options std::fs::File::create_new"
        I = self.I
        n = fn['path'].split('::')[-1]
        I.cur = fr
        if n in ('new', 'options'):
            return Adt('OpenOptions', 0, 'OpenOptions', tuple(FALSE for _ in range(6)))
        flags = ['read', 'write', 'append', 'truncate', 'create', 'create_new']
        if n in flags and 'OpenOptions' in fn['path']:
            r, p = I.rpath(args[0])
            v = I.deref(st, args[0])
            if v.op == 'adt':
                fs = list(v.args[3])
                fs[flags.index(n)] = args[1]
                I.write(st, r, p, mk('adt', v.args[0], 0, v.args[2], tuple(fs)))
            return args[0]
        if 'OpenOptions' in fn['path']:
            o, path = self.snapshot(st, args[0]), self.snapshot(st, args[1])
        else:
            path = self.snapshot(st, args[0])
            o = Adt('OpenOptions', 0, 'OpenOptions', (TRUE, FALSE, FALSE, FALSE, FALSE, FALSE) if n == 'open' else (FALSE, TRUE, FALSE, Bool(n == 'create'), Bool(n == 'create'), Bool(n == 'create_new')))
        res = self.resv(fr, site, 'fopen', (o, path), dty)
        I.event(st, 'fopen', o, path, res)
        return res

    def h_file_read(self, fr, site, st, fn, args, at, dty):
        "alloc::io::read::Read::read_to_end std::io::Read::read_to_end core::io::seek::Seek::seek std::io::Seek::seek core::io::seek::Seek::rewind std::fs::File::set_len std::fs::read std::fs::write std::fs::remove_file std::fs::rename std::fs::copy std::fs::File::sync_all std::fs::File::try_clone alloc::io::read::Read::read_to_string alloc::io::read::Read::read_exact"
        I = self.I
        m = fn['path'].split('::')[-1]
        I.cur = fr
        file = self.snapshot(st, args[0])
        res = self.resv(fr, site, 'io::' + m, (file,), dty)
        if m in ('read_to_end', 'read_to_string'):
            data = mk('res', I.lf(), 'filedata', I.ctx(fr.ctx, 'filedata', site), (file,), ty='alloc::vec::Vec<u8>')
            old = self.seq(st, args[1])
            new = data if (old.op == 'vec' and not old.args[0]) else mk('ext', old, data, ty=old.ty)
            I.event(st, 'fread', file, data, res)
            I.store_ref(st, args[1], new)
            return res
        if m == 'read_exact':
            return self.opaque_call(fr, site, st, fn, args, at, dty, None)
        I.event(st, 'fs', m, file, tuple(self.snapshot(st, a) for a in args[1:]), res)
        return res

    # ------------------------------------------------------------ maps
    def hhas(self, st, m, k):
        while True:
            if m.op == 'app' and m.args[0] == 'hempty': return FALSE
            if m.op in ('hins', 'hrem'):
                c = self.eq(m.args[1], k)
                d = self.I.decide(st, c) if st is not None else (True if c is TRUE else False if c is FALSE else None)
                if d is True: return Bool(m.op == 'hins')
                if d is False:
                    m = m.args[0]
                    continue
            return mk('hhas', m, k)

    def hget(self, st, m, k):
        while m.op in ('hins', 'hrem'):
            c = self.eq(m.args[1], k)
            d = self.I.decide(st, c) if st is not None else (True if c is TRUE else False if c is FALSE else None)
            if d is True and m.op == 'hins': return m.args[2]
            if d is False:
                m = m.args[0]
                continue
            break
        t = m.ty or ''
        et = None
        if 'HashMap<' in t:
            ts = X.split_targs(t[t.index('<') + 1:-1])
            et = ts[1] if len(ts) > 1 else None
        return mk('hget', m, k, ty=et)

    def hget_opt(self, fr, st, args):
        I = self.I
        r, p = I.rpath(args[0])
        m = I.read(st, r, p)
        k = self.deep(st, args[1])
        out = []
        for b, s in I.split(st, self.hhas(st, m, k)):
            out.append((s, Some(X.mkref(r, X.path_add(p, ('k', k)))) if b else NONE))
        return out

    def h_map(self, fr, site, st, fn, args, at, dty):
        "std::collections::hash::map::HashMap::new std::collections::hash::map::HashMap::with_capacity std::collections::hash::map::HashMap::get std::collections::hash::map::HashMap::get_mut std::collections::hash::map::HashMap::insert std::collections::hash::map::HashMap::remove std::collections::hash::map::HashMap::contains_key std::collections::hash::map::HashMap::values std::collections::hash::map::HashMap::keys std::collections::hash::map::HashMap::iter std::collections::hash::map::HashMap::clear std::collections::hash::map::HashMap::len std::collections::hash::map::HashMap::is_empty alloc::collections::btree::map::BTreeMap::new alloc::collections::btree::map::BTreeMap::get alloc::collections::btree::map::BTreeMap::insert alloc::collections::btree::map::BTreeMap::remove alloc::collections::btree::map::BTreeMap::contains_key alloc::collections::btree::map::BTreeMap::values alloc::collections::btree::map::BTreeMap::keys alloc::collections::btree::map::BTreeMap::iter"
        I = self.I
        n = fn['path'].split('::')[-1]
        I.cur = fr
        if n in ('new', 'with_capacity'): return mk('app', 'hempty', dty, ty=dty) if False else mk('app', 'hempty', ty=dty)
        if n in ('get', 'get_mut'): return self.hget_opt(fr, st, args)
        r, p = I.rpath(args[0])
        m = I.read(st, r, p)
        if n == 'contains_key': return self.hhas(st, m, self.deep(st, args[1]))
        if n in ('values', 'keys', 'iter'):
            I.event(st, 'hiter', m, n)
            return adt('SeqIter', mk('app', {'values': 'hvals', 'keys': 'hkeys', 'iter': 'hpairs'}[n], m), Int(0))
        if n == 'clear':
            self.put(fr, st, args[0], mk('app', 'hempty'), 'hclear', m)
            return UNIT
        if n == 'len': return mk('app', 'hlen', m, ty='usize')
        if n == 'is_empty': return int_eq(mk('app', 'hlen', m, ty='usize'), Int(0))
        k = self.deep(st, args[1])
        out = []
        for b, s in I.split(st, self.hhas(st, m, k)):
            old = Some(self.hget(s, m, k)) if b else NONE
            if n == 'insert':
                self.put(fr, s, args[0], mk('hins', m, k, args[2], ty=m.ty), 'hins', k, args[2], m)
            else:
                self.put(fr, s, args[0], mk('hrem', m, k, ty=m.ty) if b else m, 'hrem', k, m)
            out.append((s, old))
        return out

    def h_set_iter(self, fr, site, st, fn, args, at, dty):
        "std::collections::hash::set::HashSet::iter alloc::collections::btree::set::BTreeSet::iter"
        I = self.I
        r, p = I.rpath(args[0])
        m = I.read(st, r, p)
        I.event(st, 'hiter', m, 'iter')
        return adt('SeqIter', mk('app', 'hkeys', m), Int(0))

    def h_entry(self, fr, site, st, fn, args, at, dty):
        "std::collections::hash::map::HashMap::entry"
        return adt('Entry', args[0], args[1])

    def h_or_insert(self, fr, site, st, fn, args, at, dty):
        "std::collections::hash::map::Entry::or_insert"
        I = self.I
        e = args[0].args[3]
        r, p = I.rpath(e[0])
        m = I.read(st, r, p)
        out = []
        for b, s in I.split(st, self.hhas(st, m, e[1])):
            if not b:
                self.put(fr, s, e[0], mk('hins', m, e[1], args[1], ty=m.ty), 'hins', e[1], args[1], m)
            out.append((s, X.mkref(r, X.path_add(p, ('k', e[1])))))
        return out
