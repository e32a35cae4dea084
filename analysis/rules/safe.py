"""P28, P29: errors are reported; conversion is deterministic."""
import re
from terms import *
from rules.base import *

ASSUME = ['ghakuf returns malformed files as errors and announces every track before its events; clap provides every required argument (P26)',
          'sums of times and counts of things held in memory stay within u32 and usize']
import os
DBG = os.environ.get('VERIF_DEBUG')
LOCATION = 'nspc::seqtree::Location'


def analysed_fns(prog):
    """the functions somebody wrote: closures are analysed where they are used"""
    r = []
    for k, f in prog.fns.items():
        t = f.get('impl_trait') or ''
        if '{closure' in k or '_IMPL_' in k or '_DERIVE_' in k: continue
        if t in DERIVED: continue
        r.append(k)
    return sorted(r)


DERIVED = ('core::fmt::Debug', 'core::fmt::Display', 'core::clone::Clone', 'core::cmp::PartialEq', 'core::cmp::Eq', 'core::hash::Hash', 'core::marker::StructuralPartialEq')


def file_of(n):
    m = re.search(r'(\S+):\d+', str(n.where[1])) if isinstance(n.where, tuple) else None
    return m.group(1) if m else ''


def strict(n):
    """is the code one that handles songs, manifests and arguments (and not the internals of voices, optimiser and ROM layout)?"""
    f = file_of(n)
    return 'rom/' not in f and 'seqtree' not in f and 'models' not in f and '/midi/' not in f


class Crate(object):
    """every function on its own; one whose safety depends on its arguments is analysed where it is called"""

    def __init__(self, ck):
        self.ck = ck
        prog = self.prog = ck.prog
        self.fns = analysed_fns(prog)
        real = self.real = set(self.fns)
        self.callers = {k: set() for k in prog.fns}
        for k in prog.fns:
            for c in fn_refs(prog, k): self.callers[c].add(k)
        self.from_events = reachable(prog, ['nspc::track::Track::new'])
        self.written = reachable(prog, ['nspc::Song::write_track', 'nspc::Song::from_json'])
        others = reachable(prog, ['nspc::Song::write_track', 'nspc::Song::from_json', 'nspc::track::Track::new', 'rom::build'] + [k for k in prog.fns if k.startswith('manifest::')])
        self.optimiser = reachable(prog, ['nspc::Song::optimize_call_loops']) - others
        self.inline = set()
        self.tags = 0
        self.threads, self.handlers, self.fields, self.songs = set(), [], set(), set()
        self.res, self.open = {}, {}
        self.covered = set()
        small = {k for k in self.fns if len(prog.fns[k]['blocks']) <= 3 and self.callers[k] and not prog.fns[k].get('impl_trait')}
        self.inline |= small
        work = [k for k in self.fns if k not in small]
        rounds = 0
        while work:
            k = work.pop(0)
            if k in self.inline: continue
            I, R, bad = self.run(k, self.inline)
            if bad:
                # the functions it calls may have the answer
                more = {c for c in self.callees(k) if len(prog.fns[c]['blocks']) <= 60 and not self.recursive(c)} - self.inline - {k}
                if more:
                    x = self.run(k, self.inline | more)
                    if len({fmt_where(n) for n in x[2]}) < len({fmt_where(n) for n in bad}): I, R, bad = x
            self.res[k], self.open[k] = (I, R), bad
            out = [c for c in self.owners(k) if c != k and c in real]
            if bad and out and not prog.fns[k].get('impl_trait') and rounds < 12 and not self.recursive(k) and len(prog.fns[k]['blocks']) <= 100:
                rounds += 1
                if DBG: print('inline', k, rounds, [(n.kind, fmt_where(n)) for n in bad][:4], flush=True)
                self.inline.add(k)
                self.open.pop(k)
                for c in sorted(out):
                    if c not in work: work.append(c)
        # closures that are handed on instead of being called: a thread, a boxed function
        for k in sorted(prog.fns):
            if '{closure' not in k or '_IMPL_' in k or '_DERIVE_' in k or k in self.covered: continue
            I, R, self.open[k] = self.run(k, self.inline)
            self.res[k] = (I, R)

    def run(self, k, inline):
        self.tags += 1
        I, R = self.ck.analyse(k, opaque=lambda x: x != k and x in self.real and x not in inline, branches=True, tag=self.tags)
        self.covered |= I.analysed
        return I, R, [n for n in R.nodes if self.aborts(I, R, k, n)]

    def callees(self, k):
        """functions that k calls, itself or in a closure"""
        r, st, seen = set(), [k], set()
        while st:
            c = st.pop()
            if c in seen: continue
            seen.add(c)
            for x in fn_refs(self.prog, c):
                if '{closure' in x: st.append(x)
                elif x in self.real: r.add(x)
        return r

    def owners(self, k):
        """functions that call k, themselves or in a closure"""
        r, st, seen = set(), list(self.callers[k]), set()
        while st:
            c = st.pop()
            if c in seen: continue
            seen.add(c)
            if '{closure' in c: st.extend(self.callers[c])
            else: r.add(c)
        return r

    def recursive(self, k): return k in reachable(self.prog, fn_refs(self.prog, k))

    # ---- can n abort the process?
    def aborts(self, I, R, k, n):
        if n.kind == 'lib':
            p = n.data[0]
            return 'panicking' in p or 'begin_panic' in p or p.endswith('::abort') or p.startswith('core::ops::index::Index') or p.endswith('unwrap_failed')
        if n.kind == 'unwrap':
            return not I.entails(n.facts, n.data[1]) and not self.present(I, R, k, n)
        if n.kind == 'bounds':
            return not I.entails(n.facts, n.data[2]) and (self.outer(n) or '/midi/' in file_of(n) and self.byte_data(n)) and not self.internal(n) and not self.valid_song(n.data[0], n.data[1], n.facts)
        if n.kind == 'assert':
            kind, c, ops = n.data
            if I.entails(n.facts, c): return False
            if kind == 'bounds' and n.facts and I.entails(n.facts | self.three(n.facts), c): return False
            if kind == 'overflow':
                # sums of times and of sizes are assumed to fit
                if not self.outer(n) or self.internal(n): return False
                return not (ops[0] in ('Add', 'Mul') and wide(ops))
            if kind == 'bounds': return self.outer(n) and not self.internal(n) and not self.table(n)
            return not self.internal(n) and not self.made_here(n, c)      # division and the like
        return False

    def present(self, I, R, k, n):
        """does something outside the function guarantee the unwrapped value?"""
        t = n.data[0]
        if t.op == 'app' and t.args[0] == 'cl_value_of': return True       # decided by P26
        if self.made_here(n, t): return True
        if t.op == 'res' and t.args[1].split('#')[0].endswith('JoinHandle::join'):
            self.threads |= {c for x in subterms(t) for c in closures(x)}
            return True       # fails only if the thread does, see there
        f = self.prog.fns[k]
        if f.get('impl_trait') == HANDLER_T:
            if any(I.entails(n.facts, int_eq(I.length(x), Int(0))) for x in subfacts(n.facts, self.is_tracks)): 
                self.handlers.append(n)
                return True
        for g in n.facts:
            if g.op == 'var' and g.args[1] == 0 and g.args[0].op == 'fld' and self.never_none(g.args[0]): return True
        return False

    def made_here(self, n, t):
        """t has to do with the duration of a command that the converter itself has made (P17 shows that its notes and rests have one)"""
        f = n.where[0].split('::{closure')[0] if isinstance(n.where, tuple) else ''
        if f not in self.from_events or f in self.written: return False
        return any(x.op == 'fld' and x.args[3] == 'duration' and (x.ty or '').replace(' ', '') == 'core::option::Option<u8>' for x in subterms(t))

    def is_tracks(self, t):
        return t.op == 'fld' and field_owner(self.prog, t) == 'midi::MidiHandler' and (t.ty or '').startswith('alloc::vec::Vec')

    def never_none(self, t):
        """is t a field that holds a value whenever a function of the crate ends?"""
        key = (field_owner(self.prog, t), t.args[2])
        if key[0] in self.prog.adts: self.fields.add(key)
        return key[0] in self.prog.adts

    def valid_song(self, i, n, F):
        """an index that is in range in every song that has passed validation"""
        if i.op == 'int' and any(t.op == 'app' and t.args[0] == 'cl_values' for f in F for t in subterms(f)): return True    # decided by P26
        arr = [t.args[0] for t in subterms(n) if t.op == 'len']
        if len(arr) != 1: return False
        ty = arr[0].ty or ''
        if i is Int(0) and ty == VEC % 'nspc::Part': return self.song_fact('parts')
        if i is Int(0) and arr[0].op == 'fld' and field_owner(self.prog, arr[0]) == 'nspc::Part': return self.song_fact('part tracks')
        return False

    def three(self, F):
        """P26 decides that exactly three bank addresses are given"""
        vs = {t for f in F for t in subterms(f) if t.op == 'app' and t.args[0] == 'cl_values'}
        return frozenset(int_eq(mk('app', 'seqlen', t, ty='usize'), Int(3)) for t in vs)

    def song_fact(self, what):
        self.songs.add(what)
        return True

    def byte_data(self, n):
        """an index into the bytes of an event"""
        t = n.data[1] if n.kind == 'bounds' else None
        return t is not None and any(x.op == 'len' and (x.args[0].ty or '').replace('&', '').strip() in ('alloc::vec::Vec<u8>', '[u8]') for x in subterms(t))

    def outer(self, n):
        f = n.where[0].split('::{closure')[0] if isinstance(n.where, tuple) else ''
        return strict(n) and f not in self.optimiser

    def internal(self, n):
        """about the places of sequences the optimiser has found (P15, P16)"""
        names = {(i, f[0]) for i, f in enumerate(self.prog.adts[LOCATION]['variants'][0]['fields'])} if LOCATION in self.prog.adts else ()
        def place(t): return t.op == 'fld' and (field_owner(self.prog, t) == LOCATION or not field_owner(self.prog, t) and (t.args[2], t.args[3]) in names)
        return any(place(t) or (t.ty or '').replace('&', '').strip() in (LOCATION, 'nspc::seqtree::Sequence') for x in n.data for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, Term) for t in subterms(y))

    def table(self, n):
        """the converter's own tables of sixteen channels and eight voices"""
        ops = n.data[2]
        return ops and isinstance(ops[0], Term) and ops[0] in (Int(8), Int(16))


VEC = 'alloc::vec::Vec<%s>'
HANDLER_T = 'ghakuf::reader::Handler'


def closures(t):
    return {t.args[0][8:]} if t.op == 'adt' and str(t.args[0]).startswith('closure:') else set()


def subfacts(F, want):
    return {t for f in F for t in subterms(f) if want(t)}


def wide(ops):
    return any(isinstance(x, Term) and (x.ty or '') in ('usize', 'u32', 'u64') for x in ops[1:])


def field_owner(prog, t):
    b = (t.args[0].ty or '').replace('&mut ', '').replace('&', '').strip()
    return b


def p28(ck):
    """interprocedural panic-reachability and error-propagation analysis over the abstract interpretation of every function: every unwrap, explicit panic, division and input-dependent index is an obligation discharged from path facts or type invariants; every Result of every call must be known Ok, or be returned, on each way to a non-error return; the checks of JSON songs and of the MIDI format are matched against quantified path facts ::
    All functions of the crate are analysed; ghakuf, clap and serde are taken at their word."""
    cr = Crate(ck)
    for k in sorted(cr.res):
        bad = cr.open.get(k, [])
        if k in cr.inline and k not in cr.open: continue
        ck.req(not bad, 'abort', k, None, '')
        for n in bad:
            ck.bad('abort', '%s in %s' % (n.kind, n.where[0]), n, 'the process can abort here: ' + describe(n))
    ck.floor(len(cr.covered), 90, 'abort', 'functions')
    handlers(ck, cr)
    for P, i in sorted(cr.fields): never_none(ck, cr, P, i)
    n = 0
    for k, (I, R) in sorted(cr.res.items()): n += dropped(ck, cr, k, I, R)
    ck.floor(n, 30, 'dropped', 'calls that can fail')
    valid_songs(ck)
    formats(ck)


def describe(n):
    if n.kind == 'unwrap': return 'nothing shows that %s holds' % show(n.data[1] if n.data[1] is not FALSE else n.data[0])[:120]
    if n.kind == 'lib': return 'call of ' + n.data[0]
    c = n.data[2] if n.kind == 'bounds' else n.data[1]
    return 'nothing shows that %s' % show(c)[:160]


def handlers(ck, cr):
    """events are stored in the last track, which exists once track_change was called"""
    meths = {f['path'].split('::')[-1]: k for k, f in ck.prog.fns.items() if f.get('impl_trait') == HANDLER_T}
    if not cr.handlers: return
    if 'track_change' not in meths: raise Missing('track_change of the MIDI handler')
    for m, k in sorted(meths.items()):
        I, R = ck.analyse(k)
        at = lambda n: n.data and isinstance(n.data[0], tuple) and len(n.data) > 1 and isinstance(n.data[1], tuple) and any(e[0] == 'f' and e[4] == VEC % 'midi::MidiTrack' for e in n.data[1][-1:])
        for n in R.nodes:
            if n.kind in ('vpop', 'vremove', 'vtrunc', 'store'): ck.req(not at(n), 'tracks', m + ' ' + n.kind, n, 'a track is removed while the file is read')
        if m == 'track_change':
            start = {n.id for n in R.nodes if n.kind == 'start'}
            for s, v in R.rets:
                for q in back_paths(s.trace, start, lambda n: n.kind == 'push' and at(n)):
                    ck.req(len(q) > 1, 'tracks', 'new track', s.trace, 'track_change does not add a track, so the events that follow have nowhere to go')
    for m in ('midi_event', 'meta_event', 'sys_ex_event'): ck.req(m in meths, 'tracks', m, None, '')


def never_none(ck, cr, P, i):
    """field i of type P holds a value whenever a function of the crate ends"""
    name = ck.adt(P)['variants'][0]['fields'][i][0]
    made = 0
    for k, (I, R) in sorted(cr.res.items()):
        for n in R.nodes:
            for x in flat(n.data):
                if not isinstance(x, Term): continue
                for t in subterms(x):
                    if t.op == 'adt' and t.args[0] == P:
                        made += 1
                        ck.req(I.entails(n.facts, isvar(t.args[3][i], 1)), 'invariant', '%s.%s made' % (P.split('::')[-1], name), n, 'a %s without %s is made, which is unwrapped elsewhere' % (P, name))
        here = lambda n: n.kind == 'store' and n.data[1] and n.data[1][-1][0] == 'f' and n.data[1][-1][2] == i and len(n.data[1][-1]) > 5 and n.data[1][-1][5] == P
        empty = [n for n in R.nodes if here(n) and not I.entails(n.facts, isvar(n.data[2], 1))]
        for e in empty:
            full = lambda n: here(n) and n not in empty and n.data[0] == e.data[0] and n.data[1] == e.data[1]
            for s, v in R.rets:
                ck.req(not back_reaches(s.trace, e, full), 'invariant', '%s.%s left' % (P.split('::')[-1], name), e, 'a %s is left without %s, which is unwrapped elsewhere' % (P, name))
    ck.floor(made, 1, 'invariant', 'places where a %s is made' % P)


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [x]


def preds(n, known=None):
    r = list(ins(n))
    if n.kind == 'loop':
        for h in heads_into(n):
            for tr, b, hn in h.backs or ():
                if known is None or known not in b.facts: r.append(tr)
    return r


def back_reaches(n, target, stop, known=None):
    """can event `target` come before n without an event in between at which `stop` holds (or a way round a loop on which `known` is a fact)?"""
    st, seen = [n], set()
    while st:
        x = st.pop()
        if x is None or x.id in seen: continue
        seen.add(x.id)
        if x is target: return True
        if stop(x): continue
        st.extend(preds(x, known))
    return False


def dropped(ck, cr, k, I, R):
    """every call that can fail: on each way to a return that is no error, it is known to have succeeded"""
    es = {}
    for n in R.nodes:
        if n.kind not in ('call', 'lib', 'fopen', 'fread', 'fwrite', 'fs'): continue
        r = n.data[-1] if n.data else None
        if not isinstance(r, Term) or not (r.ty or '').startswith('core::result::Result<') or r.op not in ('app', 'res'): continue
        p = name_of(n)
        if p.endswith('JoinHandle::join'): continue
        es.setdefault(r, []).append(n)
    for r, ns in es.items():
        bad = None
        ok = isvar(r, 0)
        # a function that tries again by calling itself: an error of one attempt gives way to the success of another
        oks = [ok] + [isvar(q, 0) for q in es if q is not r and all(n.kind == 'call' and n.data[0] == k for n in ns + es[q])]
        stop = lambda x: x not in ns and any(o in x.facts or I.entails(x.facts, o) for o in oks)
        for s, v in R.rets:
            if is_err(v) or any(t is r for t in subterms(v)) and v.op != 'phi': continue
            if any(o in s.facts for o in oks): continue
            for n in ns:
                if n.kind == 'call' and n.data[0] in cr.fns and accepted(I, n, s): continue
                if back_reaches(s.trace, n, stop, ok):
                    bad = (n, s)
                    break
        n = (bad or (ns[0],))[0]
        ck.req(bad is None, 'dropped', '%s in %s' % (name_of(n).split('::')[-1], k), n, 'an error of %s does not end in an error of %s' % (name_of(n), k))
    return len(es)


def name_of(n):
    if n.kind in ('call', 'lib'): return str(n.data[0])
    return {'fopen': 'opening a file', 'fread': 'reading a file'}.get(n.kind, 'writing a file')


def accepted(I, n, s):
    """dump_midi prints the error together with what was read"""
    def dump(x): return x.op == 'app' and x.args[0] == 'cl_subcommand_matches' and len(x.args) > 2 and x.args[2].op == 'str' and x.args[2].args[0] == 'dump_midi'
    def name(x):
        while x.op in ('deref', 'fld') or x.op == 'app' and x.args[0] == 'refto': x = x.args[1] if x.op == 'app' else x.args[0]
        return x
    def named(f):
        a, b = [name(x) for x in f.args]
        return any(x.op == 'app' and x.args[0] in ('cl_name', 'cl_subcommand_name') and y.op == 'str' and y.args[0] == 'dump_midi' for x, y in ((a, b), (b, a)))
    return any(f.op == 'var' and f.args[1] == 1 and dump(f.args[0]) or f.op == 'eq' and named(f) for f in n.facts)


# ---------------------------------------------------------------- JSON songs
def lid_backs(R, lid):
    return [(h, b, hn) for h in R.nodes if h.kind == 'loop' and h.data[0] == lid for tr, b, hn in h.backs or ()]


class Cover(object):
    """`every element of the list arr satisfies good`, from the facts of a loop over it"""

    def __init__(self, I, R):
        self.I, self.R = I, R

    def loops(self, at, idxs, arr_len, good, F):
        """F: facts after; idxs: candidate positions in the list. Does one of them run from 0 to the end, good at every step?"""
        for e in idxs:
            if not self.I.entails(F, le(arr_len, e)): continue
            ks = [t for t in lin_parts(e)[1]]
            if lin_parts(e)[0] != 0 or any(c != 1 for c in lin_parts(e)[1].values()): continue
            if self.cursor(e, ks, good): return True
        return False

    def every_way(self, n, head, good):
        """each way from the head of the loop to n passes an event after which the element is known to be good"""
        st, seen = [n], set()
        while st:
            x = st.pop()
            if x is None or x is head: return False
            if x.id in seen: continue
            seen.add(x.id)
            if good(x.facts): continue
            ps = preds(x)
            if not ps: return False
            st.extend(ps)
        return True

    def cursor(self, e, ks, good):
        """position e: starts at 0, moves by one, and the element it leaves is good"""
        if not ks or any(t.op not in ('kap', 'phi') for t in ks): return False
        for t in ks:
            lid = t.args[1]
            bs = lid_backs(self.R, lid)
            if not bs: return False
            for h, b, hn in bs:
                if not good(e, b.facts) and not self.every_way(b.trace, hn, lambda F: good(e, F)): return False
                if t.op == 'phi':
                    m = headmap(hn, b)
                    new = m.get(t)
                    if new is None or not self.I.entails(b.facts, int_eq(new, addc(e, 1))): return False
            if t.op == 'phi':
                for h in self.R.nodes:
                    if h.kind == 'loop' and h.data[0] == lid:
                        for en in entries(h):
                            z = headmap(h, en).get(t)
                            if z is None or not self.I.entails(en.facts, int_eq(z, Int(0))): return False
        return True


def valid_songs(ck):
    song = ck.adt('nspc::Song')
    key = ck.fn('nspc::Song::from_json')
    fp, ft = ck.field('nspc::Song', 'parts'), ck.field('nspc::Song', 'tracks')
    pt, tc = ck.field('nspc::Part', 'tracks'), ck.field('nspc::track::Track', 'commands')
    pc = ck.field('nspc::command::ParameterizedCommand', 'command')
    call = ck.variant('nspc::command::Command', 'CallLoop')
    I, R = ck.analyse(key, branches=True)
    n = 0
    C = Cover(I, R)
    for s, v in R.rets:
        if is_err(v): continue
        n += 1
        S = payload(v) if is_ok(v) else field(v, 0, 0, '0', None)
        parts, tracks = field(S, None, fp, 'parts', VEC % 'nspc::Part'), field(S, None, ft, 'tracks', VEC % 'nspc::track::Track')
        nt = I.length(tracks)
        ck.req(I.entails(s.facts, le(Int(1), I.length(parts))), 'song', 'parts', s.trace, 'a song without parts is accepted')
        T = {t for x in R.nodes for f in x.facts for t in subterms(f)} | {t for h in R.nodes for tr, b, hn in h.backs or () for f in b.facts for t in subterms(f)}
        elems = lambda a: {t.args[1] for t in T if t.op == 'idx' and t.args[0] is a}

        def part_ok(what):
            def good(e, F):
                a = field(mk('idx', parts, e), None, pt, 'tracks', VEC % 'usize')
                if what == 'empty': return I.entails(F, le(Int(1), I.length(a)))
                return C.loops(None, elems(a), I.length(a), lambda i, G: I.entails(G, lt(mk('idx', a, i), nt)), F)
            return good

        def track_ok(e, F):
            a = field(mk('idx', tracks, e), None, tc, 'commands', VEC % 'nspc::command::ParameterizedCommand')

            def good(i, G):
                c = field(mk('idx', a, i), None, pc, 'command', None)
                if I.entails(G, Not(isvar(c, call))) or any(g.op == 'var' and g.args[0] is c and g.args[1] != call for g in G): return True
                return I.entails(G, lt(field(c, call, 0, '0', 'usize'), nt))
            return C.loops(None, elems(a), I.length(a), good, F)
        ck.req(C.loops(None, elems(parts), I.length(parts), part_ok('empty'), s.facts), 'song', 'part tracks', s.trace, 'a song with an empty part is accepted')
        ck.req(C.loops(None, elems(parts), I.length(parts), part_ok('missing'), s.facts), 'song', 'missing tracks', s.trace, 'a song with a part that refers to a missing track is accepted')
        ck.req(C.loops(None, elems(tracks), nt, track_ok, s.facts), 'song', 'call loops', s.trace, 'a song with a call loop to a missing track is accepted')
    ck.floor(n, 1, 'song', 'ways of reading a song')


def formats(ck):
    """only files of format 1 are read"""
    meths = [k for k, f in ck.prog.fns.items() if f.get('impl_trait') == HANDLER_T and f['path'].split('::')[-1] == 'header']
    if len(meths) != 1: raise Missing('header of the MIDI handler')
    I, R = ck.analyse(meths[0])
    fmt = R.args[1]
    kept = {n.data[1][-1][2]: n.data[1][-1][3] for n in R.nodes if n.kind == 'store' and n.data[0] == ('H', R.args[0]) and n.data[1] and n.data[1][-1][0] == 'f' and n.data[2] is fmt}
    start = {n.id for n in R.nodes if n.kind == 'start'}
    ck.req(len(kept) == 1 or all(I.entails(s.facts, int_eq(fmt, Int(1))) for s, v in R.rets), 'format', 'known', (meths[0], ''), 'the format of the file is not kept')
    if len(kept) != 1: return
    (i, name), = kept.items()
    for s, v in R.rets:
        for q in back_paths(s.trace, start, lambda n: n.kind == 'store' and n.data[1] and n.data[1][-1][0] == 'f' and n.data[1][-1][2] == i):
            ck.req(len(q) > 1 and q[-1].data[2] is fmt, 'format', 'kept', s.trace, 'the format of the file is not kept on some way')
    key = ck.fn('midi::MidiHandler::read')
    I, R = ck.analyse(key, opaque=lambda x: x != key and len(ck.prog.fns[x]['blocks']) > 12)
    for s, v in R.rets:
        if is_err(v): continue
        ok = any(f.op == 'eq0' and any(t.op == 'fld' and t.args[2] == i and t.args[3] == name and I.entails(s.facts, int_eq(t, Int(1))) for t in subterms(f)) for f in s.facts)
        ck.req(ok, 'format', 'checked', s.trace, 'a file whose format is not 1 can be accepted')


RULES = {'P28': p28}
