"""P13, P17, P18: the conversion of one voice's MIDI events to song commands (Track::new)."""
from .base import *
from .encode import PC, CMD, TRACK

MSG = 'ghakuf::messages::Message'
MIDI = 'ghakuf::messages::MidiEvent'
META = 'ghakuf::messages::MetaEvent'
EVENTS_T = '&alloc::vec::Vec<(ghakuf::messages::Message, u32)>'
TIMED = ('Note', 'Rest', 'Tie')


class Conv(object):
    """the analysis of Track::new and what its parts are"""

    def __init__(self, ck, keep=None):
        self.ck = ck
        self.key = ck.fn(TRACK + '::new', ((EVENTS_T, 'u16', 'u32', 'f32', 'usize'), None))
        I, R = self.I, self.R = ck.analyse(self.key, cap=400, keep=keep)
        self.tpb, self.maxt, self.factor = R.args[1], R.args[2], R.args[3]
        self.events = mk('deref', R.args[0], ty=deref_ty(R.args[0].ty))
        self.LH = loop_heads(R)
        lids = set()
        for l, hs in self.LH.items():
            for h in hs:
                for tr, b, hn in h.backs or ():
                    for f in b.facts:
                        for t in subterms(f):
                            if t.op == 'idx' and t.args[0] is self.events and t.args[1].op == 'kap' and t.args[1].args[1] == l: lids.add(l)
        self.pushes = [n for n in R.nodes if n.kind == 'push' and n.data[2].op == 'adt' and n.data[2].args[0] == PC or
                       n.kind == 'push' and n.data[2].ty == PC]
        lids = [l for l in lids if any(self.pushes and p.id in {y.id for y in body(self.LH[l][0])} for p in self.pushes)]
        if len(lids) != 1: raise Missing('loop over the events of a voice in %s' % self.key)
        self.lid = lids[0]
        self.heads = self.LH[self.lid]
        self.stop = {h.id for h in self.heads}
        self.el = I.index(None, self.events, next(t for h in self.heads for tr, b, hn in h.backs for f in b.facts for t in subterms(f)
                                                  if t.op == 'kap' and t.args[1] == self.lid))
        self.msg = field(self.el, None, 0, '', MSG)
        self.abs = field(self.el, None, 1, '', 'u32')
        self.fdur, self.fvel, self.fsus, self.fcmd = [ck.field(PC, n) for n in ('duration', 'velocity', 'sustain', 'command')]
        self.vn = [v['name'] for v in ck.adt(CMD)['variants']]
        for n in TIMED:
            if n not in self.vn: raise Missing('command ' + n)
        self.timed = {self.vn.index(n) for n in TIMED}
        self.mi, self.me = ck.variant(MSG, 'MidiEvent'), ck.variant(MSG, 'MetaEvent')
        fs = ck.adt(MSG)['variants'][self.mi]['fields']
        i = [n for n, t in fs].index('event')
        self.midi = field(self.msg, self.mi, i, 'event', MIDI)
        fs = ck.adt(MSG)['variants'][self.me]['fields']
        self.meta = field(self.msg, self.me, [n for n, t in fs].index('event'), 'event', META)
        self.data = field(self.msg, self.me, [n for n, t in fs].index('data'), 'data', dict((n, t) for n, t in fs)['data'])
        self.roots = {place_of(n) for h in self.heads for tr, b, hn in h.backs for n in self.seq_pushes(tr)}
        if len(self.roots) != 1: raise Missing('list of commands built in ' + self.key)
        self.root = next(iter(self.roots))
        self.find_places()
        self.memo = {}

    def find_places(self):
        """the variable the commands are appended to, and those it is moved to after the event loop"""
        self.places = [self.root]
        inside = {y.id for h in self.heads for y in body(h)} | self.stop
        known = {leaf(h.store, self.root) for h in self.heads}

        def same(v):
            while v is not None and v.op in ('push', 'upd', 'ext'): v = v.args[0]
            return v in known
        known.discard(None)
        more = True
        while more:
            more = False
            for lid, hs in self.LH.items():
                for h in hs:
                    if h.id in inside: continue
                    for k, v in leaves(h.store).items():
                        if v.op != 'phi' or v.args[1] != lid or v in known: continue
                        es = [leaf(e.store, k) for e in h.ents or ()]
                        if es and all(same(e) for e in es):
                            known.add(v)
                            more = True
                            if k not in self.places: self.places.append(k)
            for x in self.R.nodes:
                if x.kind == 'push' and x.id not in inside and same(x.data[3]) and place_of(x) not in self.places:
                    self.places.append(place_of(x))
                    more = True

    def list(self, store):
        """the commands in a store"""
        for k in reversed(self.places):
            v = leaf(store, k)
            if v is not None: return v
        return None

    def evfield(self, ev, name):
        k = self.ck.variant(MIDI, ev)
        fs = self.ck.adt(MIDI)['variants'][k]['fields']
        i = [n for n, t in fs].index(name)
        return field(self.midi, k, i, name, fs[i][1])

    def seq_pushes(self, tr):
        seen = reach_back(tr)
        return [n for n in self.pushes if n.id in seen and any(h.id in reach_back(n) for h in self.heads)]

    def sym(self, n):
        return n.kind == 'exit' or (n.kind == 'push' and n in self.pset) or n.kind == 'loop'

    @property
    def pset(self):
        if not hasattr(self, '_ps'): self._ps = set(self.pushes)
        return self._ps

    def seqs(self, end, stop=None, memo=None):
        """event sequences from a loop head in `stop` to `end`: (start, events)"""
        return [(q[0], q[1:]) for q in back_paths(end, stop or self.stop, self.sym, self.memo if memo is None and stop is None else memo)]

    def steps(self):
        """iterations of the event loop: (source head, target head, events, end state, facts)"""
        for h in self.heads:
            for tr, b, hn in h.backs or ():
                for s, q in self.seqs(tr):
                    if s is not hn: continue
                    yield hn, h, q, b, facts_of(q, b.facts)

    def midi_kind(self, facts):
        """name of the MIDI event the facts single out, 'tempo', or None"""
        if isvar_f(facts, self.msg, self.mi):
            for k, v in enumerate(self.ck.adt(MIDI)['variants']):
                if isvar_f(facts, self.midi, k): return v['name']
            return 'other MIDI'
        if isvar_f(facts, self.msg, self.me): return 'meta'
        return None

    # time a command takes -------------------------------------------------
    def tau(self, c, facts):
        """duration in units of a command value, None if it cannot be told"""
        if c.op == 'adt':
            d, cmd = c.args[3][self.fdur], c.args[3][self.fcmd]
            if cmd.op == 'fld' and d.op == 'fld' and cmd.args[0] is d.args[0] and cmd.args[2] == self.fcmd and d.args[2] == self.fdur:
                return self.tau(cmd.args[0], facts)
        else:
            d = field(c, None, self.fdur, 'duration', 'core::option::Option<u8>')
            cmd = field(c, None, self.fcmd, 'command', CMD)
        if cmd.op == 'adt': k = cmd.args[1]
        else:
            k = next((i for i in range(len(self.vn)) if isvar_f(facts, cmd, i)), None)
            if k is None:
                return None if c.op == 'adt' else mk('app', 'tau', (c,), ty='u8')
        if k not in self.timed: return Int(0)
        if is_some(d): return payload(d)
        if is_none(d): return None
        if d.op != 'adt': return field(d, 1, 0, '0', 'u8')
        return None


def isvar_f(facts, t, k):
    if t.op == 'adt': return t.args[1] == k
    return isvar(t, k) in facts


def kind_fact(f):
    """a fact about what kind of event the current one is: its variant, its controller, the length of its data"""
    g = f.args[0] if f.op == 'not' else f
    if g.op == 'var': return (g.args[0].ty or '') in (MSG, MIDI, META)
    if g.op in ('eq0', 'ge0'):
        b = list(lin_parts(g.args[0])[1])
        if len(b) != 1: return False
        x = b[0].args[0] if b[0].op == 'len' else b[0]
        return x.op == 'fld' and x.args[3] in ('control', 'data') and (b[0].op == 'len') == (x.args[3] == 'data')
    return False


def command_fact(f):
    """or about what a command that has been appended is, or about a switch"""
    if kind_fact(f): return True
    g = f.args[0] if f.op == 'not' else f
    if g.op == 'phi': return True
    return g.op == 'var' and g.args[0].op == 'fld' and g.args[0].args[3] in ('command', 'duration')


def place_of(x):
    """where the vector is that a push appends to: a variable, or a field of one"""
    return (x.data[0],) + tuple(f[2] if f[0] == 'f' else f for f in x.data[1])


def leaves(store):
    """the values in a store, with the fields of structures and tuples apart: {place: value}"""
    out = {}

    def go(k, v):
        if v.op == 'adt' and v.args[1] == 0 and not v.args[0].startswith(('core::', 'alloc::', 'std::')) and v.args[3] and len(v.args[3]) < 40:
            for i, x in enumerate(v.args[3]): go(k + (i,), x)
        else: out[k] = v
    for r, v in store.items():
        if hasattr(v, 'op'): go((r,), v)
    return out


def leaf(store, k):
    """the value of a place; None when there is none"""
    v = store.get(k[0])
    for i in k[1:]:
        if v is None: return None
        if v.op == 'adt':
            if i >= len(v.args[3]): return None
            v = v.args[3][i]
        else: return None
    return v


def excluded(I, F, hyp):
    """do the facts rule out all of `hyp` together?"""
    for c in hyp:
        G = I.add_fact(F, c)
        if G is None: return True
        F = G
    return contradictory(I, F)


def facts_of(q, facts):
    s = set(facts)
    for x in q:
        if x.kind != 'loop': s |= set(x.facts)
    return frozenset(s)


# ------------------------------------------------------------------- spans
def strip_mask(t):
    while t.op == 'bin' and t.args[0] == 'BitAnd' and t.args[2].op == 'int' and t.args[2].args[0] in (0xffffffff, 0xffffffffffffffff, 0xffff):
        t = t.args[1]
    return t


def fprod(e, num, den, inv=False):
    """numerator and denominator factors of a float product"""
    if e.op == 'fbin' and e.args[0] == 'Mul':
        fprod(e.args[1], num, den, inv)
        fprod(e.args[2], num, den, inv)
    elif e.op == 'fbin' and e.args[0] == 'Div':
        fprod(e.args[1], num, den, inv)
        fprod(e.args[2], num, den, not inv)
    elif e.op == 'fcast' or e.op == 'f2f':
        fprod(e.args[0], num, den, inv)
    else:
        (den if inv else num).append(e)


def span_of(t, tpb):
    """(ticks, 'ceil'|'floor') when t is a number of ticks converted to 24ths of a beat"""
    if t.op == 'f2i':
        e, kind = t.args[0], 'floor'          # the cast drops the fraction
        if e.op == 'fn1' and e.args[0] in ('ceil', 'floor', 'trunc'):
            kind = 'ceil' if e.args[0] == 'ceil' else 'floor'
            e = e.args[1]
        num, den = [], []
        fprod(e, num, den)
        c, ticks, beats = 1.0, [], 0
        for x in num:
            if x.op == 'float': c *= x.args[0]
            elif x.op == 'i2f': ticks.append(x.args[0])
            else: return None
        for x in den:
            if x.op == 'float':
                if not x.args[0]: return None
                c /= x.args[0]
            elif x.op == 'i2f' and x.args[0] is tpb: beats += 1
            elif x.op == 'i2f' and x.args[0].op == 'int' and x.args[0].args[0]: c /= x.args[0].args[0]
            else: return None
        k = [x for x in ticks if x.op == 'int']
        ticks = [x for x in ticks if x.op != 'int']
        for x in k: c *= x.args[0]
        if c == 24.0 and beats == 1 and len(ticks) == 1: return ticks[0], kind
        return None
    if t.op == 'bin' and t.args[0] == 'Div' and t.args[2] is tpb:
        n = strip_mask(t.args[1])
        c, d = lin_parts(n)
        d = dict(d)
        if c == 0 and d and all(k % 24 == 0 for k in d.values()):
            return mk_lin(0, {x: k // 24 for x, k in d.items()}), 'floor'
        if c == -1 and d.get(tpb) == 1:
            d.pop(tpb)
            if d and all(k % 24 == 0 for k in d.values()): return mk_lin(0, {x: k // 24 for x, k in d.items()}), 'ceil'
    return None


def quantised(t, q, tpb):
    """is t the ticks of q units: floor(q * tpb / 24)"""
    t = strip_mask(t)
    if t.op == 'bin' and t.args[0] == 'Div' and t.args[2] is Int(24):
        n = strip_mask(t.args[1])
        return n is mul(q, tpb) or n is mul(tpb, q)
    return False


def divs(terms, base):
    """lemma q = n*(q/n) + q%n for the quotients that occur"""
    out = set()
    for f in terms:
        for t in subterms(f):
            if t.op == 'bin' and t.args[0] in ('Div', 'Rem') and t.args[2].op == 'int' and t.args[2].args[0] > 0 and t.args[1] is base:
                n = t.args[2].args[0]
                d, r = binop('Div', base, Int(n), base.ty or 'u32'), binop('Rem', base, Int(n), base.ty or 'u32')
                e = sub(base, add(scale(d, n), r))
                out.add(eq0(e))
                out.add(ge0(r))
                out.add(ge0(addc(scale(r, -1), n - 1)))
                out.add(ge0(d))
    return out


def lemmas(facts):
    """q = n*(q/n) + q%n for all quotients by constants in the facts"""
    bs = {t.args[1] for f in facts for t in subterms(f) if t.op == 'bin' and t.args[0] in ('Div', 'Rem') and t.args[2].op == 'int'}
    out = set()
    for b in bs: out |= divs(facts, b)
    return out


def contradictory(I, facts):
    """can the facts not hold together (as far as the prover can tell)?"""
    m = I.bounds(facts).ent
    r = m.get('contra')
    if r is None:
        r = False
        for f in facts:
            if f.op in ('ge0', 'eq0', 'not') and I.entails(facts - {f}, Not(f), 0):
                r = True
                break
            if f.op == 'var' and any(g.op == 'var' and g.args[0] is f.args[0] and g.args[1] != f.args[1] for g in facts):
                r = True
                break
        m['contra'] = r
    return r


def loop_cases(cv, h, facts):
    """the total time of the commands one run of the loop with head h appends, up to its exit under `facts`:
    list of alternatives, each a list of cases (sum, facts); all cases of one alternative together are complete"""
    I, lid = cv.I, h.data[0]
    grp = heads_into(h)
    ids = {g.id for g in grp}
    its = []
    for g in grp:
        for tr, b, hn in g.backs or ():
            if hn.id not in ids: continue
            for s, q in cv.seqs(tr, ids, {}):
                if s is not hn: continue
                f = facts_of(q, b.facts)
                tot = Int(0)
                for x in q:
                    if x.kind == 'loop': return []
                    if x.kind != 'push': continue
                    d = cv.tau(x.data[2], f)
                    if d is None: return []
                    tot = add(tot, d)
                its.append((hn, g, b, f, tot))
    if not its: return [[(Int(0), frozenset())]]
    out = []
    if all(tot is Int(0) for hn, g, b, f, tot in its): return [[(Int(0), frozenset())]]
    inv = lambda t: not any((u.op in ('kap', 'phi') and u.args[1] == lid) for u in subterms(t))
    kap = next((t for hn, g, b, f, tot in its for x in f for t in subterms(x) if t.op == 'kap' and t.args[1] == lid), None)
    tots = []
    for x in its:
        if x[4] not in tots: tots.append(x[4])
    if kap is not None:
        for a in tots:
            if inv(a) and all(I.entails(f, int_eq(tot, a)) or contradictory(I, f) for hn, g, b, f, tot in its):
                out.append([(mul(kap, a), frozenset([ge0(kap)]))])
                break
        ns = []
        facts = facts | lemmas(facts)
        more = set()
        for f in facts:
            if f.op == 'ge0':
                c, d = lin_parts(f.args[0])
                k = dict(d).get(kap)
                if k in (1, -1):
                    n = sub(kap, scale(f.args[0], k))
                    if not inv(n) or n in ns: continue
                    if k == 1 and all(I.entails(e.facts | lemmas(e.facts), ge0(n)) for e in entries(h)) and all(I.entails(g[3], lt(kap, n)) for g in its):
                        more.add(le(kap, n))      # the counter never passes its bound
                    if I.entails(facts | more, int_eq(n, kap)): ns.append(n)
        more = frozenset(more)
        out = [[(s, f | more) for s, f in a] for a in out]
        for n in ns:
            for a in tots:
                for b2 in tots:
                    if not (inv(a) and inv(b2)): continue
                    if all(okcase(I, f | {ge0(addc(sub(n, kap), -2))}, tot, a) and okcase(I, f | {eq0(addc(sub(n, kap), -1))}, tot, b2)
                           for hn, g, b, f, tot in its):
                        out.append([(Int(0), more | {eq0(n)}), (add(mul(addc(n, -1), a), b2), more | {ge0(addc(n, -1))})])
        for a in tots:
            for b2 in tots:
                if a is b2 or not (inv(a) and inv(b2)): continue
                if all(okcase(I, f | {eq0(kap)}, tot, b2) and okcase(I, f | {ge0(addc(kap, -1))}, tot, a) for hn, g, b, f, tot in its):
                    out.append([(Int(0), frozenset([eq0(kap)])), (add(mul(addc(kap, -1), a), b2), frozenset([ge0(addc(kap, -1))]))])
    # a counter that goes down by what is appended
    ent = entries(h)
    for r, hv in h.store.items():
        for p in subterms(hv):
            if p.op != 'phi' or p.args[1] != lid or not is_int(p.ty): continue
            for sgn in (-1, 1):
                if all(I.entails(f, int_eq(headmap(hn, b).get(p, p), add(p, scale(tot, sgn)))) or contradictory(I, f) for hn, g, b, f, tot in its):
                    alt = []
                    for e in ent:
                        v = entry_val(h, e, p)
                        if v is None: break
                        alt.append((scale(sub(p, v), sgn), frozenset(e.facts)))
                    else:
                        out.append(alt)
    return out


def entry_val(h, e, p):
    for g in heads_into(h):
        m = headmap(g, e)
        if p in m: return m[p]
    return None


def okcase(I, f, tot, a):
    return tot is a or contradictory(I, f) or I.entails(f, int_eq(tot, a))


def totals(cv, q, facts):
    """alternatives for the time of the commands in an event sequence: list of complete case lists [(sum, facts)]"""
    alts = [[(Int(0), frozenset())]]
    for i, x in enumerate(q):
        if x.kind == 'push':
            d = cv.tau(x.data[2], facts)
            if d is None: return None, x
            alts = [[(add(s, d), f) for s, f in a] for a in alts]
        elif x.kind == 'loop' and x.data[0] != cv.lid:
            la = loop_cases(cv, x, facts)
            if not la: return None, x
            alts = [[(add(s, s2), f | f2) for s, f in a for s2, f2 in l] for a in alts for l in la]
            if len(alts) > 200: return None, x
    return alts, None


def adds_up(cv, alts, q, facts):
    """some alternative gives exactly q in all of its cases"""
    I = cv.I
    for a in alts:
        for s, f in a:
            F = facts | f
            F = F | divs([s, *F], q)
            if s is q or contradictory(I, F) or I.entails(F, int_eq(s, q)): continue
            break
        else:
            return True
    return False


def spans_in(cv, terms):
    out = {}
    for t in terms:
        for u in subterms(t):
            s = span_of(u, cv.tpb)
            if s: out[u] = s
    return out


def ev_span(cv, sp, end):
    """start of the span when it ends at time `end`"""
    ticks, kind = sp
    d = dict(lin_parts(ticks)[1])
    if d.get(end) == 1:
        return sub(end, ticks)
    return None


def position(cv):
    """the variable rests are measured from, and the one notes are measured from"""
    pos, start = {}, {}
    for hn, h, q, b, F in cv.steps():
        for u, sp in spans_in(cv, list(headmap(hn, b).values()) + list(F) + [x.data[2] for x in q if x.kind == 'push']).items():
            x = ev_span(cv, sp, cv.abs)
            if x is None or x.op != 'phi' or x.args[1] != cv.lid: continue
            (pos if sp[1] == 'floor' else start).setdefault(x, []).append(u)
    return pos, start


def p17(ck):
    """path-sensitive value-numbering dataflow over the MIR of Track::new with symbolic loop summaries ::
    For every iteration of the event loop, every sequence of commands it can append (loops summarised by constant, last/first-step or
    countdown arguments): their durations add up to exactly the quantised span (rounded up for notes, down for rests), the position
    advances by exactly that, spans start where the last one ended; the sustain pass keeps the total time.
    No path passes over a press or a release, and the loop ends only behind the last event."""
    cv = Conv(ck, keep=kind_fact)
    I = cv.I
    pos, start = position(cv)
    if len(pos) != 1: raise Missing('position from which rests are measured (%d candidates)' % len(pos))
    if len(start) != 1: raise Missing('start time of the sounding note (%d candidates)' % len(start))
    P, S = next(iter(pos)), next(iter(start))

    sroot, spath = None, ()
    for h in cv.heads:
        for r, hv in leaves(h.store).items():
            if is_some(hv):
                # the start, or the start together with other things about the note
                for j, x in leaves({0: payload(hv)}).items():
                    if x is S: sroot, spath = r, j[1:]
            if hv is S: sroot, spath = r, ()

    def held(v):
        """the start in the value of the option"""
        return leaf({0: payload(v)}, (0,) + spath)
    ck.req(sroot is not None, 'anchor', 'note start', None, 'cannot tell where the start of the sounding note is kept')
    if sroot is None: return
    nof, non, npc = (ck.variant(MIDI, x) for x in ('NoteOff', 'NoteOn', 'ProgramChange'))
    n = {'note': 0, 'rest': 0, 'none': 0}
    for e in cv.heads:
        for x in e.ents or ():
            v = headmap_ent(cv, x, P)
            ck.req(v is not None and I.entails(x.facts, eq0(v)), 'position', 'start', x.trace, 'the first span is measured from %s, not from 0' % (show(v) if v is not None else '?'))
            s0 = leaf(x.store, sroot)
            ck.req(s0 is not None and is_none(s0), 'position', 'no note at the start', x.trace, 'a voice starts with a sounding note')
    for hn, h, q, b, F in cv.steps():
        sounding = leaf(hn.store, sroot)
        after = leaf(b.store, sroot)
        if sounding is not None and is_some(sounding): F = F | {int_eq(S, P)}
        w = last_where(q, b)
        kind = cv.midi_kind(F)
        m = headmap(hn, b)
        p2 = m.get(P, P)
        if contradictory(I, F): continue
        timed = [x for x in q if x.kind == 'push' and cv.tau(x.data[2], F) is not Int(0) or x.kind == 'loop']
        cand = {}
        for u, sp in spans_in(cv, [p2] + [x.data[2] for x in q if x.kind == 'push'] + list(F)).items():
            x = ev_span(cv, sp, cv.abs)
            if x is P or x is S: cand[u] = (x, sp[1])
        inst = kind or 'other event'
        alts, bad = totals(cv, q, F)
        if not ck.req(alts is not None, 'sum', inst + ' unclear', bad or w, 'cannot tell how long the commands appended for a %s event last' % inst): continue
        adv = sub(p2, P)
        zero = adds_up(cv, alts, Int(0), F)
        if zero and I.entails(F, eq0(adv)) and not any(I.entails(F, ge0(addc(u, -1))) for u in cand):
            # nothing is written: fine when there is nothing to write
            n['none'] += 1
            ck.req(True, 'sum', inst + ' no time', w, '')
            if kind == 'NoteOn' and after is not None and is_some(after) and (sounding is None or is_none(sounding)) and is_press(cv, F):
                ck.req(I.entails(F, le(cv.abs, P)) or any(I.entails(F, eq0(u)) for u in cand), 'rest before a note', inst, w, 'a note starts after the position without a rest in between')
            if kind == 'NoteOff' and sounding is not None and is_some(sounding):
                # a span that is not empty, rounded up, is at least one unit
                some = any(k == 'ceil' and I.entails(F, lt(x, cv.abs)) and I.entails(F, le(u, Int(0))) for u, (x, k) in cand.items())
                ck.req(some or I.entails(F, le(cv.abs, S)) or I.entails(F, le(cv.abs, P)), 'note length', inst, w, 'a sounding note is released without being written')
        else:
            good = False
            for u, (x, rnd) in cand.items():
                want = 'ceil' if (kind == 'NoteOff') else 'floor'
                if rnd != want: continue
                if not (x is P or x is S and sounding is not None and is_some(sounding)): continue
                if not adds_up(cv, alts, u, F): continue
                d = sub(p2, x)
                if quantised(d, u, cv.tpb) or (I.entails(F, eq0(u)) and I.entails(F, eq0(d))):
                    good = True
                    n['note' if want == 'ceil' else 'rest'] += 1
                    break
            why = 'the commands of a %s event do not last exactly the quantised span, or the position does not advance by it' % inst
            if not cand: why = 'a %s event appends commands that take time or moves the position, but not by a quantised span' % inst
            ck.req(good, 'sum', inst, w, why)
        # a sounding note starts at the position
        if after is not None and is_some(after):
            z = held(after)
            ck.req(z is not None and I.entails(F, int_eq(z, p2)), 'note start', inst, w, 'a note is taken to start at %s, the position is %s' % (show(payload(after)), show(p2)))
        else:
            ck.req(after is not None and is_none(after) or after is S or after is None, 'note start', inst, w, 'unclear note start %s' % (show(after) if after is not None else '?'))
        # presses and releases are not passed over
        if kind == 'NoteOn':
            ck.req(after is not None and is_some(after) or I.entails(F, eq0(cv.evfield('NoteOn', 'velocity'))), 'note start', 'pressed', w, 'a note that is pressed is not taken to sound')
        if kind in (None, 'other MIDI'):
            for x in ('NoteOn', 'NoteOff'):
                ck.req(excluded(I, F, [isvar(cv.msg, cv.mi), isvar(cv.midi, ck.variant(MIDI, x))]), 'note start', x + ' passed over', w, 'a note press or release may be ignored')
        if kind == 'NoteOff':
            ck.req(after is not None and is_none(after), 'note start', 'released', w, 'a note is still taken to sound after its release')
    ck.floor(n['note'], 4, 'sum', 'note sequences')
    ck.floor(n['rest'], 4, 'sum', 'rest sequences')
    all_events(ck, cv)
    p17_end(ck, cv, P)


def all_events(ck, cv):
    """the event loop is left for the result only behind the last event"""
    I = cv.I
    k = cv.el.args[1] if cv.el.op == 'idx' else None
    n = 0
    for s, v in cv.R.rets:
        if not is_ok(v): continue
        seen = reach_back(s.trace)
        for x in cv.R.nodes:
            if x.kind == 'exit' and x.data[0] == cv.lid and x.id in seen:
                n += 1
                ck.req(k is not None and I.entails(x.facts, le(I.length(cv.events), k)), 'events', 'all', x, 'the conversion can stop before the last event of a voice')
    ck.floor(n, 1, 'events', 'ends of the event loop')


def is_press(cv, F):
    return True


def last_where(q, b):
    for x in reversed(q):
        if x.kind == 'push': return x
    return b.trace


def headmap_ent(cv, e, p):
    for h in cv.heads:
        m = headmap(h, e)
        if p in m: return m[p]
    return None


def p17_end(ck, cv, P):
    """after the event loop: the final rest, and the pass that merges rests into notes"""
    I, R = cv.I, cv.R
    nret = nrest = 0
    for s, v in R.rets:
        if not is_ok(v): continue
        nret += 1
        tv = payload(v)
        fc = ck.field(TRACK, 'commands')
        out = tv.args[3][fc] if tv.op == 'adt' and tv.args[0] == TRACK else None
        if not ck.req(out is not None, 'result', 'track', s.trace, 'cannot tell the commands of the result'): continue
        for h0, q in cv.seqs(s.trace):
            F = facts_of(q, s.facts)
            if contradictory(I, F): continue
            first = [x for x in q if x.kind == 'push' and place_of(x) in cv.places]
            loops = [x for x in q if x.kind == 'loop']
            passes = [x for x in loops if any(y.kind == 'push' and y in cv.pset and place_of(y) not in cv.places for y in body(x))]
            pre, post = [], []
            seen = False
            for x in q:
                if x in passes: seen = True
                elif x.kind == 'push' and place_of(x) not in cv.places: post.append(x)
                elif seen and x.kind in ('push', 'loop'): post.append(x)
                else: pre.append(x)
            cand = {}
            for u, sp in spans_in(cv, [x.data[2] for x in pre if x.kind == 'push'] + list(F)).items():
                x = ev_span(cv, sp, cv.maxt)
                if x is P and sp[1] == 'floor': cand[u] = x
            alts, bad = totals(cv, pre, F)
            if not ck.req(alts is not None, 'final rest', 'unclear', bad, 'cannot tell how long the final rest is'): continue
            noth = adds_up(cv, alts, Int(0), F)
            vec0 = cv.list(h0.store)
            empty = vec0 is not None and I.entails(F, eq0(I.length(vec0)))
            ok = any(adds_up(cv, alts, u, F) for u in cand) or noth and (empty or I.entails(F, le(cv.maxt, P)))
            nrest += bool(cand)
            ck.req(ok, 'final rest', 'length', s.trace, 'a voice is not filled with exactly the quantised rest up to the end of the song')
            if not passes:
                ck.req(empty or out is cv.list(s.store), 'sustain pass', 'missing', s.trace, 'the commands of a voice are not all part of the result')
                continue
            if not ck.req(len(passes) == 1, 'sustain pass', 'number', s.trace, 'several passes over the commands'): continue
            sustain_pass(ck, cv, passes[0], post, F, s, out)
    ck.floor(nret, 2, 'result', 'successful returns')
    ck.floor(nrest, 2, 'final rest', 'sequences with a final rest')


def sustain_pass(ck, cv, h, post, F, s, out):
    """the pass copies all commands in order; a rest may be skipped when the note before it took over its time"""
    I = cv.I
    labels = pass_labels(ck, cv, h)
    if labels is None: return
    lid = h.data[0]
    C = cv.list(h.store)
    src = labels[1]
    pos = labels[2](h)
    n = I.length(src(h))
    e = labels[0].get(h.id)
    F = F | {ge0(addc(n, -1))} if False else F
    rest = [x for x in post if x.kind == 'push']
    if any(x.kind == 'loop' for x in post):
        ck.req(False, 'sustain pass', 'end', s.trace, 'unclear commands after the pass')
        return
    # elements from pos on are still to come
    left = sub(n, pos)
    ok = False
    vals = [x.data[2] for x in rest]
    if e == 0:
        if not rest: ok = I.entails(F, le(left, Int(0)))
        elif len(rest) == 1: ok = I.entails(F, int_eq(left, Int(1))) and same_cmd(cv, I, F, vals[0], src(h), pos)
    else:
        ok = not rest and I.entails(F, int_eq(left, Int(1)))
    ck.req(ok, 'sustain pass', 'last command', s.trace, 'the last command of a voice is lost, changed or doubled')
    v = out
    while v.op == 'push': v = v.args[0]
    ck.req(v.op == 'phi' and v.args[1] == lid, 'sustain pass', 'result', s.trace, 'the result is %s, not what the pass produced' % show(out))


def same_cmd(cv, I, F, v, vec, pos):
    if v.op == 'idx' and v.args[0] is vec: return v.args[1] is pos or I.entails(F, int_eq(v.args[1], pos))
    return False


def pass_labels(ck, cv, h):
    """{head id: debt} where debt 1 means: the time of the next command has already been written"""
    I = cv.I
    if not hasattr(cv, 'passes'): cv.passes = {}
    grp = heads_into(h)
    key = tuple(sorted(g.id for g in grp))
    if key in cv.passes: return cv.passes[key]
    cv.passes[key] = None
    lid = h.data[0]
    ids = {g.id for g in grp}
    kap = next((t for g in grp for v in g.store.values() for t in subterms(v) if t.op == 'kap' and t.args[1] == lid), None)
    src = lambda g: cv.list(g.store)
    if any(src(g) is None for g in grp):
        ck.req(False, 'sustain pass', 'source', h, 'cannot tell the commands the pass reads')
        return None
    steps = []
    for g in grp:
        for tr, b, hn in g.backs or ():
            if hn.id not in ids: continue
            for s, q in cv.seqs(tr, ids, {}):
                if s is hn: steps.append((hn, g, q, b, facts_of(q, b.facts)))
    # the position: the loop counter, or an index variable
    posv = []
    if kap is not None: posv.append((lambda g: kap, lambda hn, b: addc(kap, 1), kap))
    for p in {p for g in grp for v in g.store.values() for p in subterms(v) if p.op == 'phi' and p.args[1] == lid and p.ty == 'usize'}:
        posv.append((lambda g, p=p: p, lambda hn, b, p=p: headmap(hn, b).get(p, p), p))
    used = set()
    for hn, g, q, b, F in steps:
        for x in q:
            if x.kind == 'push':
                for t in subterms(x.data[2]):
                    if t.op == 'idx' and t.args[0] is src(hn): used.add(t.args[1])
    posv = [x for x in posv if x[2] in used]
    if not ck.req(len(posv) == 1, 'sustain pass', 'position', h, 'cannot tell which command the pass is at'): return None
    at, nxt, pv = posv[0]
    lab = {}
    for g in grp:
        for e in g.ents or ():
            lab[g.id] = 0
            v = kap is pv or (entry_val(g, e, pv) is not None and I.entails(e.facts, eq0(entry_val(g, e, pv))))
            ck.req(v, 'sustain pass', 'start', e.trace, 'the pass does not start at the first command')
    el = lambda hn, p: I.index(None, src(hn), p)
    changed, ok = True, True
    nsteps = 0
    while changed and ok:
        changed = False
        for hn, g, q, b, F in steps:
            if hn.id not in lab or contradictory(I, F): continue
            p0, p1 = pv, nxt(hn, b)
            k = lin_parts(sub(p1, p0))
            if not (k[1] == () or not k[1]) or k[0] not in (0, 1, 2): ok = False
            else:
                tot, want = Int(0), Int(0)
                for x in q:
                    d = cv.tau(x.data[2], F) if x.kind == 'push' else None
                    if x.kind in ('loop', 'exit') or d is None: ok = False
                    else: tot = add(tot, d)
                    if ok and place_of(x) in cv.places: ok = False
                # a symbolic command with a known kind has a known time
                for j in range(k[0]): want = add(want, cv.tau(el(hn, addc(p0, j)), F))
                if lab[hn.id]: want = sub(want, cv.tau(el(hn, p0), F))
                debt = cv.tau(el(hn, p1), F)
                e = None
                if tot is want or I.entails(F, int_eq(tot, want)): e = 0
                elif tot is add(want, debt) or I.entails(F, int_eq(tot, add(want, debt))): e = 1
                if e is None: ok = False
                elif g.id in lab:
                    if lab[g.id] != e: ok = False
                else:
                    lab[g.id] = e
                    changed = True
                # the commands still to come are untouched
                c1 = cv.list(b.store)
                x = c1
                while x is not None and x.op == 'upd' and I.entails(F, lt(x.args[1], p1)): x = x.args[0]
                if x is not src(hn): ok = False
                nsteps += 1
            ck.req(ok, 'sustain pass', 'step', last_where(q, b), 'a step of the pass over the commands loses or adds time, or changes a later command')
            if not ok: return None
    ck.floor(nsteps, 2, 'sustain pass', 'steps')
    cv.passes[key] = (lab, src, at)
    return cv.passes[key]



# ---------------------------------------------------------------- P13: ranges
def cong(I, t, n, depth=0):
    """(k, c) with t = k*n + c modulo 12, or None"""
    if t is n: return (1, 0)
    if t.op == 'int': return (0, t.args[0] % 12)
    if t.op == 'lin':
        k, c = 0, t.args[0]
        for u, q in t.args[1]:
            if q % 12 == 0: continue
            r = cong(I, u, n, depth)
            if r is None: return None
            k, c = k + q * r[0], c + q * r[1]
        return (k % 12, c % 12)
    if t.op == 'bin' and t.args[0] == 'Rem' and t.args[2].op == 'int' and t.args[2].args[0] % 12 == 0:
        return cong(I, t.args[1], n, depth)
    if t.op == 'phi' and depth < 4 and t in I.phi_in:
        r = None
        for x, f, l in I.phi_in[t]:
            if l is not None and x.op != 'phi':
                d = cong(I, sub(x, t), n, depth + 1) if t in set(subterms(x)) else None
                dd = lin_parts(sub(x, t))
                if all(k % 12 == 0 for u, k in dd[1]) and dd[0] % 12 == 0: continue
            if x is t: continue
            c = cong(I, x, n, depth + 1)
            if c is None or r not in (None, c): return None
            r = c
        return r
    return None


def elements(cv, terms):
    """facts about earlier commands: their durations are in range (each is checked when it is appended)"""
    out = set()
    for x in terms:
        for t in subterms(x):
            if t.op == 'fld' and t.args[1] == 1 and t.args[2] == 0 and t.args[0].op == 'fld' and t.args[0].args[2] == cv.fdur and t.args[0].args[0].ty == PC:
                out.add(ge0(addc(t, -1)))
                out.add(ge0(addc(scale(t, -1), 0x7f)))
    return frozenset(out)


def arith(cv, terms, facts):
    """lemmas for the quotients, remainders and quantised spans that occur"""
    I = cv.I
    out = set()
    for x in terms:
        for t in subterms(x):
            if t.op == 'bin' and t.args[0] in ('Div', 'Rem') and t.args[2].op != 'int':
                a, b = t.args[1], t.args[2]
                if not I.entails(facts, ge0(addc(b, -1))): continue
                q, r = mk('bin', 'Div', a, b, ty=t.ty), mk('bin', 'Rem', a, b, ty=t.ty)
                if I.entails(facts, ge0(addc(a, -1))):
                    out.add(Or(Not(eq0(r)), ge0(sub(a, b))))
                for k in (1, 8, 0xff):
                    if I.entails(facts, le(a, scale(b, k))): out.add(le(q, Int(k)))
            sp = span_of(t, cv.tpb)
            if sp and sp[1] == 'ceil' and I.entails(facts, ge0(addc(sp[0], -1))):
                out.add(ge0(addc(t, -1)))
    return frozenset(out)


def quot_low(cv, F, t):
    """q >= 1 for quotients q = a/b with a >= b"""
    out = set()
    for u in subterms(t):
        if u.op == 'bin' and u.args[0] == 'Div' and u.args[2].op != 'int':
            if cv.I.entails(F, ge0(addc(u.args[2], -1))) and cv.I.entails(F, ge0(sub(u.args[1], u.args[2]))): out.add(ge0(addc(u, -1)))
    return frozenset(out)


def unmask(I, F, t, m=None):
    """t without truncations that provably change nothing"""
    mm = {}
    for u in subterms(t):
        if u.op == 'bin' and u.args[0] == 'BitAnd' and u.args[2].op == 'int' and (u.args[2].args[0] + 1) & u.args[2].args[0] == 0:
            if I.entails(F, ge0(u.args[1])) and I.entails(F, le(u.args[1], u.args[2])): mm[u] = u.args[1]
    return subst(t, mm) if mm else t


def within(I, F, t, lo, hi):
    if t.op == 'sat' or t.op == 'bin' and t.args[0] in ('min', 'max'): pass
    return I.entails(F, ge0(addc(t, -lo))) and I.entails(F, ge0(addc(scale(t, -1), hi)))


def p13(ck):
    """path-sensitive interval, congruence and linear-inequality analysis of the values that flow into commands ::
    For every command pushed by Track::new, on every path: note operands are in 0x80..0xc7, equal note+0x68 in range and
    congruent modulo 12 otherwise; durations in 1..0x7f, note velocities in 1..15 and sustains in 1..7; every narrowing cast,
    wrapping operation and overflow check on the way is proved not to lose anything (quantised positions excepted)."""
    cv = Conv(ck)
    I, R = cv.I, cv.R
    note_k = cv.vn.index('Note')
    nn = nd = nv = 0
    for x in cv.pushes:
        c, F = x.data[2], x.facts
        if contradictory(I, F): continue
        if c.op != 'adt' or c.args[3][cv.fcmd].op == 'fld' and c.args[3][cv.fdur] is field(c.args[3][cv.fcmd].args[0], None, cv.fdur, 'duration', c.args[3][cv.fdur].ty) \
                and c.args[3][cv.fvel].op == 'fld' and c.args[3][cv.fsus].op == 'fld':
            # an earlier command, unchanged
            base = c if c.op != 'adt' else c.args[3][cv.fcmd].args[0]
            ck.req(base.op == 'idx' and from_commands(cv, base), 'source', 'copied', x, 'a command of unknown origin %s' % show(base))
            continue
        dur, vel, sus, cmd = (c.args[3][i] for i in (cv.fdur, cv.fvel, cv.fsus, cv.fcmd))
        name = cv.vn[cmd.args[1]] if cmd.op == 'adt' else next((cv.vn[i] for i in range(len(cv.vn)) if isvar_f(F, cmd, i)), 'command')
        F = F | elements(cv, list(F) + [c])
        F = F | arith(cv, list(F) + [c], F)
        kept = lambda v, i: v.op == 'fld' and v.args[2] == i and v.args[0].ty == PC and from_commands(cv, v.args[0])
        nd += 1
        if not is_none(dur) and not kept(dur, cv.fdur):
            d = payload(dur) if is_some(dur) else None
            if d is not None: d = unmask(I, F, d)
            ck.req(d is not None and within(I, F, d, 1, 0x7f), 'duration', name, x, 'a duration of %s may not be in 1..0x7f' % (show(d) if d is not None else show(dur)))
        if name in TIMED:
            ck.req(not is_none(dur), 'duration', name + ' present', x, '%s is written without a duration of its own' % name)
        for what, v, i, hi in (('velocity', vel, cv.fvel, 15), ('sustain', sus, cv.fsus, 7)):
            if kept(v, i): continue
            if is_none(v):
                ck.req(name != 'Note', what, 'Note present', x, 'a note is written without a %s of its own' % what)
                continue
            nv += 1
            t = unmask(I, F, payload(v)) if is_some(v) else None
            ck.req(t is not None and (low_high(cv, F, t, 1, hi) or kept_in(cv, F, x, t, 1, hi)), what, name, x, 'a %s of %s may not be in 1..%d' % (what, show(t) if t is not None else show(v), hi))
        if cmd.op == 'adt' and cmd.args[1] == note_k:
            nn += 1
            t = cmd.args[3][0]
            srcs = [s for s in (cv.evfield('NoteOff', 'note'), cv.evfield('NoteOn', 'note')) if True]
            ok = within(I, F, t, 0x80, 0xc7)
            ck.req(ok, 'note range', 'Note', x, 'a note operand %s may not be in 0x80..0xc7' % show(t))
            n = next((s for s in srcs if cong(I, t, s) == (1, 0x68 % 12)), None)
            ck.req(n is not None, 'note pitch', 'octaves', x, 'a note operand %s does not differ from the pitch by whole octaves' % show(t))
            if n is not None:
                F2 = F | {ge0(addc(n, -24)), ge0(addc(scale(n, -1), 95))}
                ck.req(t is addc(n, 0x68) or I.entails(F2, int_eq(t, addc(n, 0x68))) or contra_add(I, F, [ge0(addc(n, -24)), ge0(addc(scale(n, -1), 95))]),
                       'note pitch', 'in range', x, 'a note operand %s differs from a pitch that is in range' % show(t))
    ck.floor(nn, 4, 'note range', 'note commands')
    ck.floor(nd, 12, 'duration', 'commands')
    ck.floor(nv, 8, 'velocity', 'velocities and sustains')
    # nothing is lost on the way
    nl = 0
    for x in R.nodes:
        if x.kind == 'lossy':
            kind, v, ty = x.data[:3]
            F = x.facts
            F = F | elements(cv, list(F) + [v])
            F = F | arith(cv, list(F) + [v], F)
            lo, hi = ty_range(ty) or (0, 0)
            q = strip_mask(v)
            allowed = kind == 'cast' and ty == 'u32' and any(quantised(v, u, cv.tpb) for u in spans_in(cv, [v]))
            nl += 1
            ck.req(allowed or within(I, F, v, lo, hi) or contradictory(I, F), 'no loss', '%s to %s in %s' % (kind, ty, x.where[0].split('::')[-1]), x,
                   'converting %s to %s may lose part of it' % (show(v), ty))
        elif x.kind == 'assert' and x.data[0] == 'overflow':
            nl += 1
            op = x.data[2]
            F = x.facts - {x.data[1]} if x.data[1] in x.facts else x.facts
            F = F | elements(cv, list(F) + [t for t in op[1:] if hasattr(t, 'op')])
            F = F | arith(cv, list(F), F)
            allowed = op[0] == 'Add' and any(quantised(t, u, cv.tpb) for t in op[1:] if hasattr(t, 'op') for u in spans_in(cv, [t]))
            ck.req(allowed or I.entails(F, x.data[1]) or sub_min(I, F, op), 'no overflow', '%s in %s' % (op[0], x.where[0].split('::')[-1]), x,
                   '%s may overflow (wraps around in a release build)' % ' '.join(show(t) if hasattr(t, 'op') else str(t) for t in op))
    ck.floor(nl, 6, 'no loss', 'casts and checked operations')
    ck.assume.append('P13: positions and quantised spans fit 32 bits (songs shorter than 2^31 ticks)')


def contra_add(I, F, new):
    return any(I.entails(F | set(new[:i]) | set(new[i + 1:]), Not(x)) for i, x in enumerate(new))


def sub_min(I, F, op):
    """a - min(x, a) cannot underflow"""
    if op[0] != 'Sub': return False
    a, b = op[1], op[2]
    return b.op in ('min', 'bin') and a in b.args


def low_high(cv, F, t, lo, hi):
    I = cv.I
    F = F | quot_low(cv, F, t)
    if within(I, F, t, lo, hi): return True
    # min(k, q): q >= lo and k >= lo
    if t.op == 'min' or t.op == 'bin' and t.args[0] in ('min', 'Min'):
        a, b = [x for x in t.args if hasattr(x, 'op')]
        return all(I.entails(F, ge0(addc(x, -lo))) for x in (a, b)) and any(I.entails(F, ge0(addc(scale(x, -1), hi))) for x in (a, b))
    return False


def kept_in(cv, F, x, t, lo, hi):
    """a loop variable that is within the bounds whenever a note sounds: every iteration that leaves an option set (the start of the
    note) leaves the variable within the bounds, given that it was if the option was set before, and the loop is entered without it"""
    I = cv.I
    if t.op != 'phi' or t.args[1] != cv.lid: return False
    b0 = frozenset([ge0(addc(t, -lo)), ge0(addc(scale(t, -1), hi))])
    steps = [s for s in cv.steps() if not contradictory(I, s[4])]
    heads = {s[0].id: s[0] for s in steps if any(y.id == x.id for y in s[2])}
    if not heads: return False
    roots = None
    for h in heads.values():
        rs = {r for r, v in leaves(h.store).items() if is_some(v)}
        roots = rs if roots is None else roots & rs
    for r in roots:
        ok = True
        for h in cv.heads:
            for e in h.ents or ():
                v = leaf(e.store, r)
                if v is not None and is_none(v): continue
                n = headmap(h, e).get(t)
                if n is None or not within(I, e.facts, n, lo, hi): ok = False
        for hn, h, q, b, G in steps:
            v = leaf(b.store, r)
            if v is not None and is_none(v): continue
            n = headmap(hn, b).get(t, t)
            w = leaf(hn.store, r)
            H = G | b0 if w is not None and is_some(w) else G
            if not (n is t and H is not G or low_high(cv, H, n, lo, hi)): ok = False
        if ok: return True
    return False


def from_commands(cv, t):
    """is t an element of the list of commands built by the event loop (or a variable that stands for it)?"""
    if t.op != 'idx': return False
    v = t.args[0]
    while v.op in ('push', 'upd'): v = v.args[0]
    return v.op == 'phi' and any(cv.list(h.store) is v for hs in cv.LH.values() for h in hs)


# -------------------------------------------------------------- P18: meaning
# SNES instrument for every General MIDI program
INSTRUMENT_TABLE = bytes.fromhex(
    '18181818181818180e0e0e0e0e0e0e0e1515151515090d17181818181818181818181818181818180909090909090f02'
    '0909090915151509110b12111212121211110b0b1212121616160d0d0d0d080d03040d06060607070505051505050505'
    '010101010101010118181818181209120e0e02130202020c171710080e170117')


def p18(ck):
    """path-sensitive value-flow analysis of one iteration of the event loop; bit provenance of the data bytes ::
    For every path of an iteration, the non-note commands appended are exactly those the event calls for (facts about its kind and
    controller), their operands are the specified functions of its data bytes, and the portamento state changes as specified. On every
    path that appends nothing, the facts exclude an event that calls for a command; the loop ends only behind the last event."""
    from .encode import vbits
    cv = Conv(ck, keep=kind_fact)
    I = cv.I
    f = lambda n: cv.vn.index(n)
    ctl, dat = cv.evfield('ControlChange', 'control'), cv.evfield('ControlChange', 'data')
    prog, ch = cv.evfield('ProgramChange', 'program'), cv.evfield('ProgramChange', 'ch')
    st_k = ck.variant(META, 'SetTempo')
    small = frozenset([ge0(addc(scale(dat, -1), 127))])
    steps = [x for x in cv.steps() if not contradictory(I, x[4])]
    fl, T = portamento(ck, cv, steps)
    seen = {}
    for hn, h, q, b, F in steps:
        kind = cv.midi_kind(F)
        w = last_where(q, b)
        cmds = [x.data[2].args[3][cv.fcmd] for x in others(cv, q)]
        L = [cv.vn[c.args[1]] for c in cmds]
        seen[(kind, tuple(L))] = seen.get((kind, tuple(L)), 0) + 1
        for x in q:
            if x.kind == 'loop' and any(y.kind == 'push' and y in cv.pset and not is_timed(cv, y.data[2]) for y in body(x)):
                ck.req(False, 'commands', 'repeated', x, 'a command is appended several times for one event')
        inst = '%s' % (kind or 'other event')
        ctrl = lambda k: I.entails(F, int_eq(ctl, Int(k))) if kind == 'ControlChange' else False
        is_cc = [isvar(cv.msg, cv.mi), isvar(cv.midi, ck.variant(MIDI, 'ControlChange'))]
        noctrl = lambda k: excluded(I, F, is_cc + [int_eq(ctl, Int(k))])
        if kind == 'meta':
            if not L:
                ck.req(not_set_tempo(cv, F, st_k) or I.entails(F, Not(int_eq(I.length(cv.data), Int(3)))), 'tempo', 'missing', w, 'a tempo event may yield no tempo command')
            else:
                ok = L == ['Tempo'] and isvar_f(F, cv.meta, st_k) and I.entails(F, int_eq(I.length(cv.data), Int(3)))
                ck.req(ok, 'tempo', 'event', w, 'commands %s for a meta event that may not be a tempo' % L)
                if L == ['Tempo']:
                    ck.req(tempo_ok(cv, cmds[0].args[3][0], vbits), 'tempo', 'value', w, 'the tempo is %s' % show(cmds[0].args[3][0]))
        elif kind == 'ControlChange':
            if L == ['ChannelVolume']:
                v = cmds[0].args[3][0]
                ck.req(ctrl(7), 'volume', 'controller', w, 'a channel volume for a controller that may not be 7')
                ck.req(volume_ok(I, F | small, v, dat), 'volume', 'value', w, 'the channel volume is %s, not twice the data byte' % show(v))
            else:
                ck.req(L == [] and noctrl(7), 'volume', 'missing' if not L else 'other', w, 'commands %s for a controller' % (L or 'missing'))
        elif kind == 'ProgramChange':
            ok = L == ['SetInstrument']
            ck.req(ok, 'instrument', 'command', w, 'commands %s for a program change' % L)
            if ok:
                v = cmds[0].args[3][0]
                perc, notperc = I.entails(F, int_eq(ch, Int(9))), I.entails(F, Not(int_eq(ch, Int(9))))
                if v is prog: ck.req(perc, 'instrument', 'percussion', w, 'a program is not mapped although the channel may not be 9')
                else:
                    ck.req(notperc and mapped(ck, I, F, v, prog), 'instrument', 'mapped', w, 'the instrument %s is not the one the program is mapped to' % show(v)[-120:])
                last = [x for x in q if x.kind == 'push'][-1]
                ck.req(last.data[2].args[3][cv.fcmd] is cmds[0], 'instrument', 'order', w, 'time passes between a program change and its position')
        elif kind == 'NoteOn':
            ck.req(all(x == 'PitchSlide' for x in L) and len(L) <= 1, 'commands', inst, w, 'commands %s for a note' % L)
        else:
            ck.req(not L, 'commands', inst, w, 'commands %s for a %s' % (L, inst))
            # what is passed over is none of the events that call for a command
            ck.req(excluded(I, F, [isvar(cv.msg, cv.me), isvar(cv.meta, st_k), int_eq(I.length(cv.data), Int(3))]), 'tempo', 'passed over', w, 'a tempo event may yield no tempo command')
            ck.req(noctrl(7), 'volume', 'passed over', w, 'controller 7 may yield no channel volume')
            ck.req(excluded(I, F, [isvar(cv.msg, cv.mi), isvar(cv.midi, ck.variant(MIDI, 'ProgramChange'))]), 'instrument', 'passed over', w, 'a program change may yield no instrument')
        if fl is not None:
            v0, v1 = leaf(hn.store, fl), leaf(b.store, fl)
            if ctrl(65):
                hi, lo = ge0(addc(dat, -64)), lt(dat, Int(64))
                if v1.op == 'bool' or v1 is Bool(True) or v1 is Bool(False):
                    ok = I.entails(F, hi if v1 is Bool(True) else lo)
                else:
                    ok = v1 is hi or I.entails(F | {hi}, v1) and I.entails(F | {lo}, Not(v1))
                ck.req(ok, 'portamento', 'switched', w, 'controller 65 sets the portamento switch to %s' % show(v1))
            else:
                ck.req(v1 is v0 and (noctrl(65)), 'portamento', 'switch kept', w, 'the portamento switch is changed by a %s (or controller 65 ignored)' % inst)
        if T is not None:
            v1 = headmap(hn, b).get(T, T)
            tb, db, nb = vbits(T, 16), vbits(dat, 8), vbits(v1, 16)
            if ctrl(5): want = tb[:8] + db
            elif ctrl(37): want = db + tb[8:]
            else:
                want = tb
                ck.req(noctrl(5) and noctrl(37), 'portamento', 'time', w, 'controller 5 or 37 may be ignored')
            ck.req(v1 is T and want == tb or nb is not None and list(nb) == list(want), 'portamento', 'time bits', w, 'the portamento time becomes %s' % show(v1))
    for k, least in ((('meta', ('Tempo',)), 1), (('ControlChange', ('ChannelVolume',)), 1), (('ProgramChange', ('SetInstrument',)), 2), (('NoteOn', ('PitchSlide',)), 1)):
        ck.floor(seen.get(k, 0), least, 'commands', '%s for %s' % (k[1][0], k[0]))
    all_events(ck, cv)
    # the pass that merges rests copies the commands unchanged
    for x in cv.pushes:
        if place_of(x) in cv.places: continue
        c = x.data[2]
        cmd = c.args[3][cv.fcmd] if c.op == 'adt' else None
        ok = c.op == 'idx' and from_commands(cv, c) or cmd is not None and cmd.op == 'fld' and from_commands(cv, cmd.args[0])
        ck.req(ok, 'commands', 'copied', x, 'a command is changed to %s after it was made' % show(c))


def portamento(ck, cv, steps):
    """where the portamento switch is kept, and the portamento time"""
    ptime, flags = {}, {}
    for hn, h, q, b, F in steps:
        for x in others(cv, q):
            cmd = x.data[2].args[3][cv.fcmd]
            if cmd.op == 'adt' and cmd.args[1] == cv.vn.index('PitchSlide'):
                for t in subterms(Tup([*cmd.args[3], *x.facts])):
                    if t.op == 'i2f' and t.args[0].op == 'phi' and t.args[0].args[1] == cv.lid: ptime[t.args[0]] = 1
                    # or already converted to units when stored
                bs = {r for r, v in leaves(hn.store).items() if v.op == 'phi' and v.args[1] == cv.lid and v in x.facts}
                tr = {r for r, v in leaves(hn.store).items() if v is Bool(True)}
                flags[x.id] = (x, bs | tr)
    fl = None
    for x, bs in flags.values(): fl = bs if fl is None else fl & bs
    if fl and len(fl) > 1:
        fl = {r for r in fl if any(leaf(x[0].store, r) is not None for x in steps)}
    if not ck.req(bool(fl) and len(fl) == 1, 'portamento', 'switch', None, 'a pitch slide does not depend on one portamento switch'): fl = None
    fl = next(iter(fl)) if fl else None
    if not ck.req(len(ptime) == 1, 'portamento', 'time', None, 'a pitch slide does not depend on the portamento time'): T = None
    else: T = next(iter(ptime))
    return fl, T


def others(cv, q):
    """appended commands that take no time"""
    return [x for x in q if x.kind == 'push' and not is_timed(cv, x.data[2])]


def is_timed(cv, c):
    if c.op != 'adt': raise Unsupported('a command that is not constructed is appended')
    cmd = c.args[3][cv.fcmd]
    if cmd.op != 'adt': raise Unsupported('a command of unknown kind is appended')
    return cmd.args[1] in cv.timed


def not_set_tempo(cv, F, k):
    if Not(mk('var', cv.meta, k)) in F or any(f.op == 'not' and f.args[0].op == 'var' and f.args[0].args[0] is cv.meta and f.args[0].args[1] == k for f in F): return True
    return any(f.op == 'var' and f.args[0] is cv.meta and f.args[1] != k for f in F)


def tempo_ok(cv, t, vbits):
    """(ceil of 60,000,000 / microseconds) times the tempo factor"""
    while t.op in ('f2i', 'fcast'): t = t.args[0]
    if t.op == 'fn1' and t.args[0] in ('floor', 'trunc'): t = t.args[1]
    if not (t.op == 'fbin' and t.args[0] == 'Mul'): return False
    a, b = t.args[1], t.args[2]
    if a is cv.factor: a, b = b, a
    if b is not cv.factor or not (a.op == 'fn1' and a.args[0] == 'ceil'): return False
    d = a.args[1]
    if not (d.op == 'fbin' and d.args[0] == 'Div' and d.args[1].op == 'float' and d.args[1].args[0] == 6e7 and d.args[2].op == 'i2f'): return False
    x = d.args[2].args[0]
    want = []
    for i in (2, 1, 0): want += vbits(cv.I.index(None, cv.data, Int(i)), 8)
    got = vbits(x, 32)
    return got is not None and list(got) == want + [0] * 8


def volume_ok(I, F, v, dat):
    two = scale(dat, 2)
    while v.op == 'sat':
        a, b = v.args[1], v.args[2]
        r = {'mul': mul, 'add': add}.get(v.args[0], lambda a, b: v)(a, b)
        if r is v or not I.entails(F, le(r, Int(255))): return False
        v = r
    v = unmask(I, F, v)
    return v is two or I.entails(F, int_eq(v, two))


def mapped(ck, I, F, v, prog):
    if v.op != 'idx': return False
    i = v.args[1]
    low = frozenset([ge0(addc(scale(prog, -1), 127))])
    from .encode import vbits
    same = i is prog or list(vbits(i, 8) or ()) == (vbits(prog, 8)[:7] + [0]) or I.entails(F | low, int_eq(i, prog))
    t = v.args[0]
    vals = [x.args[0] if x.op == 'int' else None for x in t.args[0]] if t.op == 'vec' else None
    return same and vals == list(INSTRUMENT_TABLE)


# ------------------------------------------------- P35: velocity, portamento
def p35(ck):
    """path-sensitive value-flow analysis of note presses and releases, case analysis on the last command ::
    For every path of an iteration of the event loop: a note's first command carries clamp(velocity/8) of the press (traced through
    the loop variable) and sustain 7, is a tie exactly if the facts say that the last command is a pitch slide; a press appends a slide
    exactly if the facts say that portamento is on and the last command has a duration and is no rest, with operands that add up to
    that duration and the pitch of the note."""
    cv = Conv(ck, keep=command_fact)
    I = cv.I
    V = cv.vn.index
    steps = [x for x in cv.steps() if not contradictory(I, x[4])]
    fl, T = portamento(ck, cv, steps)
    cmd_of = lambda e: e.args[3][cv.fcmd] if e.op == 'adt' else field(e, None, cv.fcmd, 'command', CMD)
    dur_of = lambda e: e.args[3][cv.fdur] if e.op == 'adt' else field(e, None, cv.fdur, 'duration', 'core::option::Option<u8>')

    def is_cmd(c, k):
        if c.op == 'adt': return TRUE if c.args[1] == k else FALSE
        return isvar(c, k)

    def last_of(vec):
        return I.index(None, vec, addc(I.length(vec), -1))

    def cases(F, t):
        """the values of nested minima and maxima, each with the facts under which it is the value"""
        if t.op not in ('min', 'max'): return [(F, t)]
        out, s = [], -1 if t.op == 'min' else 1
        for G, a in cases(F, t.args[0]):
            for H, b in cases(G, t.args[1]):
                for y, z in ((a, b), (b, a)):
                    K = I.add_fact(H, ge0(scale(sub(y, z), s)))
                    if K is not None: out.append((K, y))
        return out

    def linear_cases(F, t):
        """the same for a sum that contains minima, maxima and saturating differences"""
        for m in subterms(t):
            if m.op in ('min', 'max'):
                return [r for G, u in cases(F, m) for r in linear_cases(G, subst(t, {m: u}))]
            if m.op == 'sat' and m.args[0] == 'sub':
                a, b = m.args[1:3]
                out = []
                for G, u in ((I.add_fact(F, le(b, a)), sub(a, b)), (I.add_fact(F, lt(a, b)), Int(0))):
                    if G is not None: out += linear_cases(G, subst(t, {m: u}))
                return out
        return [(F, t)]

    def clamped(F, v, x):
        """v is x/8, at least 1 and at most 15"""
        ok = True
        for lo, hi, w in ((0, 7, 1), (8, 127, None), (128, 255, 15)):
            G = I.add_fact(F, ge0(addc(x, -lo)))
            if G is not None: G = I.add_fact(G, ge0(addc(scale(x, -1), hi)))
            if G is None: continue
            for sh in (mk('bin', 'Shr', x, Int(3), ty='u8'), mk('bin', 'Div', x, Int(8), ty='u8')):
                for c in (le(scale(sh, 8), x), le(x, addc(scale(sh, 8), 7))): G = G and I.add_fact(G, c)
            if G is None: continue
            for H, u in cases(G, v):
                if w is not None: ok = ok and I.entails(H, int_eq(u, Int(w)))
                else: ok = ok and I.entails(H, le(scale(u, 8), x)) and I.entails(H, le(x, addc(scale(u, 8), 7)))
        return ok
    vel = cv.evfield('NoteOn', 'velocity')
    used = []
    n = {'Note': 0, 'Tie': 0, 'slide': 0, 'none': 0}
    for hn, h, q, b, F in steps:
        kind, w = cv.midi_kind(F), last_where(q, b)
        pushes = [x for x in q if x.kind == 'push']
        if kind == 'NoteOff' and pushes:
            x = pushes[0]
            c = x.data[2]
            if not ck.req(c.op == 'adt' and c.args[3][cv.fcmd].op == 'adt', 'note', 'command', x, 'a release appends %s' % show(c)): continue
            k = c.args[3][cv.fcmd].args[1]
            name = cv.vn[k]
            if not ck.req(name in ('Note', 'Tie'), 'note', 'kind', x, 'a release appends a %s first' % name): continue
            n[name] += 1
            vec = x.data[3]
            lc = cmd_of(last_of(vec))
            slide = is_cmd(lc, V('PitchSlide'))
            if name == 'Tie':
                ck.req(slide is TRUE or slide is not FALSE and I.entails(F, slide), 'tie', 'after a slide', x, 'a note is written as a tie although the command before it may not be a pitch slide')
            else:
                ck.req(slide is FALSE or slide is not TRUE and excluded(I, F, [ge0(addc(I.length(vec), -1)), slide]), 'tie', 'without a slide', x, 'a note is struck again although a pitch slide leads into it')
            v, s = c.args[3][cv.fvel], c.args[3][cv.fsus]
            ck.req(is_some(s) and payload(s) is Int(7), 'velocity', 'sustain', x, 'a note has sustain %s' % show(s))
            if ck.req(is_some(v), 'velocity', 'present', x, 'a note has no velocity'): used.append((F, x, payload(v)))
            later = [y for z in q if z.kind == 'loop' for y in body(z) if y.kind == 'push' and y in cv.pset] + pushes[1:]
            for y in later:
                e = y.data[2]
                ok = e.op == 'adt' and is_none(e.args[3][cv.fvel]) and is_none(e.args[3][cv.fsus]) and is_cmd(e.args[3][cv.fcmd], V('Tie')) is TRUE
                ck.req(ok, 'note', 'continued', y, 'a note goes on with %s' % show(e)[:160])
        if kind == 'NoteOn' and fl is not None:
            v0 = leaf(hn.store, fl)
            on = [] if v0 is Bool(True) else [v0]
            sl = [x for x in pushes if is_cmd(cmd_of(x.data[2]), V('PitchSlide')) is TRUE]
            if not sl:
                vec = cv.list(b.store)
                e = last_of(vec)
                hyp = on + [ge0(addc(I.length(vec), -1)), Not(is_cmd(cmd_of(e), V('Rest')))]
                d = dur_of(e)
                if is_some(d): pass
                elif is_none(d): hyp.append(FALSE)
                else: hyp.append(isvar(d, 1))
                n['none'] += 1
                ck.req(v0 is Bool(False) or any(y is FALSE for y in hyp) or excluded(I, F, hyp), 'slide', 'missing', w, 'a note may get no pitch slide although portamento is on')
            for x in sl:
                n['slide'] += 1
                vec = x.data[3]
                e = last_of(vec)
                ck.req(all(I.entails(F, y) for y in on), 'slide', 'switch', x, 'a pitch slide although portamento may be off')
                rest = is_cmd(cmd_of(e), V('Rest'))
                ck.req(rest is FALSE or rest is not TRUE and excluded(I, F, [rest]), 'slide', 'after a rest', x, 'a pitch slide after what may be a rest')
                d = dur_of(e)
                D = payload(d) if is_some(d) else field(d, 1, 0, '0', 'u8')
                ck.req(is_some(d) or not is_none(d) and I.entails(F, isvar(d, 1)), 'slide', 'after no duration', x, 'a pitch slide after a command that may have no duration')
                a1, a2, a3 = x.data[2].args[3][cv.fcmd].args[3]
                F2 = F | {ge0(D), ge0(a2)}
                G, H = I.add_fact(F2, le(a2, D)), I.add_fact(F2, lt(D, a2))
                split = lambda K: [] if K is None else [(L, u1, u2) for N, u2 in cases(K, a2) for L, u1 in linear_cases(N, a1)]
                ok = all(I.entails(L, int_eq(u1, sub(D, u2))) for L, u1, u2 in split(G)) and all(I.entails(L, eq0(u1)) for L, u1, u2 in split(H))
                ck.req(ok, 'slide', 'operands', x, 'a pitch slide waits for %s, its length is %s' % (show(a1)[:200], show(a2)[:120]))
                note = cv.evfield('NoteOn', 'note')
                good = within(I, F, a3, 0x80, 0xc7) and cong(I, a3, note) == (1, 0x68 % 12)
                F3 = F | {ge0(addc(note, -24)), ge0(addc(scale(note, -1), 95))}
                good = good and (a3 is addc(note, 0x68) or I.entails(F3, int_eq(a3, addc(note, 0x68))) or contra_add(I, F, [ge0(addc(note, -24)), ge0(addc(scale(note, -1), 95))]))
                ck.req(good, 'slide', 'target', x, 'a pitch slide leads to %s, not to the pitch of the note' % show(a3))
    # the velocity is the one of the press
    src = {u for F, x, v in used for u in subterms(v) if u.op == 'phi' and u.args[1] == cv.lid}
    if ck.req(len(src) == 1, 'velocity', 'source', used[0][1] if used else None, 'the velocities of notes do not come from one place: %s' % ', '.join(show(v) for F, x, v in used)[:200]):
        u = next(iter(src))
        raw = any(v is not u for F, x, v in used)
        if raw:
            for F, x, v in used:
                ck.req(clamped(F, v, u), 'velocity', 'value', x, 'the velocity is %s, not an eighth of the one the note was pressed with' % show(v))
        for hn, h, q, b, F in steps:
            kind, w = cv.midi_kind(F), last_where(q, b)
            v1 = headmap(h, b).get(u)
            if v1 is None: continue     # no note sounds then
            if kind == 'NoteOn':
                ok = (v1 is vel or I.entails(F, int_eq(v1, vel))) if raw else clamped(F, v1, vel)
                ck.req(ok, 'velocity', 'pressed', w, 'after a press with velocity v, %s is kept' % show(v1))
            elif kind != 'NoteOff':
                ck.req(v1 is u, 'velocity', 'kept by other events', w, 'the velocity of a note is changed to %s' % show(v1))
    ck.floor(n['Note'], 2, 'note', 'notes')
    ck.floor(n['Tie'], 1, 'note', 'ties after a slide')
    ck.floor(n['slide'], 1, 'slide', 'slides')
    ck.floor(n['none'], 2, 'slide', 'presses without a slide')


RULES = {'P13': p13, 'P17': p17, 'P18': p18, 'P35': p35}
