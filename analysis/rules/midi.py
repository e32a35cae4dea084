"""P19-P23: from the events of a MIDI file to the events of eight voices (MidiHandler)."""
from .base import *
from .opt import events_facts, D
from .track import MSG, MIDI, META, contradictory

HANDLER = 'midi::MidiHandler'
HTRAIT = '<midi::MidiHandler as ghakuf::reader::Handler>::'
MESSAGES = 'alloc::vec::Vec<(ghakuf::messages::Message, u32)>'


def fpath(path):
    return tuple((e[0], e[2]) if e[0] == 'f' else e[0] for e in path)


def impossible(I, F, depth=12):
    """can the facts not hold together, alternatives looked into"""
    F = set(F)
    while True:
        a = [f for f in F if f.op == 'and']
        if not a: break
        for f in a:
            F.discard(f)
            F |= set(f.args)
    if contradictory(I, frozenset(F)): return True
    if depth == 0: return False
    for f in sorted((f for f in F if f.op == 'or'), key=show):
        rest = frozenset(F - {f})
        live = [x for x in f.args if not impossible(I, rest | {x}, 0)]
        if not live: return True
        if len(live) < len(f.args) or depth > 6:
            return all(impossible(I, rest | {x}, depth - 1) for x in live)
    return False


class Reading(object):
    """the analysis of MidiHandler::read, for one value of `verbose`"""

    def __init__(self, ck, verbose, cap=None):
        self.ck = ck
        key = ck.fn(HANDLER + '::read', (('&mut ' + HANDLER, '&std::path::Path', 'bool'), None))
        self.fbv = self.recursive(key)
        f = ck.prog.fns[key]
        args = [verbose if f['locals'][i] == 'bool' else None for i in range(1, f['args'] + 1)]
        I, R = self.I, self.R = ck.analyse(key, opaque=lambda k: k in self.fbv, branches=True, args=args, cap=cap)
        flatten_locals(R)
        self.H = ('H', R.args[0])
        self.f = {n: ck.field(HANDLER, n) for n in ('tracks', 'channels', 'voices')}
        self.base = [t for n, t in ck.adt('midi::MidiChannel')['variants'][0]['fields']].index('usize')
        self.LH = loop_heads(R)
        self.bodies = {}
        self.fs = {}

    def recursive(self, key):
        """functions of the module that may call themselves"""
        prog = self.ck.prog
        return {k for k in prog.fns if k.startswith('midi::') and k in reachable(prog, [c for c in fn_refs(prog, k) if c in prog.fns])}

    def at(self, path, what):
        """the index i when path is <what>[i].<a vector of timed messages>"""
        if len(path) == 3 and path[0][0] == 'f' and path[0][2] == self.f[what] and path[1][0] == 'i' and path[2][0] == 'f' and path[2][4] == MESSAGES: return path[1][1]
        return None

    def touched(self, n, what):
        """does event n change the messages of a channel or voice?"""
        if n.kind not in ('push', 'store', 'ext', 'vpop', 'vremove', 'vinsert', 'vtrunc', 'sort', 'splice') or n.data[0] != self.H: return False
        p = n.data[1]
        if not p or p[0][0] != 'f' or p[0][2] != self.f[what]: return False
        return len(p) < 3 or p[2][0] == 'f' and p[2][4] == MESSAGES

    def body(self, lid):
        if lid not in self.bodies: self.bodies[lid] = {y.id for h in self.LH[lid] for y in body(h)}
        return self.bodies[lid]

    def loops_of(self, n):
        """the loops around event n, innermost first"""
        l = [x for x in self.LH if n.id in self.body(x)]
        return sorted(l, key=lambda x: len(self.body(x)))

    def evf(self, e, k, name):
        fs = self.ck.adt(MIDI)['variants'][k]['fields']
        i = [n for n, t in fs].index(name)
        return field(e, k, i, name, fs[i][1])

    def mf(self, m, k, name):
        fs = self.ck.adt(MSG)['variants'][k]['fields']
        i = [n for n, t in fs].index(name)
        return field(m, k, i, name, fs[i][1])

    def ch(self, e, F):
        """the channel of MIDI event e, when the facts tell its kind"""
        r = []
        for k, v in enumerate(self.ck.adt(MIDI)['variants']):
            if not self.I.entails(F, Not(mk('var', e, k))): r.append(self.evf(e, k, 'ch'))
        return r


def kinds(ck):
    return {v['name']: i for i, v in enumerate(ck.adt(MIDI)['variants'])}


def verbosities(ck):
    return [FALSE, TRUE]


# --------------------------------------------------------------------- P19
def p19(ck):
    """flow of delta times and messages from the reader's callbacks through tracks and channels; stable sort and merge by time and rank :: every path of the callbacks, of the distribution and sorting loops and of the merge is inspected; the absolute time is shown to be the running sum by induction over the loop, the order by the sort and selection keys; sums of u32 delta times are assumed not to overflow"""
    p19_callbacks(ck)
    ck.assume.append('ghakuf reports every event of a track, after track_change, in file order')
    ck.assume.append('absolute times fit into u32')
    for v in verbosities(ck):
        rd = Reading(ck, v)
        p19_distribution(ck, rd)
        p19_sort(ck, rd)
        p19_merge(ck, rd)
    p19_untouched(ck, rd)


def p19_callbacks(ck):
    nt = ck.field(HANDLER, 'tracks')
    mtrack = 'midi::MidiTrack'
    for cb, var in (('meta_event', 'MetaEvent'), ('midi_event', 'MidiEvent'), ('sys_ex_event', 'SysExEvent')):
        I, R = ck.analyse(HTRAIT + cb)
        names = [n for n, t in ck.adt(MSG)['variants'][ck.variant(MSG, var)]['fields']]
        H = ('H', R.args[0])
        tracks = field(D(I, R.args[0]), None, nt, 'tracks', None)
        ev = [n for n in R.nodes if n.kind in ('push', 'store', 'ext', 'vpop', 'vremove', 'vtrunc', 'vinsert', 'sort') and n.data[0][0] == 'H']
        want = [R.args[1], D(I, R.args[2])] + ([D(I, R.args[3])] if len(R.args) > 3 else [])
        for s, v in R.rets:
            for q in back_paths(s.trace, {x.id for x in R.nodes if x.kind == 'start'}, lambda n: n in ev):
                q = q[1:]
                if not ck.req(len(q) == 1 and q[0].kind == 'push', 'callbacks', cb + ' once', s.trace, 'an event of the file is stored %d times' % len(q)): continue
                x = q[0]
                p, m = x.data[1], x.data[2]
                ok = len(p) == 3 and p[0][0] == 'f' and p[0][2] == nt and p[1][0] == 'i' and I.entails(x.facts, int_eq(p[1][1], addc(I.length(I.read(s, H, p[:1])), -1)))
                ck.req(ok, 'callbacks', cb + ' track', x, 'an event is not added to the current track')
                ok = m.op == 'adt' and m.args[0] == MSG and m.args[1] == ck.variant(MSG, var) and len(m.args[3]) == len(names)
                if not ck.req(ok, 'callbacks', cb + ' kind', x, 'an event is stored as %s' % show(m)[:80]): continue
                for n, a, b in zip(names, m.args[3], want): ck.req(a is b, 'callbacks', '%s %s' % (cb, n), x, 'the %s of an event is stored as %s' % (n, show(a)[:80]))
    I, R = ck.analyse(HTRAIT + 'track_change')
    ps = [n for n in R.nodes if n.kind == 'push' and n.data[0][0] == 'H']
    for s, v in R.rets:
        for q in back_paths(s.trace, {x.id for x in R.nodes if x.kind == 'start'}, lambda n: n in ps):
            ok = len(q) == 2 and q[1].data[1] and q[1].data[1][-1][2] == nt and q[1].data[2].op == 'adt' and all(I.entails(q[1].facts, eq0(I.length(x))) for x in q[1].data[2].args[3])
            ck.req(ok, 'callbacks', 'track_change', s.trace, 'a new track of the file does not start an empty track')


def p19_distribution(ck, rd):
    I, R = rd.I, rd.R
    ps = [n for n in R.nodes if n.kind == 'push' and n.data[0] == rd.H and rd.at(n.data[1], 'channels') is not None]
    ck.floor(len(ps), 1, 'distribution', 'places where a channel gets an event')
    if not ps: return
    lids = {tuple(rd.loops_of(n)) for n in ps}
    if not ck.req(len(lids) == 1 and len(next(iter(lids))) == 2, 'distribution', 'loops', ps[0], 'the events of all tracks are not gone through in one place'): return
    inner, outer = next(iter(lids))
    mi = ck.variant(MSG, 'MidiEvent')
    tc = ck.variant(MSG, 'TrackChange')
    hs = rd.LH[inner]
    sid = {h.id for h in hs}
    ko, ki = kap_of(rd, outer), kap_of(rd, inner)
    if not ck.req(ko is not None and ki is not None, 'distribution', 'counters', hs[0], 'cannot tell how events are gone through'): return
    # the element handled in an iteration
    els = {t for n in ps for t in subterms(n.data[2]) if t.op == 'idx' and t.args[1] is ki}
    if not ck.req(len(els) == 1, 'distribution', 'element', ps[0], 'cannot tell which event is handled'): return
    el = next(iter(els))
    msgs = el.args[0]
    tr = [t for t in subterms(msgs) if t.op == 'idx' and t.args[1] is ko]
    if not ck.req(len(tr) == 1 and tr[0].args[0].op == 'fld' and tr[0].args[0].args[2] == rd.f['tracks'], 'distribution', 'tracks', ps[0], 'the events handled are not those of the tracks in order'): return
    tracks = tr[0].args[0]
    phis = set()
    for n in ps:
        v = n.data[2]
        ok = v.op == 'adt' and len(v.args[3]) == 2 and v.args[3][0] is el
        if not ck.req(ok, 'distribution', 'message', n, 'the event given to a channel is %s' % show(v)[:120]): continue
        t = v.args[3][1]
        fs = [k for k in range(len(ck.adt(MSG)['variants'])) if not I.entails(n.facts, Not(mk('var', el, k)))]
        c, d = lin_parts(t)
        ph = [x for x in d if x.op == 'phi' and x.args[1] == inner]
        ok = c == 0 and len(d) == 2 and len(ph) == 1 and d[ph[0]] == 1
        dl = [x for x in d if x not in ph]
        ok = ok and len(dl) == 1 and d[dl[0]] == 1 and any(is_field(dl[0], el, k, [a for a, b in ck.adt(MSG)['variants'][k]['fields']].index('delta_time')) for k in fs if k != tc)
        ck.req(ok, 'distribution', 'time', n, 'the time of an event is %s, not the time before it plus its delta time' % show(t)[:160])
        if ok: phis |= set(ph)
        if I.entails(n.facts, mk('var', el, mi)) or not I.entails(n.facts, Not(mk('var', el, mi))):
            e = rd.mf(el, mi, 'event')
            c = rd.at(n.data[1], 'channels')
            ok = all(I.entails(n.facts | {mk('var', el, mi), mk('var', e, k)}, int_eq(c, rd.evf(e, k, 'ch'))) for k in range(len(ck.adt(MIDI)['variants'])) if
                     not contradictory(I, n.facts | {mk('var', e, k)}))
            ck.req(ok, 'distribution', 'channel', n, 'an event goes to channel %s' % show(c)[:120])
    if not ck.req(len(phis) == 1, 'distribution', 'running time', ps[0], 'the running time of a track cannot be identified'): return
    ph = next(iter(phis))
    for h in hs:
        for e in h.ents or ():
            v = headmap(h, e).get(ph)
            ck.req(v is not None and I.entails(e.facts, eq0(v)), 'distribution', 'start', h, 'the time of a track starts at %s' % (show(v)[:80] if v is not None else '?'))
        for trc, b, hn in h.backs or ():
            v = headmap(h, b).get(ph)
            cur = ph
            for q in back_paths(trc, sid, lambda n: n in ps or n.kind == 'br'):
                F = events_facts(q, b.facts)
                if contradictory(I, F): continue
                x = [n for n in q if n in ps]
                ks = [k for k in range(len(ck.adt(MSG)['variants'])) if not I.entails(F, Not(mk('var', el, k)))]
                if ks == [tc]:
                    ck.req(v is ph, 'distribution', 'end of track', trc, 'the time changes at a track change')
                    continue
                ck.req(len(x) == 1, 'distribution', 'once', trc, 'an event is given to %d channels' % len(x))
                if x and x[0].data[2].op == 'adt' and len(x[0].data[2].args[3]) == 2:
                    ck.req(v is not None and I.entails(F, int_eq(v, x[0].data[2].args[3][1])), 'distribution', 'sum', trc, 'the running time after an event is %s' % (show(v)[:120] if v is not None else '?'))
                else: ck.req(v is not None and v is not ph, 'distribution', 'sum', trc, 'the delta time of an event is lost')
    # nothing is left out
    for n in R.nodes:
        if n.kind == 'exit' and n.data[0] == inner: ck.req(I.entails(n.facts, le(I.length(msgs), ki)), 'distribution', 'all events', n, 'not every event of a track is handled')
        if n.kind == 'exit' and n.data[0] == outer: ck.req(I.entails(n.facts, le(I.length(tracks), ko)), 'distribution', 'all tracks', n, 'not every track is handled')
    rd.dist = outer


def is_field(t, base, k, i):
    return t.op == 'fld' and t.args[0] is base and t.args[2] == i and (t.args[1] == k or t.args[1] is None)


def kap_of(rd, lid):
    for h in rd.LH[lid]:
        for tr, b, hn in h.backs or ():
            for f in b.facts:
                for t in subterms(f):
                    if t.op == 'kap' and t.args[1] == lid: return t
    return None


# ranks of simultaneous events
def rank_classes(ck, m):
    """message m as a release, a control event or a press"""
    mi = ck.variant(MSG, 'MidiEvent')
    names = [n for n, t in ck.adt(MSG)['variants'][mi]['fields']]
    i = names.index('event')
    e = field(m, mi, i, 'event', MIDI)
    K = kinds(ck)
    fs = ck.adt(MIDI)['variants'][K['NoteOn']]['fields']
    j = [n for n, t in fs].index('velocity')
    vel = field(e, K['NoteOn'], j, 'velocity', 'u8')
    isM = mk('var', m, mi)
    out = [('release', {isM, mk('var', e, K['NoteOff'])}), ('release', {isM, mk('var', e, K['NoteOn']), eq0(vel)}),
           ('press', {isM, mk('var', e, K['NoteOn']), Not(eq0(vel)), le(Int(1), vel)})]
    for n, k in K.items():
        if n not in ('NoteOff', 'NoteOn', 'Unknown'): out.append(('control', {isM, mk('var', e, k)}))
    return out


def rank_order(ck, rule, ranks, where):
    rel, ctl, pre = (ranks.get(c, set()) for c in ('release', 'control', 'press'))
    ok = bool(rel) and bool(ctl) and bool(pre) and max(rel) < min(ctl) and max(ctl) < min(pre)
    ck.req(ok, rule, 'ranks', where, 'simultaneous releases, control events and presses are ranked %s, %s and %s' % tuple(sorted(x) for x in (rel, ctl, pre)))


def p19_sort(ck, rd):
    I, R = rd.I, rd.R
    srt = [n for n in R.nodes if n.kind == 'sort' and n.data[0] == rd.H and rd.at(n.data[1], 'channels') is not None]
    ck.floor(len(srt), 1, 'sort', 'sorting of the events of a channel')
    if not srt: return
    keys = {}
    for n in srt:
        m = n.data[2]
        ck.req(m in ('sort_by_key', 'sort_by_cached_key', 'sort_by'), 'sort', 'stable', n, 'the events of a channel are put in order by %s, which may exchange simultaneous events' % m)
        f = n.data[4]
        if f.op == 'adt' and f.args[0].startswith('closure:'): keys[(m, f.args[0][8:])] = n
        elif f.op == 'fn':
            import json
            d = json.loads(f.args[0])
            k = d.get('key') or d.get('path')
            keys[(m, k)] = n
        else: ck.bad('sort', 'key', n, 'cannot tell by what events are ordered')
        i = rd.at(n.data[1], 'channels')
        ls = rd.loops_of(n)
        ok = len(ls) == 1 and i.op == 'kap' and i.args[1] == ls[0]
        if not ck.req(ok, 'sort', 'channels', n, 'the events of channel %s are sorted, not those of every channel' % show(i)[:60]): continue
        sid = {h.id for h in rd.LH[ls[0]]}
        for h in rd.LH[ls[0]]:
            for tr, b, hn in h.backs or ():
                for q in back_paths(tr, sid, lambda x: x in srt): ck.req(len(q) == 2, 'sort', 'once', tr, 'the events of a channel are sorted %d times' % (len(q) - 1))
        for x in R.nodes:
            if x.kind == 'exit' and x.data[0] == ls[0]: ck.req(I.entails(x.facts, le(Int(16), i)), 'sort', 'all channels', x, 'the events of some channels are not sorted')
        rd.sortloop = ls[0]
    for (m, k), n in keys.items():
        if k not in ck.prog.fns:
            ck.bad('sort', 'key', n, 'cannot tell by what events are ordered')
            continue
        I2, R2 = ck.analyse(k, branches=True)
        nm = 2 if m == 'sort_by' else 1
        els = [D(I2, a) for a in R2.args[-nm:]]
        ms = [field(e, None, 0, '', MSG) for e in els]
        ts = [field(e, None, 1, '', 'u32') for e in els]
        if nm == 1:
            ranks = {}
            for s, v in R2.rets:
                ok = v.op == 'adt' and len(v.args[3]) >= 2 and v.args[3][0] is ts[0]
                if not ck.req(ok, 'sort', 'time first', s.trace, 'the events of a channel are ordered by %s, not by time first' % show(v)[:100]): continue
                r = v.args[3][1]
                ok = r.op == 'int' or r is ts[0]
                if not ck.req(r.op == 'int', 'sort', 'rank', s.trace, 'cannot tell the rank of simultaneous events from %s' % show(r)[:100]): continue
                for c, F in rank_classes(ck, ms[0]):
                    if not impossible(I2, s.facts | F): ranks.setdefault(c, set()).add(r.args[0])
            rank_order(ck, 'sort', ranks, n)
        else:
            for s, v in R2.rets:
                if not ck.req(v.op == 'adt' and v.args[0] == 'core::cmp::Ordering', 'sort', 'comparison', s.trace, 'cannot tell how events are ordered'): continue
                for S, c, c2 in compared(ck, I2, R2, s, ms):
                    if True:
                        o = ('release', 'control', 'press')
                        rk = o.index(c) - o.index(c2)
                        G = S
                        if impossible(I2, G): continue
                        tl, te, tg = lt(ts[0], ts[1]), int_eq(ts[0], ts[1]), lt(ts[1], ts[0])
                        want = tg if rk < 0 else None
                        if v.args[1] == 0: ok = I2.entails(G, tl) or rk < 0 and I2.entails(G, le(ts[0], ts[1]))
                        elif v.args[1] == 2: ok = I2.entails(G, tg) or rk > 0 and I2.entails(G, le(ts[1], ts[0]))
                        else: ok = I2.entails(G, te) and rk == 0
                        ck.req(ok, 'sort', 'comparison', s.trace, 'a %s and a %s may be put in the wrong order' % (c, c2))


def compared(ck, I, R, s, ms):
    """the ways a comparison can come to its result: (facts, kind of the one event, kind of the other)"""
    start = {x.id for x in R.nodes if x.kind == 'start'}
    seen = set()
    for q in back_paths(s.trace, start, lambda n: n.kind == 'br'):
        S = events_facts(q, s.facts)
        if S in seen or clash(S): continue
        seen.add(S)
        one = [(c, F) for c, F in rank_classes(ck, ms[0]) if not clash(S | F)]
        two = [(c, F) for c, F in rank_classes(ck, ms[1]) if not clash(S | F)]
        for c, F in one:
            for c2, F2 in two:
                G = S | F | F2
                if not clash(G): yield G, c, c2


def p19_untouched(ck, rd):
    """nothing but the distribution and the sort changes what channels hold"""
    for k in sorted(rd.fbv):
        I, R = ck.analyse(k, opaque=lambda x: x in rd.fbv)
        for n in R.nodes:
            if n.kind in ('push', 'store', 'ext', 'vpop', 'vremove', 'vinsert', 'vtrunc', 'sort', 'splice') and n.data[0][0] == 'H' and n.data[1]:
                p = n.data[1]
                ok = not (p[0][0] == 'f' and p[0][4] == HANDLER if len(p[0]) > 4 else False) or len(p) == 3 and p[2][0] == 'f' and p[2][2] == rd.base and p[0][2] == rd.f['channels']
                ck.req(ok, 'untouched', k, n, 'the search for base voices changes more than base voices')
    I, R = rd.I, rd.R
    ok = {n.id for n in R.nodes if n.kind in ('push', 'sort')}
    for n in R.nodes:
        if rd.touched(n, 'channels') and n.id not in ok: ck.bad('untouched', 'channels', n, 'the events of a channel are changed outside distribution and sorting')
        if rd.touched(n, 'voices') and n.kind != 'push': ck.bad('untouched', 'voices', n, 'events of a voice are changed after they were added')


class Merge(object):
    """the loop that hands the channels' events to the voices"""

    def __init__(self, ck, rd):
        I, R = rd.I, rd.R
        self.ck, self.rd, self.I, self.R = ck, rd, I, R
        self.vp = [n for n in R.nodes if n.kind == 'push' and n.data[0] == rd.H and rd.at(n.data[1], 'voices') is not None]
        ck.floor(len(self.vp), 1, 'merge', 'places where a voice gets an event')
        ls = {rd.loops_of(n)[-1] if rd.loops_of(n) else None for n in self.vp}
        if len(ls) != 1 or None in ls: raise Missing('the loop that hands events to the voices')
        self.lid = next(iter(ls))
        self.heads = rd.LH[self.lid]
        self.stop = {h.id for h in self.heads}
        self.vpid = {n.id for n in self.vp}
        # the next event: channels[c].messages[pos[c]]
        cand = {}
        for n in self.vp:
            for t in subterms(n.data[2]):
                if t.op == 'idx' and (t.args[0].ty == MESSAGES or t.args[0].op == 'fld' and MESSAGES in t.args[0].args): cand[t] = cand.get(t, 0) + 1
        if not cand: raise Missing('the event handed to a voice')
        self.el = max(cand, key=lambda t: cand[t])
        self.msg = field(self.el, None, 0, '', MSG)
        self.time = field(self.el, None, 1, '', 'u32')
        m = self.el.args[0]
        c = [t for t in subterms(m) if t.op == 'idx' and t.args[0].op == 'fld' and t.args[0].args[2] == rd.f['channels']]
        if not (m.op == 'fld' and len(c) == 1): raise Missing('the channel whose event is handled')
        self.chan = c[0].args[1]
        self.channels = c[0].args[0]
        self.pos = self.el.args[1]
        self.mi = ck.variant(MSG, 'MidiEvent')
        self.ev = rd.mf(self.msg, self.mi, 'event')

    def element(self, i, pos=None):
        """the next event of channel i"""
        p = self.pos
        if p.op == 'idx' and p.args[1] is self.chan: q = mk('idx', p.args[0], i, ty=p.ty)
        else: q = subst(p, {self.chan: i})
        m = subst(self.el.args[0], {self.chan: i})
        return self.I.index(None, m, q), m, q


def p19_merge(ck, rd):
    I, R = rd.I, rd.R
    mg = Merge(ck, rd)
    for n in mg.vp:
        v = n.data[2]
        t = field(v, None, 1, '', 'u32')
        ck.req(t is mg.time, 'merge', 'time', n, 'an event is given to a voice with time %s, not its own' % show(t)[:100])
    # the position in the selected channel moves by one
    pos = mg.pos
    if not ck.req(pos.op == 'idx' and pos.args[1] is mg.chan and pos.args[0].op == 'phi' and pos.args[0].args[1] == mg.lid, 'merge', 'position', mg.heads[0], 'cannot tell which event of a channel is next'): return
    parr = pos.args[0]
    proot = {r for h in mg.heads for r, v in h.store.items() if v is parr}
    st = [n for n in R.nodes if n.kind == 'store' and n.data[0] in proot and n.id in rd.body(mg.lid)]
    for n in st:
        p, v = n.data[1], n.data[2]
        ok = len(p) == 1 and p[0][0] == 'i' and p[0][1] is mg.chan and v is addc(pos, 1)
        ck.req(ok, 'merge', 'next', n, 'the position in a channel is set to %s' % show(v)[:100])
    for h in mg.heads:
        for e in h.ents or ():
            v = headmap(h, e).get(parr)
            ck.req(v is not None and all_zero(I, R, v, e), 'merge', 'first', h, 'the first events of a channel may be left out')
        for tr, b, hn in h.backs or ():
            for q in back_paths(tr, mg.stop, lambda n: n in st): ck.req(len(q) == 2, 'merge', 'step', tr, 'the position in a channel moves %d times for one event' % (len(q) - 1))
    selection(ck, rd, mg, parr)
    merge_end(ck, rd, mg, parr)


def loop_values(hv, v, t):
    """the values that stand in v where t stands in hv"""
    if hv is t: return {v}
    if hv.op == 'adt' and v.op == 'adt' and hv.args[1] == v.args[1] and len(hv.args[3]) == len(v.args[3]):
        r = set()
        for a, b in zip(hv.args[3], v.args[3]): r |= loop_values(a, b, t)
        return r
    return set()


def carried(h, st, t):
    """what loop variable t of head h is in state st"""
    r = set()
    for root, hv in h.store.items():
        v = st.store.get(root)
        if v is not None: r |= loop_values(hv, v, t)
    return r


def joined(I, v, facts):
    """the values v can have, with what is known then"""
    def is_join(x): return x.op == 'phi' and any(isinstance(a, tuple) and a[0] == 'j' for a in x.args) and x in I.phi_in
    if not is_join(v): return [(v, facts)]
    out, seen, st = [], set(), [v]
    while st:
        for x, f, l in I.phi_in[st.pop()]:
            if not is_join(x): out.append((x, f or frozenset()))
            elif x not in seen:
                seen.add(x)
                st.append(x)
    return out


def tallies(rd, v, F, el):
    """is v the sum over all channels i of el(i), a list of (condition, value)?"""
    I = rd.I
    if v.op not in ('phi', 'kap') or v.args[1] not in rd.LH: return False
    lid = v.args[1]
    hs = rd.LH[lid]
    inner = [l for l in rd.LH if l != lid and any(h.id in rd.body(lid) for h in rd.LH[l])]

    def weigh(idx, G, old, new):
        """element idx adds what it should"""
        return all(impossible(I, G | {c}) or I.entails(G | {c}, int_eq(new, add(old, w))) for c, w in el(idx))
    for f in F:
        if f.op != 'ge0': continue
        c, m = lin_parts(f.args[0])
        if c != -16 or any(k != 1 or t.op not in ('kap', 'phi') or t.args[1] != lid and t.args[1] not in inner for t, k in m.items()): continue
        Q = addc(f.args[0], 16)
        P = [t for t in m if t.args[1] == lid and t is not v]
        K = [t for t in m if t.args[1] in inner]
        if len(P) + len(K) != len(m) or len(P) != 1 or len(K) > 1: continue
        P = P[0]
        ok = True
        for h in hs:
            for e in h.ents or ():
                ok = ok and all(I.entails(e.facts, eq0(x)) for x in carried(h, e, v) or {Int(1)})
                if P.op == 'phi': ok = ok and all(I.entails(e.facts, eq0(x)) for x in carried(h, e, P) or {Int(1)})
            for tr, b, hn in h.backs or ():
                if P.op == 'phi': ok = ok and carried(h, b, P) == {addc(Q, 1)}
                for x in carried(h, b, v) or {None}:
                    ok = ok and x is not None and all(weigh(Q, G, v, y) for y, G in joined(I, x, b.facts))
        for k in K:
            # elements skipped by a loop inside
            ok = ok and k.op == 'kap'
            for h in rd.LH[k.args[1]]:
                for tr, b, hn in h.backs or ():
                    ok = ok and weigh(Q, b.facts, v, v) and all(b.store.get(r) in (x, None) for r, x in h.store.items() if x is v)
        if ok: return True
    return False


def merge_end(ck, rd, mg, parr):
    """the merge ends only when no channel has an event left"""
    I, R = rd.I, rd.R
    last = int_eq(addc(mg.pos, 1), I.length(mg.el.args[0]))

    def at_start(i):
        return I.length(subst(mg.el.args[0], {mg.chan: i}))

    def now_done(i):
        el, msgs, pos = mg.element(i)
        return le(I.length(msgs), pos)
    # the exits of the merge after which the conversion succeeds
    good = set()
    for s, v in R.rets:
        if is_err(v): continue
        st, seen = [s.trace], set()
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.kind == 'exit' and x.data[0] == mg.lid:
                good.add(x)
                continue
            st.extend(ins(x))
    counters = {}
    for n in good:
        ok = False
        # a number that tells how far the merge has come
        lins = [lin_parts(f.args[0]) for f in n.facts if f.op in ('ge0', 'eq0')]
        ds = {t for c, m in lins for t in m if t.op in ('phi', 'kap') and t.args[1] == mg.lid}
        # as many events handled as there were
        for c, m in lins:
            k = [t for t in m if t.op == 'kap' and t.args[1] == mg.lid]
            if len(k) == 1 and len(m) == 2 and c == 0:
                x = next(t for t in m if t is not k[0])
                ok = ok or I.entails(n.facts, le(x, k[0])) and tallies(rd, x, n.facts, lambda i: [(TRUE, at_start(i))])
        for d in ds:
            if d not in counters: counters[d] = progress(rd, mg, d, last, at_start)
            c = counters[d]
            if c is None: continue
            kind, total = c
            if kind == 'up': ok = ok or I.entails(n.facts, le(total, d))
            else: ok = ok or I.entails(n.facts, le(d, Int(0)))
        # or a search through all channels that finds none with events left
        if not ok:
            for lid in rd.LH:
                for k in {t for f in n.facts for t in subterms(f) if t.op == 'kap' and t.args[1] == lid}:
                    if lid != mg.lid and I.entails(n.facts, le(Int(16), k)):
                        bs = [b for h in rd.LH[lid] for tr, b, hn in h.backs or ()]
                        if bs and all(I.entails(b.facts, now_done(k)) for b in bs): ok = True
        # or the chosen channel, the one with the earliest event, has none
        if not ok: ok = I.entails(n.facts, now_done(mg.chan))
        ck.req(ok, 'merge', 'end', n, 'the merge may end although a channel has events left')
    ck.floor(len(good), 1, 'merge', 'ends of the merge')


def progress(rd, mg, d, last, at_start):
    """('up', its value at the end) or ('down', None) when d counts the channels without events, those with some, or the events handled or left"""
    I = rd.I
    ents = [(e, x) for h in mg.heads for e in h.ents or () for x in carried(h, e, d) or {None}]
    steps = [(y, G) for h in mg.heads for tr, b, hn in h.backs or () for x in carried(h, b, d) or {None} for y, G in (joined(I, x, b.facts) if x is not None else [(None, b.facts)])]
    if any(x is None for e, x in ents) or any(y is None for y, G in steps): return None
    by = {1: [], -1: [], 0: []}
    for y, G in steps:
        k = next((k for k in by if y is addc(d, k)), None)
        if k is None and any(y is addc(x, j) for e, x in ents for j in by): continue      # the way in, seen before the loop was known to be one
        if k is None: return None
        by[k].append(G)

    def empty(i): return [(eq0(at_start(i)), Int(1)), (Not(eq0(at_start(i))), Int(0))]

    def some(i): return [(eq0(at_start(i)), Int(0)), (Not(eq0(at_start(i))), Int(1))]

    def events(i): return [(TRUE, at_start(i))]
    if not by[-1]:
        if not by[0] and all(I.entails(e.facts, eq0(x)) for e, x in ents): return None
        if all(I.entails(G, last) for G in by[1]) and all(I.entails(G, Not(last)) for G in by[0]) and all(tallies(rd, x, e.facts, empty) for e, x in ents): return ('up', Int(16))
        return None
    if by[1]: return None
    if not by[0] and all(tallies(rd, x, e.facts, events) for e, x in ents): return ('down', None)
    if all(I.entails(G, last) for G in by[-1]) and all(I.entails(G, Not(last)) for G in by[0]):
        ok = True
        for e, x in ents:
            c, m = lin_parts(x)
            if tallies(rd, x, e.facts, some): continue
            if c == 16 and list(m.values()) == [-1] and tallies(rd, next(iter(m)), e.facts, empty): continue
            ok = False
        if ok: return ('down', None)
    return None


def all_zero(I, R, v, e):
    if v.op == 'vec': return all(I.entails(e.facts, eq0(x)) for x in v.args[0])
    if v.op == 'rep': return I.entails(e.facts, eq0(v.args[0]))
    if v.op == 'phi':
        # built by pushing zeros
        lid = v.args[1]
        ns = [n for n in R.nodes if n.kind == 'push' and any(r == n.data[0] and x is v for h in R.nodes if h.kind == 'loop' and h.data[0] == lid for r, x in h.store.items())]
        hs = [h for h in R.nodes if h.kind == 'loop' and h.data[0] == lid]
        ent = [headmap(h, x).get(v) for h in hs for x in h.ents or ()]
        bid = {y.id for h in hs for y in body(h)}
        ns = [n for n in ns if n.id in bid]
        return bool(ns) and all(I.entails(n.facts, eq0(n.data[2])) for n in ns) and all(x is not None and (x.op == 'vec' and not x.args[0]) for x in ent)
    return False


def selection(ck, rd, mg, parr):
    """the selected channel has the smallest (time, rank) among those with events left"""
    I, R = rd.I, rd.R
    c = mg.chan
    phis = {t for t in subterms(c) if t.op == 'phi' and t.args[1] in rd.LH and t.args[1] != mg.lid}
    if not ck.req(c.op == 'phi' and len(phis) == 1, 'selection', 'loop', mg.heads[0], 'cannot tell how the next channel is chosen'): return
    lid = c.args[1]
    hs = rd.LH[lid]
    k = None
    for h in hs:
        for tr, b, hn in h.backs or ():
            for f in b.facts:
                for t in subterms(f):
                    if t.op == 'kap' and t.args[1] == lid: k = t
    if not ck.req(k is not None, 'selection', 'counter', hs[0], 'cannot tell how channels are gone through'): return
    # which channel an iteration looks at
    news = [(tr, b, h, headmap(h, b)) for h in hs for tr, b, hn in h.backs or ()]
    idx = {m[c] for tr, b, h, m in news if m.get(c) is not None and m[c] is not c}
    if not ck.req(len(idx) == 1 and lin_parts(next(iter(idx)))[1] == {k: 1}, 'selection', 'candidate', hs[0], 'cannot tell which channel is compared'): return
    i = next(iter(idx))
    off = lin_parts(i)[0]
    el, msgs, pos = mg.element(i)
    t = field(el, None, 1, '', 'u32')
    msg = field(el, None, 0, '', MSG)
    done = le(I.length(msgs), pos)
    # what is remembered of the best channel so far
    tp = {p for tr, b, h, m in news for p, v in m.items() if m.get(c) is i and v is t}
    rp = None
    best_t = next(iter(tp)) if len(tp) == 1 else None
    ranks = {}
    seen = 0
    cands = {p for tr, b, h, m in news for p, v in m.items() if m.get(c) is i and v.op == 'int' and p is not best_t and p.op == 'phi'}
    if best_t is not None and len(cands) > 1:
        cands = {p for p in cands if len({m[p] for tr, b, h, m in news if m.get(c) is i and p in m}) > 1}
    if not ck.req(best_t is not None and len(cands) == 1, 'selection', 'key', hs[0], 'the channels are not compared by time and rank of their next event'): return
    best_r = next(iter(cands))

    def key_ok(F, m, w):
        """the remembered key is that of channel i"""
        tv, rv = m.get(best_t), m.get(best_r)
        if tv is None or rv is None: return False
        if tv is t and rv.op == 'int':
            for cl, G in rank_classes(ck, msg):
                if not impossible(I, F | G): ranks.setdefault(cl, set()).add(rv.args[0])
            return not I.entails(F, done)
        return I.entails(F, done) and tv.op == 'int' and tv.args[0] >= 0xffffffff and rv.op == 'int' and ranks.setdefault('done', set()).add(rv.args[0]) is None
    for tr, b, h, m in sorted(news, key=lambda x: x[3].get(c) is not i):
        for q in back_paths(tr, {x.id for x in hs}, lambda n: n.kind == 'br'):
            F = events_facts(q, b.facts)
            if contradictory(I, F): continue
            seen += 1
            if m.get(c) is i:
                ck.req(key_ok(F, m, tr), 'selection', 'remembered', tr, 'the key remembered for a channel is (%s, %s)' % (show(m.get(best_t))[:80], show(m.get(best_r))[:40]))
                tv, rv = m[best_t], m[best_r]
                # better than the best so far
                ok = I.entails(F, Or(lt(tv, best_t), And(int_eq(tv, best_t), lt(rv, best_r)))) or I.entails(F, Or(lt(tv, best_t), And(le(tv, best_t), lt(rv, best_r))))
                ck.req(ok or I.entails(F, done), 'selection', 'smaller', tr, 'a channel may be chosen although its next event is not earlier')
            else:
                ck.req(m.get(c) is None or m.get(c) is c, 'selection', 'kept', tr, 'the channel chosen changes to %s' % show(m.get(c))[:80])
                ck.req((m.get(best_t) in (None, best_t)) and (m.get(best_r) in (None, best_r)), 'selection', 'key kept', tr, 'the key of the chosen channel is replaced by that of another')
                ok = I.entails(F, done)
                if not ok:
                    lows = []
                    good = True
                    for cl, G in rank_classes(ck, msg):
                        if impossible(I, F | G): continue
                        good = good and (I.entails(F | G, lt(best_t, t)) or any(I.entails(F | G, Or(lt(best_t, t), And(le(best_t, t), le(best_r, Int(r))))) for r in rank_guess(cl, ranks)))
                        lows.append(cl)
                    ok = good
                ck.req(ok, 'selection', 'passed over', tr, 'a channel may be passed over although its next event is earlier')
    # initial choice
    for h in hs:
        for e in h.ents or ():
            m = headmap(h, e)
            v = m.get(c, c)
            e0, m0, p0 = mg.element(Int(0))
            tv, rv = m.get(best_t), m.get(best_r)
            F = e.facts
            ok = v.op == 'int' and v.args[0] == 0 and tv is not None and rv is not None and (
                tv is field(e0, None, 1, '', 'u32') or I.entails(F, le(I.length(m0), p0))) and off == 1
            if not ok and off == 0 and tv is not None and rv is not None and tv.op == 'int' and tv.args[0] >= 0xffffffff and rv.op == 'int':
                # later than any event: replaced by the first channel with events left
                ranks.setdefault('done', set()).add(rv.args[0])
                ok = True
            ck.req(ok, 'selection', 'first', h, 'the choice of the next channel starts with %s' % show(v)[:60])
            if tv is field(e0, None, 1, '', 'u32') and rv.op == 'int':
                for q in back_paths(e.trace, {x.id for x in mg.heads}, lambda n: n.kind == 'br'):
                    G0 = events_facts(q, e.facts)
                    if contradictory(I, G0): continue
                    for cl, G in rank_classes(ck, field(e0, None, 0, '', MSG)):
                        if not impossible(I, G0 | G): ranks.setdefault(cl, set()).add(rv.args[0])
    rank_order(ck, 'selection', ranks, hs[0])
    if ranks.get('done'): ck.req(min(ranks['done']) > max(max(ranks.get(x, {0})) for x in ('release', 'control', 'press')), 'selection', 'exhausted', hs[0], 'a channel without events may be chosen')
    for n in R.nodes:
        if n.kind == 'exit' and n.data[0] == lid:
            ck.req(I.entails(n.facts, le(Int(16), addc(k, off))), 'selection', 'all channels', n, 'not every channel is considered for the next event')
    ck.floor(seen, 2, 'selection', 'comparisons')


def rank_guess(cl, ranks):
    r = ranks.get(cl)
    return sorted(r) if r else []


# --------------------------------------------------------------------- P20-P23
OPTION = 'core::option::Option'


class Step(object):
    """one way of handling an event: the events of interest q (from a head of the merge loop), under the facts F"""
    __slots__ = ('q', 'F', 'tr', 'err', 'push', 'rem', 'ins', 'st', 'loops', 'wild', 'bad')


class Delivery(Merge):
    """how the merge hands each kind of event to voices"""

    def __init__(self, ck, rd):
        Merge.__init__(self, ck, rd)
        I, R = self.I, self.R
        self.K = kinds(ck)
        inside = rd.body(self.lid)
        self.inside = inside
        # the notes that are sounding: an array with one map per channel
        roots = {n.data[0] for n in R.nodes if n.kind in ('hins', 'hrem') and n.id in inside}
        if len(roots) != 1: raise Missing('the notes sounding per channel')
        self.aroot = next(iter(roots))
        phi = {h.store.get(self.aroot) for h in self.heads}
        if len(phi) != 1 or next(iter(phi)) is None or next(iter(phi)).op != 'phi': raise Missing('the notes sounding per channel')
        self.A = next(iter(phi))
        self.phis = {v for h in self.heads for r, v in h.store.items() if v.op == 'phi' and v.args[1] == self.lid}
        ppos = self.pos.args[0] if self.pos.op == 'idx' else None
        self.phis.discard(ppos)
        # events before the choice of the next event
        pre = set()
        c = self.chan
        if c.op == 'phi' and c.args[1] in rd.LH:
            st = list(rd.LH[c.args[1]])
            while st:
                x = st.pop()
                if x.id in pre or x.id in self.stop: continue
                pre.add(x.id)
                st.extend(ins(x))
        self.pre = pre
        self.inlids = {n.data[0] for n in R.nodes if n.kind == 'loop' and n.id in inside and n.id not in pre}
        self.relm = {}
        self.steps()
        self.vterms = {}
        self.ft = {n: t for n, t in ck.adt(MSG)['variants'][self.mi]['fields']}

    def rel(self, f):
        k = self.relm.get(f)
        if k is None:
            s = subterms(f)
            k = self.relm[f] = self.el in s or self.msg in s or any(p in s for p in self.phis) or any(t.op in ('kap', 'phi') and t.args[1] in self.inlids for t in s)
            # what the choice of the event knows is of no interest here
            if k and f.op in ('ge0', 'eq0', 'or', 'and', 'not') and self.time in s and not any(t.op == 'var' for t in s): k = self.relm[f] = False
        return k

    def steps(self):
        I, R, rd = self.I, self.R, self.rd
        base = frozenset.intersection(*[h.facts for h in self.heads])
        relset = {}

        def news(n):
            """does branch n tell something of interest?"""
            r = relset.get(n.id)
            if r is None: r = relset[n.id] = any(self.rel(f) for f in n.facts - base)
            return r

        def sym(n):
            if n.kind == 'loop' and n.id in sel: return True
            if n.kind in ('hins', 'hrem', 'hclear', 'hiter', 'loop'): return n.id not in self.pre
            if n.kind == 'exit': return n.data[0] == self.lid
            if n.id in self.vpid: return True
            if n.kind in ('store', 'push', 'ext', 'vpop', 'vremove', 'vtrunc', 'vinsert', 'sort'): return n.data[0][0] != 'B'
            return n.kind == 'br' and n.id not in self.pre and news(n)
        sel = {h.id for h in rd.LH.get(self.chan.args[1], ())} if self.chan.op == 'phi' else set()
        self.list = []
        seen = {}
        start = {x.id for x in R.nodes if x.kind == 'start'}
        ends = [(tr, b.facts, b, None) for h in self.heads for tr, b, hn in h.backs or ()] + [(s.trace, s.facts, s, v) for s, v in R.rets]
        self.raw = 0
        memo = {}
        for tr, facts, b, v in ends:
            for q in back_paths(tr, self.stop | start, sym, memo, cap=20000):
                if q[0].id not in self.stop or not any(x.id in sel for x in q): continue
                if v is not None and I.entails(facts, le(I.length(self.el.args[0]), self.pos)): continue
                q = [x for x in q if x.id not in sel]
                self.raw += 1
                F = frozenset(f for f in events_facts(q, facts) if self.rel(f))
                k = (tuple(x.id for x in q if x.kind != 'br'), v, F)
                if k in seen: continue
                seen[k] = True
                if clash(F): continue
                s = Step()
                s.q = [x for x in q if x.kind != 'br']
                s.F, s.tr, s.err = F, tr, v
                s.push = [x for x in s.q if x.id in self.vpid]
                s.rem = [x for x in s.q if x.kind == 'hrem' and x.data[0] == self.aroot]
                s.ins = [x for x in s.q if x.kind == 'hins' and x.data[0] == self.aroot]
                s.wild = [x for x in s.q if x.data and x.data[0] == self.aroot and x.kind not in ('hins', 'hrem', 'loop')]
                s.st = [x for x in s.q if x.kind == 'store']
                s.loops = [x for x in s.q[1:] if x.kind == 'loop']
                s.bad = None
                self.list.append(s)

    def impossible(self, s, extra=()):
        if extra: return clash(s.F | frozenset(extra)) or impossible(self.I, s.F | frozenset(extra), 2)
        if s.bad is None: s.bad = impossible(self.I, s.F, 2)
        return s.bad

    def req(self, s, cond, rule, inst, where, msg, extra=()):
        """an obligation of one step; steps that cannot happen have none"""
        if not cond and self.impossible(s, extra): return True
        return self.ck.req(cond, rule, inst, where, msg)

    def kinds_of(self, s):
        """the kinds of event step s may be about: variants of MidiEvent, or None for other messages"""
        r = []
        if not self.I.entails(s.F, mk('var', self.msg, self.mi)): r.append(None)
        if not self.I.entails(s.F, Not(mk('var', self.msg, self.mi))):
            r += [k for n, k in self.K.items() if not self.I.entails(s.F, Not(mk('var', self.ev, k)))]
        return r

    def chan_of(self, k): return self.rd.evf(self.ev, k, 'ch')

    def sounding(self, k):
        """channel, note, map of channel and 'is the note sounding' for note event kind k"""
        ch, note = self.chan_of(k), self.rd.evf(self.ev, k, 'note')
        m = self.I.index(None, self.A, ch)
        return ch, note, m, mk('hhas', m, note)

    def voice(self, x): return self.rd.at(x.data[1], 'voices')

    def decode(self, x, F):
        """kind and fields of the message push event x hands over"""
        v = x.data[2]
        m = v.args[3][0] if v.op == 'adt' and len(v.args[3]) == 2 else field(v, None, 0, '', MSG)
        if m is self.msg or v is self.el: return ('same', None)
        if m.op == 'adt' and m.args[0] == MSG and m.args[1] == self.mi:
            i = list(self.ft).index('event')
            e = m.args[3][i]
            if e.op == 'adt' and e.args[0] == MIDI:
                return (e.args[1], dict(zip([n for n, t in self.ck.adt(MIDI)['variants'][e.args[1]]['fields']], e.args[3])))
        return ('other', m)

    def base_voice(self, c):
        f = self.ck.adt('midi::MidiChannel')['variants'][0]['fields']
        return field(self.I.index(None, self.channels, c), None, self.rd.base, f[self.rd.base][0], 'usize')

    # scans over the sounding notes -----------------------------------------
    def value_terms(self, lid):
        """terms hvals(X[κ])[κ'] with κ' the counter of loop lid, in the facts of its iterations"""
        if lid in self.vterms: return self.vterms[lid]
        r = self.vterms[lid] = set()
        for h in self.rd.LH[lid]:
            for tr, b, hn in h.backs or ():
                for f in list(b.facts) + list(headmap(h, b).values()):
                    for t in subterms(f):
                        if t.op == 'idx' and t.args[0].op == 'app' and t.args[0].args[0] == 'hvals' and t.args[1].op == 'kap' and t.args[1].args[1] == lid: r.add(t)
        return r


    def array_now(self, X):
        """is X the array of sounding notes, possibly after releasing this event's note (or before)?"""
        while X.op == 'upd':
            v = X.args[2]
            if not (v.op == 'hrem' and v.args[0].op == 'idx' and v.args[0].args[0] is X.args[0] and v.args[0].args[1] is X.args[1]): return False
            X = X.args[0]
        return X is self.A

    def low(self, s, h):
        """loop flags of head h that step s knows to be unset"""
        return {v for r, v in h.store.items() if v.op == 'phi' and v.args[1] == h.data[0] and self.I.entails(s.F, Not(v))}

    def calm(self, h, b, flags):
        """what holds at the end of iteration b given that the flags stay unset; None if b sets one"""
        F = set(b.facts)
        m = headmap(h, b)
        for f in flags:
            v = m.get(f, f)
            if v is TRUE: return None
            if v is not f: F |= conj(Not(v))
        return frozenset(F)

    def inner_flags(self, h, b, flags):
        m = headmap(h, b)
        return {m[f] for f in flags if f in m and m[f].op == 'phi' and m[f] is not f}

    def monotone(self, h, flags):
        """flags that, once set, stay set in the loop with head h"""
        out = set()
        for f in flags:
            ok = True
            for g in heads_into(h):
                for tr, b, hn in g.backs or ():
                    v = headmap(g, b).get(f, f)
                    if v is f or v is TRUE: continue
                    if v.op == 'phi' and v.args[1] in self.inlids and all(
                            all(headmap(x, e).get(v) is f for e in entries(x)) and v in self.monotone(x, {v}) for x in self.R.nodes if x.kind == 'loop' and x.data[0] == v.args[1] and v in x.store.values()): continue
                    if self.I.entails(b.facts | {f}, v): continue
                    ok = False
            if ok: out.add(f)
        return out

    def none_sounds(self, s, v, before):
        """does step s make sure, before event `before`, that no note is sounding on voice v?"""
        for ho in s.loops:
            if before is not None and s.q.index(ho) > s.q.index(before): continue
            if self.scan_outer(s, ho, v): return True
        return False

    def scan_outer(self, s, ho, v):
        I = self.I
        lo = ho.data[0]
        flags = self.monotone(ho, self.low(s, ho))
        grp = heads_into(ho)
        ids = {g.id for g in grp}
        X = None
        for g in grp:
            for tr, b, hn in g.backs or ():
                if hn.id not in ids: continue
                F = self.calm(g, b, flags)
                if F is None: continue
                ok = False
                for q in back_paths(tr, ids, lambda n: n.kind == 'loop'):
                    if q[0].id not in ids: continue
                    ok = False
                    for hi in q[1:]:
                        x = self.scan_inner(hi, lo, v, F, self.inner_flags(g, b, flags))
                        if x is not None:
                            ok = True
                            X = x
                    if not ok: break
                if not ok: return False
        if X is None: return False
        k = [t for f in s.F for t in subterms(f) if t.op == 'kap' and t.args[1] == lo]
        return any(I.entails(s.F, le(I.length(X), t)) for t in set(k))

    def scan_inner(self, hi, lo, v, F, flags):
        """does the loop hi go through all values of X[κ of loop lo] without meeting v? gives X"""
        I = self.I
        ts = {t for t in self.value_terms(hi.data[0]) if t.args[0].args[1].op == 'idx' and t.args[0].args[1].args[1].op == 'kap' and t.args[0].args[1].args[1].args[1] == lo and
              self.array_now(t.args[0].args[1].args[0])}
        for t in ts:
            if self.all_values(hi, t, v, F, flags): return t.args[0].args[1].args[0]
        return None

    def all_values(self, hi, t, v, F, flags=()):
        """is every value t (indexed by the counter of the loop with head hi) known to differ from v when the loop ends under F?"""
        I = self.I
        if not I.entails(F, le(mk('app', 'seqlen', t.args[0], ty='usize'), t.args[1])): return False
        if self.flag_low(hi, int_eq(t, v), F): return True
        grp = heads_into(hi)
        ids = {g.id for g in grp}
        for g in grp:
            for tr, b, hn in g.backs or ():
                if hn.id not in ids: continue
                G = self.calm(g, b, flags)
                if G is None: continue
                if not I.entails(G, Not(int_eq(t, v))): return False
        return True

    def bools(self, h):
        return [r for r, f in h.store.items() if f in (TRUE, FALSE) or f.op == 'phi' and f.args[1] == h.data[0] and f.ty in ('bool', None)]

    def flag_low(self, h, eq, F):
        """is a flag of the loop, unset as the loop ends at head h under F, set in every iteration in which eq holds, and then stays set?"""
        I = self.I
        grp = heads_into(h)
        for r in self.bools(h):
            f = h.store[r]
            if f is TRUE or not (f is FALSE or I.entails(F, Not(f))): continue
            ok = True
            for g in grp:
                for tr, b, hn in g.backs or ():
                    x, old = b.store.get(r), hn.store.get(r)
                    if x is None or old is None: ok = False
                    elif x is not TRUE:
                        G = frozenset(b.facts | conj(Not(x)))
                        if clash(G): continue
                        if not I.entails(G, Not(eq)) or not (old is FALSE or I.entails(G, Not(old))): ok = False
                    if not ok: break
                if not ok: break
            if ok: return True
        return False

    def flag_high(self, h, eq, F):
        """is a flag of the loop set as the loop ends at head h under F, and only ever set in an iteration in which eq holds?"""
        I = self.I
        grp = heads_into(h)
        for r in self.bools(h):
            f = h.store[r]
            if f is FALSE or not (f is TRUE or I.entails(F, f)): continue
            ok = all(e.store.get(r) is FALSE for g in grp for e in g.ents or ())
            for g in grp:
                if not ok: break
                for tr, b, hn in g.backs or ():
                    x, old = b.store.get(r), hn.store.get(r)
                    if x is None or old is None: ok = False
                    elif x is not FALSE:
                        for y in x.args if x.op == 'or' else (x,):
                            G = frozenset(b.facts | conj(y))
                            if clash(G) or I.entails(G, eq) or old is TRUE or old is not FALSE and I.entails(G, old): continue
                            ok = False
                    if not ok: break
            if ok: return True
        return False

    def all_taken(self, s):
        """did step s look at every voice in vain?"""
        I = self.I
        nv = Int(len(self.rd_voices()))
        for h in s.loops:
            lid = h.data[0]
            for k in {t for f in s.F if f.op in ('ge0', 'eq0') for t in lin_parts(f.args[0])[1] if t.op == 'kap' and t.args[1] == lid}:
                if not I.entails(s.F, le(nv, k)): continue
                ids = {g.id for g in self.R.nodes if g.kind == 'loop' and g.data[0] == lid}
                ok = True
                for g in heads_into(h):
                    for tr, b, hn in g.backs or ():
                        # something told that voice k is taken
                        for q in back_paths(tr, ids, lambda n: n.kind == 'br'):
                            F = events_facts(q, b.facts)
                            if contradictory(I, F): continue
                            if not any(self.says_taken(f, k) for f in F): ok = False
                if ok: return True
        return False

    def rd_voices(self):
        t = next(t for n, t in self.ck.adt(HANDLER)['variants'][0]['fields'] if n == 'voices')
        return range(int(t.rsplit(';', 1)[1].strip(' ]')))

    def says_taken(self, f, k):
        """does fact f relate voice k to voices of channels or notes?"""
        if f.op == 'not': return f.args[0].op not in ('eq0', 'ge0') and self.says_taken(f.args[0], k)
        if f.op == 'and': return any(self.says_taken(x, k) for x in f.args)
        if f.op == 'or': return all(self.says_taken(x, k) for x in f.args)
        if f.op == 'ge0' or f.op == 'eq0' and len(lin_parts(f.args[0])[1]) < 2: return False
        ts = subterms(f)
        if k not in ts: return False
        other = [t for t in ts if t.op == 'phi' and t in self.phis and t is not self.A]
        return not other or self.A in ts

    def no_base(self, s, v, before):
        """does step s make sure that v is no channel's base voice?"""
        I = self.I
        for h in s.loops:
            if before is not None and s.q.index(h) > s.q.index(before): continue
            ks = {t for g in heads_into(h) for tr, b, hn in g.backs or () for f in b.facts for t in subterms(f) if t.op == 'kap' and t.args[1] == h.data[0]}
            flags = self.monotone(h, self.low(s, h))
            for k in ks:
                if not I.entails(s.F, le(I.length(self.channels), k)): continue
                e = self.base_voice(k)
                grp = heads_into(h)
                ids = {g.id for g in grp}
                ok = True
                for g in grp:
                    for tr, b, hn in g.backs or ():
                        if hn.id not in ids: continue
                        G = self.calm(g, b, flags)
                        if G is not None and not I.entails(G, Not(int_eq(e, v))): ok = False
                if ok: return True
        return False


def conj(f):
    if f.op == 'and': return set().union(*[conj(x) for x in f.args])
    if f.op == 'not' and f.args[0].op == 'or': return set().union(*[conj(Not(x)) for x in f.args[0].args])
    return {f}


def clash(F):
    vs = {}
    for f in F:
        if f.op == 'var':
            if vs.setdefault(f.args[0], f.args[1]) != f.args[1]: return True
        elif f.op == 'not' and f.args[0] in F: return True
    return False



def deliveries(ck):
    for v in verbosities(ck):
        rd = Reading(ck, v, cap=300)
        dl = Delivery(ck, rd)
        ck.floor(len(dl.list), 20, 'delivery', 'ways of handling an event')
        yield dl


def cases(dl):
    """(step, kind of event, facts) for all steps"""
    for s in dl.list:
        for k in dl.kinds_of(s):
            yield s, k, frozenset() if k is None else frozenset({mk('var', dl.msg, dl.mi), mk('var', dl.ev, k)})


def splits(dl, s, X, c):
    """the cases that condition c may and may not hold in step s"""
    for p in (True, False):
        f = c if p else Not(c)
        if f is FALSE or clash(s.F | {f}) or dl.I.entails(s.F | X, Not(f)): continue
        yield p, X | {f}


def p20(ck):
    """map of sounding notes per channel followed through every way of handling an event; target voice of every release :: each way of handling an event (all paths of the merge loop, joined states included) is checked; the map's state is an induction over the loop"""
    ck.assume.append('events have channels 0-15 (four bits of the status byte)')
    for dl in deliveries(ck):
        p20_steps(dl)
        p20_start(dl)


def is_press(dl, d, k, F): return d[0] == dl.K['NoteOn'] or d[0] == 'same' and k == dl.K['NoteOn']


def is_release(dl, d, k): return d[0] == dl.K['NoteOff'] or d[0] == 'same' and k == dl.K['NoteOff']


def p20_steps(dl):
    I, ck, K = dl.I, dl.ck, dl.K
    n = [0, 0, 0]
    for s, k, X in cases(dl):
        w = s.tr
        dl.req(s, not s.wild, 'sounding notes', 'replaced', s.wild[0] if s.wild else w, 'the sounding notes are changed other than by adding or removing one', X)
        for h in s.loops:
            for x in body(h):
                if x.kind in ('hins', 'hrem', 'hclear', 'store') and x.data[0] == dl.aroot: dl.req(s, False, 'sounding notes', 'loop', x, 'the sounding notes are changed in a loop', X)
        if k not in (K['NoteOff'], K['NoteOn']):
            rem = [x for x in s.rem]
            dl.req(s, not rem and not s.ins, 'sounding notes', 'other events', (rem + s.ins)[0] if rem + s.ins else w, 'an event that is no note changes which notes are sounding', X)
            continue
        ch, note, m, has = dl.sounding(k)
        for sounds, Y in splits(dl, s, X, has):
            G = s.F | Y
            dec = [(x, dl.decode(x, G)) for x in s.push]
            offs = [x for x, d in dec if is_release(dl, d, k)]
            pres = [x for x, d in dec if is_press(dl, d, k, G)]
            nm = 'release' if k == K['NoteOff'] else 'press'
            if s.err is not None:
                continue
            if sounds:
                n[0] += 1
                ok = len(s.rem) == 1 and I.entails(G, int_eq(s.rem[0].data[2], note)) and len(s.rem[0].data[1]) == 1 and I.entails(G, int_eq(s.rem[0].data[1][0][1], ch))
                dl.req(s, ok, 'release', nm + ' removes', w, 'a note that is released is still taken to be sounding', Y)
                if dl.req(s, len(offs) == 1, 'release', nm + ' delivered', w, 'the release of a sounding note is delivered %d times' % len(offs), Y) and offs:
                    x = offs[0]
                    v = dl.voice(x)
                    dl.req(s, I.entails(G, int_eq(v, mk('hget', m, note, ty='usize'))), 'release', nm + ' voice', x, 'a release goes to voice %s, not to that on which the note is sounding' % show(v)[:120], Y)
                    dl.req(s, x is s.push[0], 'release', nm + ' first', x, 'something else is delivered before the release', Y)
                    d = dl.decode(x, G)
                    if d[1] is not None:
                        dl.req(s, I.entails(G, int_eq(d[1]['ch'], ch)), 'release', nm + ' channel', x, 'a release is delivered for channel %s' % show(d[1]['ch'])[:60], Y)
            else:
                n[1] += 1
                dl.req(s, not offs, 'not sounding', nm, offs[0] if offs else w, 'a release is delivered although the note is not sounding', Y)
                ok = all(I.entails(G, And(int_eq(x.data[2], note), int_eq(x.data[1][0][1], ch))) for x in s.rem)
                dl.req(s, ok, 'not sounding', nm + ' removes', w, 'another note is taken to be released', Y)
            if k == K['NoteOff']:
                dl.req(s, not s.ins and len(s.push) == len(offs), 'release', 'only', w, 'a release does more than releasing its note', Y)
                continue
            vel = dl.rd.evf(dl.ev, k, 'velocity')
            for zero, Z in splits(dl, s, Y, eq0(vel)):
                G = s.F | Z
                if zero:
                    dl.req(s, not s.ins and len(s.push) == len(offs), 'release', 'velocity 0', w, 'a press with velocity 0 does more than releasing its note', Z)
                    continue
                n[2] += 1
                ok = len(s.ins) == 1 and len(s.ins[0].data[1]) == 1 and I.entails(G, And(int_eq(s.ins[0].data[1][0][1], ch), int_eq(s.ins[0].data[2], note)))
                if not dl.req(s, ok, 'press', 'recorded', w, 'a note that is pressed is not recorded as sounding', Z) or not ok: continue
                dl.req(s, not s.rem or s.q.index(s.rem[0]) < s.q.index(s.ins[0]), 'press', 'released first', w, 'a repeated note is taken to be released after it was pressed again', Z)
                if dl.req(s, len(pres) == 1, 'press', 'delivered', w, 'the press of a note is delivered %d times' % len(pres), Z) and pres:
                    v = dl.voice(pres[0])
                    dl.req(s, I.entails(G, int_eq(v, s.ins[0].data[3])), 'press', 'voice', pres[0], 'a note is pressed on voice %s but recorded as sounding on %s' % (show(v)[:80], show(s.ins[0].data[3])[:80]), Z)
                    d = dl.decode(pres[0], G)
                    if d[1] is not None: dl.req(s, I.entails(G, int_eq(d[1]['ch'], ch)), 'press', 'channel', pres[0], 'a press is delivered for channel %s' % show(d[1]['ch'])[:60], Z)
    for i, t in enumerate(('releases of sounding notes', 'releases of other notes', 'presses')): ck.floor(n[i], 1, 'steps', t)


def p20_start(dl):
    """nothing is sounding at first"""
    for h in dl.heads:
        for e in h.ents or ():
            v = headmap(h, e).get(dl.A)
            dl.ck.req(v is not None and all_entries(dl.I, dl.R, v, lambda t, F: t.op == 'app' and t.args[0] == 'hempty'), 'start', 'silence', h, 'some note may be sounding at the start')


def all_entries(I, R, v, good, F=frozenset()):
    """is every element of array v good?"""
    if v.op == 'vec': return all(good(x, F) for x in v.args[0])
    if v.op == 'rep': return good(v.args[0], F)
    if v.op == 'push': return good(v.args[1], F) and all_entries(I, R, v.args[0], good, F)
    if v.op == 'phi':
        hs = [h for h in R.nodes if h.kind == 'loop' and h.data[0] == v.args[1] and v in h.store.values()]
        if not hs: return False
        roots = {r for h in hs for r, x in h.store.items() if x is v}
        bid = {y.id for h in hs for y in body(h)}
        ns = [n for n in R.nodes if n.id in bid and n.data and n.data[0] in roots and n.kind in ('push', 'store', 'ext', 'vinsert')]
        ent = [headmap(h, x).get(v) for h in hs for x in h.ents or ()]
        return all(n.kind == 'push' and good(n.data[2], n.facts) for n in ns) and all(x is not None and x is not v and all_entries(I, R, x, good) for x in ent)
    return False


def p21(ck):
    """dominance of complete searches over the sounding notes and base voices before a note is placed :: each way of placing a note is checked to be preceded by a search of all channels' sounding notes that did not meet the voice; the search's completeness is an induction over its loops"""
    for dl in deliveries(ck):
        I, K = dl.I, dl.K
        n = 0
        errs = 0
        for s, k, X in cases(dl):
            if s.err is not None:
                errs += 1
                ok = k == K['NoteOn'] and is_err(s.err) and not I.entails(s.F | X, eq0(dl.rd.evf(dl.ev, k, 'velocity')))
                dl.req(s, ok, 'failure', 'only for a press', s.tr, 'the conversion ends at an event that is no note press', X)
                if ok:
                    bv = dl.base_voice(dl.chan_of(k))
                    ok = any(dl.says_taken(f, bv) for f in s.F) or any(f.op == 'phi' for f in s.F)
                    dl.req(s, ok, 'failure', 'own voice taken', s.tr, 'the conversion may fail although the channel\'s own voice is free', X)
                    ok = True
                if ok: dl.req(s, dl.all_taken(s), 'failure', 'no voice free', s.tr, 'the conversion may fail although a voice is free: not every voice is tried', X)
                continue
            if k != K['NoteOn']: continue
            ch, note, m, has = dl.sounding(k)
            vel = dl.rd.evf(dl.ev, k, 'velocity')
            for zero, Z in splits(dl, s, X, eq0(vel)):
                if zero: continue
                G = s.F | Z
                pres = [x for x in s.push if is_press(dl, dl.decode(x, G), k, G)]
                dl.req(s, len(pres) == 1 and len(s.ins) == 1, 'placed', 'not dropped', s.tr, 'a note press is dropped without an error', Z)
                for x in s.ins:
                    n += 1
                    v = x.data[3]
                    free = dl.none_sounds(s, v, x)
                    dl.req(s, free, 'free voice', 'own or unowned', x, 'a note may be placed on voice %s on which another is sounding' % show(v)[:100], Z)
                    own = I.entails(G, int_eq(v, dl.base_voice(ch)))
                    dl.req(s, own or dl.no_base(s, v, x), 'owner', 'base voice', x, 'a note may be placed on the base voice of another channel', Z)
                for x in pres:
                    if s.ins: dl.req(s, I.entails(G, int_eq(dl.voice(x), s.ins[0].data[3])), 'placed', 'recorded', x, 'a note sounds on a voice that is not taken to be occupied', Z)
        ck.floor(n, 2, 'free voice', 'ways of placing a note')
        ck.floor(errs, 1, 'failure', 'ways of failing')
        p20_start(dl)


# P22 ----------------------------------------------------------------------
def opt_payload(o, ty='usize'): return field(o, 1, 0, '0', ty)


def some_of(I, F, o, t):
    """is o Some(t) under F?"""
    if is_some(o): return I.entails(F, int_eq(payload(o), t))
    if is_none(o): return False
    ps = [x for f in F for x in subterms(f) if x.op == 'fld' and x.args[0] is o and x.args[1] in (1, None)]
    return I.entails(F, mk('var', o, 1)) and any(I.entails(F, int_eq(x, t)) for x in set(ps))


class Memories(object):
    """what the merge remembers between events: roots by role"""

    def __init__(self, dl):
        self.dl = dl
        I, K = dl.I, dl.K
        self.chan = {}      # kind -> roots that remember the last event of a channel
        for name in ('ControlChange', 'ProgramChange', 'PitchBendChange'):
            k = K[name]
            c = None
            for s, k2, X in cases(dl):
                if k2 != k or s.err is not None: continue
                G = s.F | X
                if name == 'ControlChange':
                    ct = dl.rd.evf(dl.ev, k, 'control')
                    if not any(p for p, Y in splits(dl, s, X, int_eq(ct, Int(7)))): continue
                    if not I.entails(G, int_eq(ct, Int(7))): continue
                r = {x.data[0] for x in s.st if len(x.data[1]) == 1 and x.data[1][0][0] == 'i' and I.entails(G, int_eq(x.data[1][0][1], dl.chan_of(k))) and
                     is_some(x.data[2]) and payload(x.data[2]) is dl.msg}
                if dl.impossible(s, X): continue
                c = r if c is None else c & r
            self.chan[name] = c or set()
        self.last = set()
        c = None
        for s, k, X in cases(dl):
            if k != K['NoteOn'] or s.err is not None or not s.ins: continue
            G = s.F | X
            r = {x.data[0] for x in s.st if len(x.data[1]) == 1 and x.data[1][0][0] == 'i' and I.entails(G, int_eq(x.data[1][0][1], s.ins[0].data[3])) and
                 is_some(x.data[2]) and I.entails(G, int_eq(payload(x.data[2]), dl.chan_of(k)))}
            self.last |= r

    def head(self, root):
        v = {h.store.get(root) for h in self.dl.heads}
        v = next(iter(v)) if len(v) == 1 else None
        return v if v is not None and v.op == 'phi' else None


def broadcasting(dl, s, k, X):
    """loop of step s that hands the event to the voices on which its channel is sounding: (head, mode) or None;
    mode 'all': to every one of them, 'others': to all but the base voice"""
    I = dl.I
    m = I.index(None, dl.A, dl.chan_of(k))
    base = dl.base_voice(dl.chan_of(k))
    hv = mk('app', 'hvals', m)
    for h in s.loops:
        bs = [x for x in body(h) if x.id in dl.vpid]
        if not bs: continue
        lid = h.data[0]
        ts = {t for x in bs for t in subterms(dl.voice(x)) if t.op == 'idx' and t.args[1].op == 'kap' and t.args[1].args[1] == lid and t.args[0].op == 'app' and t.args[0].args[0] == 'hvals'}
        if not ts and scanning(dl, s, h, bs, hv, base): return (h, 'scan', None)
        if len(ts) != 1: return (h, None)
        t = next(iter(ts))
        if t.args[0].args[1] is not m: return (h, None)
        if not I.entails(s.F, le(mk('app', 'seqlen', t.args[0], ty='usize'), t.args[1])): return (h, None)
        mode = {'all', 'others'}
        grp = heads_into(h)
        ids = {g.id for g in grp}
        for g in grp:
            for tr, b, hn in g.backs or ():
                if hn.id not in ids: continue
                for q in back_paths(tr, ids, lambda n: n.id in dl.vpid or n.kind == 'br'):
                    F = events_facts(q, b.facts)
                    if clash(F): continue
                    ps = [x for x in q if x.id in dl.vpid]
                    if len(ps) > 1: return (h, None)
                    if ps:
                        d = dl.decode(ps[0], F)
                        if d[0] != 'same' or not I.entails(F, int_eq(dl.voice(ps[0]), t)): return (h, None)
                        if not I.entails(F, Not(int_eq(t, base))): mode.discard('others')
                    else:
                        if not I.entails(F, int_eq(t, base)): return (h, None)
                        mode.discard('all')
        return (h, 'all' if 'all' in mode else 'others' if mode else None, t)
    return None


def scanning(dl, s, h, bs, hv, base):
    """does the loop with head h go through all voices and hand the event to exactly those on which the channel is sounding, and to the base voice?"""
    I = dl.I
    lid = h.data[0]
    ks = {dl.voice(x) for x in bs}
    k = next(iter(ks))
    if len(ks) != 1 or k.op != 'kap' or k.args[1] != lid: return False
    if not I.entails(s.F, le(Int(len(dl.rd_voices())), k)): return False
    grp = heads_into(h)
    ids = {g.id for g in grp}
    n = 0
    for g in grp:
        for tr, b, hn in g.backs or ():
            if hn.id not in ids: continue
            for q in back_paths(tr, ids, lambda x: x.id in dl.vpid or x.kind in ('br', 'loop')):
                F = events_facts(q, b.facts)
                if clash(F) or impossible(I, F, 2): continue
                n += 1
                ps = [x for x in q if x.id in dl.vpid]
                inner = []
                for g2 in q[1:]:
                    if g2.kind != 'loop': continue
                    cs = {t for x in body(g2) for f in x.facts for t in subterms(f) if t.op == 'kap' and t.args[1] == g2.data[0]} | {t for f in F for t in subterms(f) if t.op == 'kap' and t.args[1] == g2.data[0]}
                    inner += [(g2, mk('idx', hv, c, ty='usize')) for c in cs]
                if len(ps) > 1: return False
                if ps:
                    if dl.decode(ps[0], F)[0] != 'same': return False
                    if not (I.entails(F, int_eq(k, base)) or any(I.entails(F, int_eq(u, k)) or found_in(dl, F, g2, u, k) for g2, u in inner)): return False
                elif not I.entails(F, Not(int_eq(k, base))) or not any(dl.all_values(g2, u, k, F) for g2, u in inner): return False
    return n > 0


def found_in(dl, F, h, t, v):
    """met(), for any facts"""
    s = Step()
    s.F = F
    return met(dl, s, h, t, v)


def value_loops(dl, s, t):
    """the loops of step s over the same values as t: (head, element)"""
    for h in s.loops:
        us = {mk('idx', t.args[0], k, ty=t.ty) for g in heads_into(h) for tr, b, hn in g.backs or () for f in b.facts for k in subterms(f) if k.op == 'kap' and k.args[1] == h.data[0]}
        us |= {mk('idx', t.args[0], k, ty=t.ty) for f in s.F for k in subterms(f) if k.op == 'kap' and k.args[1] == h.data[0]}
        for u in us: yield h, u


def met(dl, s, h, t, v):
    """does step s know that the loop with head h met value t equal to v?"""
    I = dl.I
    grp = heads_into(h)
    ids = {g.id for g in grp}
    if dl.flag_high(h, int_eq(t, v), s.F): return True
    # the heads from which the loop ends are reached only by meeting it
    seen = set()
    st = [h]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.ents: return False
        for tr, b, hn in x.backs or ():
            if I.entails(b.facts, int_eq(t, v)): continue
            st.append(hn)
    return True


def p22(ck):
    """broadcast loops over the voices a channel sounds on; memories of channel state and their replay :: each way of handling a state event and of starting a note is checked; the memories' contents are an induction over the merge loop"""
    for dl in deliveries(ck):
        p22_broadcast(dl)
        p22_memory(dl)


def p22_broadcast(dl):
    I, ck, K = dl.I, dl.ck, dl.K
    n = {}
    META_T = ck.variant(META, 'SetTempo')
    mm = ck.variant(MSG, 'MetaEvent')
    me = dl.rd.mf(dl.msg, mm, 'event')
    for s, k, X in cases(dl):
        nm = [a for a, b in K.items() if b == k][0] if k is not None else 'other'
        G = s.F | X
        w = s.tr
        if nm not in ('NoteOn', 'NoteOff'):
            for h in s.loops:
                pass
        if nm in ('ControlChange', 'ProgramChange', 'ChannelPressure', 'PitchBendChange'):
            n[nm] = n.get(nm, 0) + 1
            base = dl.base_voice(dl.chan_of(k))
            ls = [h for h in s.loops if any(x.id in dl.vpid for x in body(h))]
            if not dl.req(s, len(ls) == 1, 'broadcast', nm + ' voices', w, 'an event is not handed to every voice on which its channel is sounding', X): continue
            if not ls: continue
            bc = broadcasting(dl, s, k, X)
            if not dl.req(s, bc is not None and bc[1] is not None, 'broadcast', nm + ' each once', ls[0], 'not every voice on which the channel is sounding gets the event once', X): continue
            if bc is None or bc[1] is None: continue
            h, mode, t = bc
            if mode == 'scan':
                dl.req(s, not s.push, 'broadcast', nm + ' base not twice', w, 'the base voice may get an event twice', X)
                continue
            for x in s.push:
                d = dl.decode(x, G)
                dl.req(s, d[0] == 'same' and I.entails(G, int_eq(dl.voice(x), base)), 'broadcast', nm + ' base', x, 'an event is handed to voice %s' % show(dl.voice(x))[:100], X)
            dl.req(s, len(s.push) <= 1, 'broadcast', nm + ' base once', w, 'the base voice gets an event %d times' % len(s.push), X)
            if mode == 'others': dl.req(s, len(s.push) == 1, 'broadcast', nm + ' base reached', w, 'the base voice does not get an event', X)
            elif s.push: dl.req(s, any(dl.all_values(g, u, base, s.F, dl.monotone(g, dl.low(s, g))) for g, u in value_loops(dl, s, t)), 'broadcast', nm + ' base not twice', s.push[0], 'the base voice may get an event twice', X)
            else: dl.req(s, any(met(dl, s, g, u, base) or I.entails(G, int_eq(u, base)) for g, u in value_loops(dl, s, t)), 'broadcast', nm + ' base reached', w, 'the base voice may not get an event', X)
            continue
        for h in s.loops:
            x = next((x for x in body(h) if x.id in dl.vpid), None)
            dl.req(s, x is None, 'delivery', nm + ' loop', x or h, 'an event is handed to voices in a loop', X)
        if nm == 'PolyphonicKeyPressure':
            ch, note, m, has = dl.sounding(k)
            for sounds, Y in splits(dl, s, X, has):
                n[nm] = n.get(nm, 0) + 1
                G = s.F | Y
                if not sounds: dl.req(s, not s.push, 'key pressure', 'not sounding', w, 'a key pressure of a note that is not sounding is delivered', Y)
                else:
                    ok = len(s.push) == 1 and dl.decode(s.push[0], G)[0] == 'same' and I.entails(G, int_eq(dl.voice(s.push[0]), mk('hget', m, note, ty='usize')))
                    dl.req(s, ok, 'key pressure', 'voice', w, 'a key pressure does not reach the voice of its note', Y)
        if nm == 'other':
            for p, Y in splits(dl, s, frozenset(), mk('var', dl.msg, mm)):
                if not p: continue
                for p2, Z in splits(dl, s, Y, mk('var', me, META_T)):
                    if not p2:
                        dl.req(s, not s.push, 'tempo', 'other meta events', w, 'a meta event other than a tempo is delivered', Z)
                        continue
                    n['tempo'] = n.get('tempo', 0) + 1
                    G = s.F | Z
                    ok = len(s.push) == 1 and dl.decode(s.push[0], G)[0] == 'same' and I.entails(G, eq0(dl.voice(s.push[0])))
                    dl.req(s, ok, 'tempo', 'first voice', w, 'a tempo is not delivered to the first voice once', Z)
    for nm in ('ControlChange', 'ProgramChange', 'ChannelPressure', 'PitchBendChange', 'PolyphonicKeyPressure', 'tempo'): ck.floor(n.get(nm, 0), 1, 'broadcast', 'ways of handling ' + nm)


def p22_memory(dl):
    I, ck, K = dl.I, dl.ck, dl.K
    mem = Memories(dl)
    roots = {}
    for name, rs in mem.chan.items():
        rs = {r for r in rs if mem.head(r) is not None}
        if not ck.req(bool(rs), 'memory', name, dl.heads[0], 'the last %s of a channel is not remembered' % name): return
        roots[name] = rs
    # several roots may hold the event; that which is replayed counts
    last = {r for r in mem.last if mem.head(r) is not None}
    allm = {r for rs in roots.values() for r in rs}
    last -= allm
    if not ck.req(bool(last), 'memory', 'channel of a voice', dl.heads[0], 'the channel last heard on a voice is not remembered'): return
    for name, rs in roots.items():
        for r in rs:
            for h in dl.heads:
                for e in h.ents or ():
                    v = headmap(h, e).get(mem.head(r))
                    ck.req(v is not None and all_entries(I, dl.R, v, lambda t, F: is_none(t)), 'memory', name + ' at first', h, 'an event is remembered before there was one')
    n = 0
    used = set()
    rep = {name: set(rs) for name, rs in roots.items()}
    # first pass: which memories are replayed
    steps = []
    for s, k, X in cases(dl):
        if k != K['NoteOn'] or s.err is not None or not s.ins: continue
        v = s.ins[0].data[3]
        G = s.F | X
        steps.append((s, k, X, v, G))
    lasts = set()
    for r in last:
        lasts.add(r)
    for s, k, X, v, G in steps:
        ch = dl.chan_of(k)
        same = [r for r in lasts if some_of(I, G, I.index(None, mem.head(r), v), ch)]
        pi = [i for i, x in enumerate(s.push) if is_press(dl, dl.decode(x, G), k, G)]
        if not pi: continue
        before = [x for x in s.push[:pi[0]]]
        seen = {}
        for x in before:
            p = x.data[2]
            m = p.args[3][0] if p.op == 'adt' and len(p.args[3]) == 2 else None
            if m is None: continue
            for name, rs in roots.items():
                for r in rs:
                    o = I.index(None, mem.head(r), ch)
                    if m.op == 'fld' and m.args[0] is o and m.args[1] in (1, None) and I.entails(G, int_eq(dl.voice(x), v)): seen.setdefault(name, []).append((r, x))
        if same:
            for name, l in seen.items(): dl.req(s, len(l) <= 1, 'replay', name + ' once', l[0][1], 'a %s is replayed more than once' % name, X)
            st = [x for x in s.st if x.data[0] in lasts]
            dl.req(s, all(len(x.data[1]) == 1 and I.entails(G, int_eq(x.data[1][0][1], v)) and is_some(x.data[2]) and I.entails(G, int_eq(payload(x.data[2]), ch)) for x in st), 'replay', 'channel kept', st[0] if st else s.tr,
                   'a voice is taken to be of another channel than the note on it', X)
            continue
        n += 1
        for name, rs in roots.items():
            l = seen.get(name, [])
            ok = False
            for r in rs:
                o = I.index(None, mem.head(r), ch)
                c = [x for y, x in l if y == r]
                if I.entails(G, mk('var', o, 1)): ok = ok or len(c) == 1
                elif I.entails(G, mk('var', o, 0)) or I.entails(G, Not(mk('var', o, 1))): ok = ok or not c
            dl.req(s, ok, 'replay', name, s.tr, 'the last %s of a channel is not replayed once when its note starts on a voice of another channel' % name, X)
        st = [x for x in s.st if x.data[0] in lasts]
        ok = any(len(x.data[1]) == 1 and I.entails(G, int_eq(x.data[1][0][1], v)) and is_some(x.data[2]) and I.entails(G, int_eq(payload(x.data[2]), ch)) for x in st[-1:])
        dl.req(s, ok, 'replay', 'channel of voice', s.tr, 'the channel that is heard on a voice is not remembered', X)
    ck.floor(n, 1, 'replay', 'notes on a voice of another channel')
    # the memories change with their events only
    for s, k, X in cases(dl):
        if s.err is not None: continue
        nm = [a for a, b in K.items() if b == k][0] if k is not None else 'other'
        G = s.F | X
        for x in s.st:
            for name, rs in roots.items():
                if x.data[0] not in rs: continue
                ok = len(x.data[1]) == 1
                if nm == name:
                    ok = ok and I.entails(G, int_eq(x.data[1][0][1], dl.chan_of(k))) and is_some(x.data[2]) and payload(x.data[2]) is dl.msg
                    if name == 'ControlChange': ok = ok and I.entails(G, int_eq(dl.rd.evf(dl.ev, k, 'control'), Int(7)))
                elif nm == 'NoteOn' and name == 'ProgramChange':
                    # the instrument of a percussion note
                    i = s.q.index(x)
                    ok = ok and I.entails(G, int_eq(x.data[1][0][1], dl.chan_of(k))) and is_some(x.data[2]) and any(
                        y.data[2].op == 'adt' and y.data[2].args[3][0] is payload(x.data[2]) and s.ins and I.entails(G, int_eq(dl.voice(y), s.ins[0].data[3])) for y in s.push) and I.entails(G, int_eq(dl.chan_of(k), Int(9)))
                else: ok = False
                dl.req(s, ok, 'memory', name + ' changed', x, 'the remembered %s of a channel changes with another event (%s)' % (name, nm), X)
            if x.data[0] in lasts and nm != 'NoteOn': dl.req(s, False, 'memory', 'channel changed', x, 'the channel last heard on a voice changes without a note', X)
    ok = {x.id for s in dl.list for x in s.st}
    for x in dl.R.nodes:
        if x.id in dl.inside and x.kind in ('store', 'push', 'ext', 'vpop', 'vremove', 'vinsert', 'vtrunc', 'sort') and x.data[0] in allm | lasts and (x.kind != 'store' or x.id not in ok):
            if any(x.id in {y.id for y in body(h)} for l in dl.inlids for h in dl.rd.LH[l]): ck.bad('memory', 'elsewhere', x, 'what is remembered of channels changes in a loop')
    # a voice counts as its owner's at first
    for r in lasts:
        for h in dl.heads:
            for e in h.ents or ():
                v = headmap(h, e).get(mem.head(r))
                ck.req(v is not None and all_entries(I, dl.R, v, lambda t, F: first_channel(dl, t, F)), 'memory', 'channel at first', h, 'a voice may be taken to have been heard with a channel of which it is not the base voice')


def first_channel(dl, t, F):
    if is_none(t): return True
    if not is_some(t): return False
    c = payload(t)
    ks = [k for f in F for k in subterms(f) if k.op == 'kap']
    return any(dl.I.entails(F, int_eq(field(x, None, dl.rd.base, '', 'usize') if False else x, k)) for k in set(ks) for f in F for x in subterms(f)
               if x.op == 'fld' and x.args[2] == dl.rd.base and x.args[0].op == 'idx' and x.args[0].args[1] is c)


# P23 ----------------------------------------------------------------------
SNARE, CYMBAL, SNARE_NOTE = 19, 12, 68
DRUM = 9


def program_of(dl, x, F, mem):
    """what event x does to the program of its voice: None (nothing), an instrument, or 'any'"""
    d = dl.decode(x, F)
    if d[0] == 'same':
        ks = [k for n, k in dl.K.items() if not dl.I.entails(F, Not(mk('var', dl.ev, k)))]
        if dl.I.entails(F, Not(mk('var', dl.msg, dl.mi))) or dl.K['ProgramChange'] not in ks: return None
        return 'any'
    if d[0] == 'other':
        m = d[1]
        for name in ('ControlChange', 'PitchBendChange'):
            for r in mem.chan[name]:
                h = mem.head(r)
                if h is not None and m.op == 'fld' and m.args[0].op == 'idx' and m.args[0].args[0] is h: return None
        return 'any'
    if d[0] == dl.K['ProgramChange']: return d[1]['program']
    return None


def p23(ck):
    """pitch and instrument of percussion notes; an instrument is taken to be set only right after its program change went to the voice :: each way of pressing, releasing and changing programs is checked; what is taken to be set on a voice is an induction over the merge loop"""
    for dl in deliveries(ck):
        mem = Memories(dl)
        p23_pitch(dl)
        p23_instrument(dl, mem)


def drum_cases(dl, s, k, X):
    """(channel 10?, snare note?, facts)"""
    ch, note = dl.chan_of(k), dl.rd.evf(dl.ev, k, 'note')
    for drum, Y in splits(dl, s, X, int_eq(ch, Int(DRUM))):
        if not drum:
            yield False, False, Y
            continue
        for a, Z in splits(dl, s, Y, int_eq(note, Int(38))):
            if a: yield True, True, Z
            else:
                for b, W in splits(dl, s, Z, int_eq(note, Int(40))): yield True, b, W


def p23_pitch(dl):
    I, K, ck = dl.I, dl.K, dl.ck
    n = [0, 0, 0]
    for s, k, X in cases(dl):
        if k not in (K['NoteOn'], K['NoteOff']): continue
        note = dl.rd.evf(dl.ev, k, 'note')
        for drum, snare, Y in drum_cases(dl, s, k, X):
            G = s.F | Y
            n[2 if snare else 1 if drum else 0] += 1
            for x in s.push:
                d = dl.decode(x, G)
                pr, re = is_press(dl, d, k, G), is_release(dl, d, k)
                if not pr and not re: continue
                t = 'press' if pr and d[0] != K['NoteOff'] else 'release'
                got = note if d[0] == 'same' else d[1]['note']
                want = Int(SNARE_NOTE) if snare else note
                dl.req(s, I.entails(G, int_eq(got, want)), 'pitch', t + (' snare' if snare else ' drum' if drum else ''), x, 'the %s of a %s is delivered with pitch %s' % (
                    t, 'snare note' if snare else 'percussion note' if drum else 'note', show(got)[:60]), Y)
                if d[0] != 'same' and t == 'press':
                    dl.req(s, I.entails(G, int_eq(d[1]['velocity'], dl.rd.evf(dl.ev, k, 'velocity'))), 'pitch', 'velocity', x, 'a press is delivered with velocity %s' % show(d[1]['velocity'])[:60], Y)
    for i, t in enumerate(('notes of other channels', 'cymbal notes', 'snare notes')): ck.floor(n[i], 1, 'pitch', t)


def p23_instrument(dl, mem):
    I, K, ck = dl.I, dl.K, dl.ck
    # what instrument is taken to be set on a voice: arrays that get Some(instrument) or None at a voice
    roots = {}
    for x in dl.R.nodes:
        if x.kind == 'store' and x.id in dl.inside and x.data[0][0] != 'B' and len(x.data[1]) == 1 and x.data[1][0][0] == 'i' and is_some(x.data[2]) and I.entails(x.facts, Or(int_eq(payload(x.data[2]), Int(SNARE)), int_eq(payload(x.data[2]), Int(CYMBAL)))):
            roots[x.data[0]] = 1
    roots = [r for r in roots if mem.head(r) is not None]
    n = [0, 0]
    for r in roots:
        for h in dl.heads:
            for e in h.ents or ():
                v = headmap(h, e).get(mem.head(r))
                ck.req(v is not None and all_entries(I, dl.R, v, lambda t, F: is_none(t)), 'set', 'at first', h, 'an instrument is taken to be set before there was one')
    for s, k, X in cases(dl):
        G = s.F | X
        nm = [a for a, b in K.items() if b == k][0] if k is not None else 'other'
        if s.err is None: consistent(dl, mem, s, X, roots, s.q, nm)
        # loops that hand programs to voices
        for h in s.loops:
            if not any(x.id in dl.vpid for x in body(h)): continue
            grp = heads_into(h)
            ids = {g.id for g in grp}
            for g in grp:
                for tr, b, hn in g.backs or ():
                    if hn.id not in ids: continue
                    for q in back_paths(tr, ids, lambda n: n.id in dl.vpid or n.kind in ('br', 'store')):
                        F = events_facts(q, b.facts) | X
                        if not clash(F): consistent(dl, mem, s, X, roots, q, nm, F)
        if k != K['NoteOn'] or s.err is not None: continue
        for drum, snare, Y in drum_cases(dl, s, k, X):
            if not drum: continue
            G = s.F | Y
            inst = Int(SNARE if snare else CYMBAL)
            pr = [x for x in s.push if is_press(dl, dl.decode(x, G), k, G)]
            for x in pr:
                v = dl.voice(x)
                last = None
                for y in s.push[:s.push.index(x)]:
                    if I.entails(G, Not(int_eq(dl.voice(y), v))): continue
                    p = program_of(dl, y, G, mem)
                    if p is None: continue
                    last = p if I.entails(G, int_eq(dl.voice(y), v)) else 'any'
                if last is None:
                    n[0] += 1
                    ok = any(some_of(I, G, I.index(None, mem.head(r), v), inst) for r in roots)
                else:
                    n[1] += 1
                    ok = last != 'any' and I.entails(G, int_eq(last, inst))
                dl.req(s, ok, 'instrument', 'snare' if snare else 'cymbal', x, 'a percussion note may sound while its voice is set to another instrument', Y)
    ck.floor(n[1], 1, 'instrument', 'instrument changes before percussion notes')


def consistent(dl, mem, s, X, roots, q, nm, F=None):
    """after the events q, what is taken to be set on a voice is what was set last"""
    I = dl.I
    G = F if F is not None else s.F | X
    for r in roots:
        # the voices whose programs change, and what is remembered at the end
        prog = []
        for i, x in enumerate(q):
            if x.id in dl.vpid:
                p = program_of(dl, x, G, mem)
                if p is not None: prog.append((i, x, dl.voice(x), p))
        sts = [(i, x) for i, x in enumerate(q) if x.kind == 'store' and x.data[0] == r]
        for i, x in sts:
            if not (len(x.data[1]) == 1 and x.data[1][0][0] == 'i'):
                dl.req(s, False, 'set', 'replaced', x, 'what is taken to be set on voices is replaced', X)
                continue
            v = x.data[2]
            if is_none(v): continue
            ok = False
            if is_some(v):
                for j, y, w, p in reversed(prog):
                    if I.entails(G, Not(int_eq(w, x.data[1][0][1]))): continue
                    ok = I.entails(G, int_eq(w, x.data[1][0][1])) and p != 'any' and I.entails(G, int_eq(p, payload(v)))
                    break
            dl.req(s, ok, 'set', 'remembered', x, 'an instrument is taken to be set on a voice that has not been set to it', X)
        for j, y, w, p in prog:
            # the last thing remembered of the voice must fit
            later = [b for a, b, c, d in prog if a > j and I.entails(G, int_eq(c, w))]
            if later: continue
            fin = None
            for i, x in sts:
                if len(x.data[1]) == 1 and x.data[1][0][0] == 'i' and I.entails(G, int_eq(x.data[1][0][1], w)): fin = x.data[2]
            ok = fin is not None and (is_none(fin) or is_some(fin) and p != 'any' and I.entails(G, int_eq(payload(fin), p)))
            dl.req(s, ok, 'set', 'forgotten (%s)' % nm, y, 'a voice gets another program but is still taken to be set to its percussion instrument', X)


RULES = {'P19': p19, 'P20': p20, 'P21': p21, 'P22': p22, 'P23': p23}
