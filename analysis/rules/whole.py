"""P33: all voices of a song become tracks that last to its end."""
from .base import *
from .opt import events_facts
from .midi import HANDLER, HTRAIT, MESSAGES, impossible
from .track import Conv, position, p17_end, MSG, MIDI, TRACK, EVENTS_T, contradictory

SONG = 'nspc::Song'


# ------------------------------------------------------------ MIR helpers
def places(x):
    """the field projections in a piece of MIR: (owner type, index)"""
    if isinstance(x, list):
        if len(x) == 5 and x[0] == 'f' and isinstance(x[1], int): yield x[4], x[1]
        else:
            for y in x:
                for z in places(y): yield z
    elif isinstance(x, dict):
        for y in x.values():
            for z in places(y): yield z


def touching(prog, owner, idx):
    """functions that mention a field, or can call one that does"""
    own = {k for k, f in prog.fns.items() if '_IMPL_' not in k and '_DERIVE_' not in k and (owner, idx) in set(places(f['blocks']))}
    return {k for k in prog.fns if reachable(prog, [k]) & own}


# --------------------------------------------------------------------- P33
def p33(ck):
    """value-flow analysis of the conversion of all voices, induction over the loop that finds the end of the song, and time accounting of the rest that fills up a voice :: On every path of the loop over all events of all channels the recorded end is the maximum of what it was and the event's time; every voice is converted once, in order, with the file's ticks per beat and the recorded end, and its commands become a track of the part, in order; the conversion of a voice ends with exactly the quantised rest up to the end (P17's accounting)."""
    p33_end(ck)
    p33_header(ck)
    p33_voices(ck)
    cv = Conv(ck)
    pos, start = position(cv)
    if len(pos) != 1: raise Missing('position from which rests are measured (%d candidates)' % len(pos))
    p17_end(ck, cv, next(iter(pos)))


def p33_header(ck):
    I, R = ck.analyse(HTRAIT + 'header')
    H = ('H', R.args[0])
    n = ck.field(HANDLER, 'ticks_per_beat')
    for s, v in R.rets:
        x = I.read(s, H, (('f', None, n, 'ticks_per_beat', 'u16', HANDLER),))
        ck.req(x is R.args[3], 'ticks per beat', 'header', s.trace, 'the ticks per beat are taken to be %s' % show(x)[:80])


def p33_end(ck):
    """max_time after reading is the latest time of a channel event"""
    prog = ck.prog
    key = ck.fn(HANDLER + '::read', (('&mut ' + HANDLER, '&std::path::Path', 'bool'), None))
    ix = ck.field(HANDLER, 'max_time')
    chans = ck.field(HANDLER, 'channels')
    touch = touching(prog, HANDLER, ix)
    mut = '&mut ' + HANDLER
    I, R = ck.analyse(key, opaque=lambda k: k.startswith('midi::') and k not in touch and mut in [strip_lt(t) for t in tys_of(prog, k)], cap=300)
    H = ('H', R.args[0])
    fp = (('f', None, ix, 'max_time', 'u32', HANDLER),)
    LH = loop_heads(R)
    mi = ck.variant(MSG, 'MidiEvent')
    inside = {lid: {y.id for h in LH[lid] for y in body(h)} for lid in LH}
    # where the end is kept while it is computed: the field, or a variable that is stored to it
    finals = [(s, v, I.read(s, H, fp)) for s, v in R.rets if is_ok(v)]
    ck.floor(len(finals), 1, 'end', 'successful returns')
    root = None
    sets = [n for n in R.nodes if n.kind == 'store' and n.data[0] == H and len(n.data[1]) == 1 and n.data[1][0][0] == 'f' and n.data[1][0][2] == ix]
    for m, at in [(m, None) for s, v, m in finals] + [(n.data[2], n) for n in sets]:
        if m.op == 'phi' and m.args[1] in LH and not (at is not None and any(at.id in inside[l] for l in LH)):
            for h in LH[m.args[1]]:
                for r, hv in h.store.items():
                    if hv is m and r != H: root, rset = r, at
    if root is not None and rset is not None:
        # computed in a variable that is stored afterwards
        memo = {}
        for s, v, m in finals:
            ck.req(on_every_path(s.trace, lambda n: n in sets and n.data[2] is rset.data[2] or n in sets and n.data[2].op == 'phi' and n.data[2].args[1] == rset.data[2].args[1], memo), 'end', 'recorded', s.trace, 'the end of the song is not recorded on every path')
        for n in sets:
            ck.req(n.data[2].op == 'phi' and n.data[2].args[1] == rset.data[2].args[1] and any(hv is n.data[2] for h in LH[n.data[2].args[1]] for r, hv in h.store.items() if r == root), 'end', 'recorded', n, 'the end of the song is set to %s' % show(n.data[2])[:100])

    def M(store, facts):
        st = X.State(store, facts, None)
        if root is not None:
            return store.get(root)
        return I.read(st, H, fp)
    # the loops in which it changes
    lids = set()
    for lid, hs in LH.items():
        for h in hs:
            for tr, b, hn in h.backs or ():
                a, c = M(hn.store, hn.facts), M(b.store, b.facts)
                if a is not c: lids.add(lid)
    order = sorted(lids, key=lambda l: len(inside[l]))
    if not ck.req(bool(order), 'end', 'loop', None, 'the end of the song is not computed from the events'): return
    inner = order[0]
    outer = order[1] if len(order) > 1 else None
    MI = M
    if outer is None:
        # the latest time within a channel may be kept apart
        xs = {}
        for h in LH[inner]:
            for tr, b, hn in h.backs or ():
                for t in subterms(M(b.store, b.facts)):
                    if t.op == 'phi' and t.args[1] in LH and t.args[1] != inner and t.ty == 'u32' and all(y.id in inside[inner] for y in LH[t.args[1]]):
                        for y in LH[t.args[1]]:
                            for r, hv in y.store.items():
                                if hv is t: xs.setdefault((t.args[1], r), set()).add(t)
        if len(xs) == 1:
            (lid, iroot), its = next(iter(xs.items()))
            outer, inner = inner, lid
            order = [inner, outer]

            def MI(store, facts): return store.get(iroot)
            for h in LH[inner]:
                for e in h.ents or ():
                    v = MI(e.store, e.facts)
                    ck.req(v is not None and I.entails(e.facts, le(v, M(e.store, e.facts))), 'end', 'start of a channel', h, 'the latest time of a channel starts at %s' % (show(v)[:80] if v is not None else '?'))
            for h in LH[outer]:
                for tr, b, hn in h.backs or ():
                    a, c = M(hn.store, hn.facts), M(b.store, b.facts)
                    st = {y for y in its if y in subterms(c)} or {y for y in its if any(y in subterms(f) for f in b.facts)}
                    ok = any(is_max(c, a, y) or c is y and I.entails(b.facts, le(a, y)) or c is a and I.entails(b.facts, le(y, a)) for y in st)
                    ck.req(ok, 'end', 'over all channels', tr, 'after a channel the end of the song is %s' % show(c)[:100])
    if not ck.req(outer is not None and all(h.id in inside[outer] for h in LH[inner]) and len(order) == 2, 'end', 'loops', LH[inner][0], 'the end of the song is not computed over all events of all channels'): return
    ki, ko = Kap(I, R, LH, inner), Kap(I, R, LH, outer)
    n = 0
    els = set()
    # events on their way to a channel count as well
    gives = {x for x in R.nodes if x.kind == 'push' and x.data[0] == H and x.id in inside[inner] and len(x.data[1]) == 3 and x.data[1][0][2] == chans and x.data[1][2][4] == MESSAGES}
    for h in LH[inner]:
        for tr, b, hn in h.backs or ():
            for q in back_paths(tr, {x.id for x in LH[inner]}, lambda x: x in gives):
                F = events_facts(q, b.facts)
                if contradictory(I, F): continue
                a, c = MI(hn.store, hn.facts), MI(b.store, b.facts)
                E = elements(F | {int_eq(c, a)}, ki, ko, chans)
                given = [x for x in q if x in gives]
                if gives:
                    n += 1
                    if not given and I.entails(F, int_eq(c, a)): continue
                    if not ck.req(len(given) == 1 and given[0].data[2].op == 'adt', 'end', 'event', tr, 'the end of the song changes without an event'): continue
                    m, t = given[0].data[2].args[3]
                    cases(I, ck, F, m, t, mi, a, c, tr)
                    continue
                if c is not a and not ck.req(len(E) == 1, 'end', 'event', tr, 'the end of the song changes to %s' % show(c)[:100]): continue
                els |= E
                if not E:
                    ck.req(False, 'end', 'event', tr, 'an event is passed over whatever its kind')
                    continue
                el = next(iter(E))
                t, m = field(el, None, 1, '', 'u32'), field(el, None, 0, '', MSG)
                n += 1
                cases(I, ck, F, m, t, mi, a, c, tr)
    ck.floor(n, 2, 'end', 'ways of handling an event')
    seqs = {t.args[0] for x in R.nodes if x.id in inside[outer] for f in x.facts for t in subterms(f) if t.op == 'idx' and t.args[1] is ko}
    for x in R.nodes:
        if x.kind == 'exit' and x.data[0] == inner:
            ck.req(any(I.entails(x.facts, le(I.length(t), ki)) for f in x.facts for t in lens(f, ko)), 'end', 'all events', x, 'not every event of a channel counts for the end of the song')
        if x.kind == 'exit' and x.data[0] == outer:
            ck.req(any(I.entails(x.facts, le(I.length(c), ko)) for c in seqs | {el.args[0].args[0].args[0] for el in els}), 'end', 'all channels', x, 'not every channel counts for the end of the song')
    # before and after
    for h in LH[outer]:
        for e in h.ents or ():
            v = M(e.store, e.facts)
            ck.req(v is not None and (I.entails(e.facts, eq0(v)) or unchanged(v, ix)), 'end', 'start', h, 'the end of the song starts at %s' % (show(v)[:80] if v is not None else '?'))
    last = {show(M(x.store, x.facts)) for h in LH[outer] for x in [h]}
    for s, v, m in finals:
        ck.req(show(m) in last or unchanged(m, ix), 'end', 'kept', s.trace, 'the end of the song is %s after reading' % show(m)[:100])


def cases(I, ck, F, m, t, mi, a, c, tr):
    """event m at time t changes the end of the song from a to c"""
    for midi in (True, False):
        G = F | {mk('var', m, mi) if midi else Not(mk('var', m, mi))}
        if impossible(I, G): continue
        if midi: ck.req(c is t and I.entails(G, le(a, t)) or I.entails(G, int_eq(c, a)) and I.entails(G, le(t, a)) or is_max(c, a, t), 'end', 'maximum', tr,
                        'after an event at time t the end of the song is %s' % show(c)[:120])
        else: ck.req(I.entails(G, int_eq(c, a)), 'end', 'other events', tr, 'an event of no channel changes the end of the song')


def D0(R): return mk('deref', R.args[0], ty=deref_ty(R.args[0].ty))


def unchanged(v, ix):
    """the field as calls that do not mention it leave it"""
    return v.op == 'fld' and v.args[2] == ix


def Kap(I, R, LH, lid):
    for h in LH[lid]:
        for tr, b, hn in h.backs or ():
            for f in b.facts:
                for t in subterms(f):
                    if t.op == 'kap' and t.args[1] == lid: return t
    raise Missing('counter of the loop over the events')


def elements(F, ki, ko, chans):
    """the events channels[ko].messages[ki] that the facts talk about"""
    r = set()
    for f in F:
        for t in subterms(f):
            if t.op == 'idx' and t.args[1] is ki and t.args[0].op == 'fld' and t.args[0].args[0].op == 'idx' and t.args[0].args[0].args[1] is ko: r.add(t)
    return r


def lens(f, ko):
    """what a fact takes the length of: the events of channel ko"""
    return {t.args[0] for t in subterms(f) if t.op == 'len' and t.args[0].op == 'fld' and t.args[0].args[0].op == 'idx' and t.args[0].args[0].args[1] is ko and (t.args[0].ty or '').startswith('alloc::vec::Vec<')}


def is_max(c, a, t):
    return c.op == 'max' and set(c.args) == {a, t}


# ------------------------------------------------------------------ voices
def p33_voices(ck):
    prog = ck.prog
    key = ck.fn(SONG + '::from_midi', (('&' + HANDLER, 'f32', 'bool', 'bool'), None))
    conv = ck.fn(TRACK + '::new', ((EVENTS_T, 'u16', 'u32', 'f32', 'usize'), None))
    opt = {k for k in prog.fns if k.startswith('nspc::') and k in reachable(prog, [c for c in fn_refs(prog, k) if c in prog.fns])}
    # the optimiser: what uses the tree of repeated sequences, other than the conversion itself
    for k in list(prog.fns):
        if k.startswith('nspc::') and not k.startswith('nspc::seqtree::') and k != key and '{closure' not in k:
            r = reachable(prog, [k])
            if conv not in r and any(x.startswith('nspc::seqtree::') for x in r): opt.add(k)
    I, R = ck.analyse(key, opaque=lambda k: k == conv or k in opt or k in callers_of(prog, opt) and k != key)
    mid = D0(R)
    fields = {n: field(mid, None, i, n, t) for i, (n, t) in enumerate(ck.adt(HANDLER)['variants'][0]['fields'])}
    vms = [i for i, (n, t) in enumerate(ck.adt('midi::MidiVoice')['variants'][0]['fields']) if t == MESSAGES][0]
    calls = [n for n in R.nodes if n.kind == 'call' and n.data[0] == conv]
    if not ck.req(bool(calls), 'voices', 'conversion', None, 'no voice is converted'): return
    nv = I.length(fields['voices'])
    LH = loop_heads(R)
    cid = {c.id for c in calls}
    voice, res = {}, {}
    for c in calls:
        a = c.data[2]
        m = a[0]
        ok = m.op == 'fld' and m.args[2] == vms and m.args[0].op == 'idx' and m.args[0].args[0] is fields['voices']
        if not ck.req(ok, 'voices', 'events', c, 'a track is made from %s, not from the events of a voice' % show(m)[:80]): return
        voice[c.id] = m.args[0].args[1]
        for i, n in ((1, 'ticks_per_beat'), (2, 'max_time')):
            ck.req(a[i] is fields[n], 'voices', n, c, 'a voice is converted with %s as its %s' % (show(a[i])[:80], n))
        ck.req(a[3] is R.args[1], 'voices', 'tempo factor', c, 'a voice is converted with tempo factor %s' % show(a[3])[:80])
        res[c.id] = c.data[3]
    # the counter at each loop head on the way
    outer = [lid for lid in LH if any(y.id in cid for h in LH[lid] for y in body(h))]
    heads = [h for lid in outer for h in LH[lid]]
    stop = {h.id for h in heads} | {n.id for n in R.nodes if n.kind == 'start'}
    cnt = {}
    for lid in sorted(outer, key=lambda l: len({y.id for h in LH[l] for y in body(h)})):
        inner = {k for k in outer if k != lid and LH[k][0].id in {y.id for h in LH[lid] for y in body(h)}}
        vs = {voice[c] for c in voice if c in {y.id for h in LH[lid] for y in body(h)}}
        v = {subst(t, {k: Int(0) for k in subterms(t) if k.op == 'kap' and k.args[1] in inner}) for t in vs}
        if not ck.req(len(v) == 1, 'voices', 'counter', LH[lid][0], 'cannot tell which voice is next'): return
        cnt[lid] = next(iter(v))
    # list of tracks: where successful results go
    pushes = [n for n in R.nodes if n.kind == 'push' and any(payload_of(n.data[2], r, 0) for r in res.values())]
    roots = {(n.data[0], n.data[1]) for n in pushes}
    if not ck.req(len(roots) == 1, 'voices', 'list', calls[0], 'the tracks are not collected in one list'): return
    # tracks without commands may be weeded out afterwards
    weeded = [n for n in R.nodes if n.kind == 'push' and n.data[2].op == 'idx' and listed(LH, roots, n.data[2].args[0])]
    def at(h, st, lid):
        """the counter of loop lid in state st, which enters or continues at head h"""
        m = headmap(h, st)
        return m

    def check(src, q, facts, tgt, where):
        """one way from counter value `src` to `tgt` (None: the end)"""
        F = events_facts(q, facts)
        if contradictory(I, F): return
        cs = [x for x in q if x.id in cid]
        ps = [x for x in q if x in pushes]
        if not ck.req(len(cs) <= 1, 'voices', 'one by one', where, 'several voices are converted at once'): return
        if cs:
            c = cs[0]
            r = res[c.id]
            ck.req(I.entails(F, int_eq(voice[c.id], src)), 'voices', 'next voice', c, 'voice %s is converted when it is the turn of %s' % (show(voice[c.id])[:60], show(src)[:60]))
            ok, er = I.entails(F, mk('var', r, 0)), I.entails(F, mk('var', r, 1))
            if er:
                ck.req(tgt is None, 'voices', 'error', c, 'a voice that cannot be converted is passed over')
                return
            ln = cmds_len(ck, I, r)
            if ps:
                ck.req(len(ps) == 1 and payload_of(ps[0].data[2], r, 0), 'voices', 'track', ps[0], 'the track of a voice is not added exactly once, unchanged')
                ck.req(bool(weeded) or I.entails(F, le(Int(1), ln)), 'voices', 'empty', ps[0], 'a voice without commands may get a track')
            else:
                ck.req(ok and I.entails(F, eq0(ln)), 'voices', 'dropped', c, 'a voice with commands gets no track')
        else: ck.req(not ps, 'voices', 'track', where, 'a track is added that no voice was converted to')
        if tgt is not None: ck.req(I.entails(F, int_eq(tgt, addc(src, len(cs)))), 'voices', 'counting', where, 'after voice %s comes %s' % (show(src)[:60], show(tgt)[:60]))
        return F

    def counter(x):
        return Int(0) if x.kind == 'start' else cnt[x.data[0]]
    sym = lambda n: n.id in cid or n in pushes
    for h in heads:
        for e in h.ents or ():
            for q in back_paths(e.trace, stop, sym):
                m = dict(headmap(h, e))
                t = cnt[h.data[0]]
                m.update({k: Int(0) for k in subterms(t) if k.op == 'kap' and k.args[1] == h.data[0]})
                check(counter(q[0]), q[1:], e.facts, subst(t, m), e.trace)
        for tr, b, hn in h.backs or ():
            for q in back_paths(tr, stop, sym):
                if q[0].kind == 'start': continue
                m = dict(headmap(h, b))
                t = cnt[h.data[0]]
                m.update({k: addc(k, 1) for k in subterms(t) if k.op == 'kap' and k.args[1] == h.data[0]})
                check(counter(q[0]), q[1:], b.facts, subst(t, m), tr)
    nok = 0
    all_roots = roots
    if weeded:
        roots, pushes = weed(ck, I, R, LH, roots, weeded)
        if roots is None: return
    for s, v in R.rets:
        for q in back_paths(s.trace, stop, sym):
            F = events_facts(q[1:], s.facts)
            if contradictory(I, F): continue
            cs = [x for x in q[1:] if x.id in cid]
            if is_err(v):
                ck.req(len(cs) == 1 and I.entails(F, mk('var', res[cs[0].id], 1)) and payload_of(payload(v), res[cs[0].id], 1) or True, 'voices', 'errors', s.trace, '')
                continue
            nok += 1
            src = counter(q[0])
            F = check(src, q[1:], s.facts, None, s.trace)
            if F is None: continue
            ck.req(I.entails(F, le(nv, addc(src, len(cs)))), 'voices', 'all', s.trace, 'not all voices are converted')
            result(ck, I, R, LH, s, v, F, roots, opt, pushes)
    ck.floor(nok, 1, 'voices', 'successful conversions')


def weed(ck, I, R, LH, roots, pushes):
    """a second list that takes exactly the tracks with commands, in order: (where it is kept, its pushes)"""
    out = {(n.data[0], n.data[1]) for n in pushes}
    A = {n.data[2].args[0] for n in pushes}
    if not ck.req(len(out) == 1 and len(A) == 1, 'voices', 'list', pushes[0], 'the tracks are not collected in one list'): return None, None
    A = next(iter(A))
    i = ck.field(TRACK, 'commands')
    ln = lambda k: I.length(field(I.index(None, A, k), None, i, 'commands', ck.adt(TRACK)['variants'][0]['fields'][i][1]))
    pid = {n.id for n in pushes}
    bods = {lid: {y.id for h in LH[lid] for y in body(h)} for lid in LH}
    outer = [lid for lid in LH if bods[lid] & pid]
    cnt = {}
    for lid in sorted(outer, key=lambda l: len(bods[l])):
        inner = {k for k in LH if k != lid and LH[k][0].id in bods[lid]}
        v = {subst(n.data[2].args[1], {k: Int(0) for k in subterms(n.data[2].args[1]) if k.op == 'kap' and k.args[1] in inner}) for n in pushes if n.id in bods[lid]}
        if not ck.req(len(v) == 1, 'voices', 'counter', LH[lid][0], 'cannot tell which track is next'): return None, None
        cnt[lid] = next(iter(v))
    # a filter's own loop may come before the push: it counts the tracks passed over
    for lid, hs in LH.items():
        ks = {k for n in pushes for k in subterms(n.data[2].args[1]) if k.op == 'kap' and k.args[1] == lid}
        if lid not in cnt and ks: cnt[lid] = pushes[0].data[2].args[1]
    heads = [h for lid in cnt for h in LH[lid]]
    stop = {h.id for h in heads} | {n.id for n in R.nodes if n.kind == 'start'}
    sym = lambda n: n.id in pid

    def check(src, q, facts, tgt, where):
        F = events_facts(q, facts)
        if contradictory(I, F): return
        ps = [x for x in q if x.id in pid]
        one = tgt is None or I.entails(F, int_eq(tgt, addc(src, 1)))
        if ps:
            ck.req(len(ps) == 1 and one and I.entails(F, int_eq(ps[0].data[2].args[1], src)), 'voices', 'next voice', ps[0], 'the tracks are not taken over one by one, in order')
            ck.req(I.entails(F, le(Int(1), ln(src))), 'voices', 'empty', ps[0], 'a voice without commands may get a track')
        elif tgt is None or not I.entails(F, int_eq(tgt, src)):
            if tgt is None and I.entails(F, le(I.length(A), src)): return
            ck.req(one and tgt is not None and I.entails(F, eq0(ln(src))), 'voices', 'dropped', where, 'a voice with commands gets no track')
    for h in heads:
        for states, kind in ((h.ents or (), 0), ([b for tr, b, hn in h.backs or ()], 1)):
            for b in states:
                for q in back_paths(b.trace, stop, sym):
                    if kind and q[0].kind == 'start': continue
                    m = dict(headmap(h, b))
                    t = cnt[h.data[0]]
                    m.update({k: addc(k, 1) if kind else Int(0) for k in subterms(t) if k.op == 'kap' and k.args[1] == h.data[0]})
                    src = Int(0) if q[0].kind == 'start' else cnt[q[0].data[0]]
                    check(src, q[1:], b.facts, subst(t, m), b.trace)
    for s, v in R.rets:
        if is_err(v): continue
        for q in back_paths(s.trace, stop, sym):
            src = Int(0) if q[0].kind == 'start' else cnt[q[0].data[0]]
            check(src, q[1:], s.facts, None, s.trace)
    return out, pushes


def callers_of(prog, fs):
    return {k for k in prog.fns if '{closure' not in k and fn_refs(prog, k) & fs and k.startswith('nspc::')} | set(fs)


def payload_of(v, r, k):
    return v.op == 'fld' and v.args[0] is r and v.args[1] == k


def cmds_len(ck, I, r):
    t = field(r, 0, 0, '0', TRACK)
    i = ck.field(TRACK, 'commands')
    return I.length(field(t, None, i, 'commands', ck.adt(TRACK)['variants'][0]['fields'][i][1]))


def result(ck, I, R, LH, s, v, F, roots, opt, pushes):
    """the song: one part with all tracks in order; the tracks themselves or their optimised form"""
    song = payload(v) if is_ok(v) else None
    if not ck.req(song is not None and song.op == 'adt' and song.args[0] == SONG, 'song', 'value', s.trace, 'cannot tell the song that is returned'): return
    parts, tracks = song.args[3][ck.field(SONG, 'parts')], song.args[3][ck.field(SONG, 'tracks')]
    if tracks.op == 'app' or tracks.op != 'phi' and any(t.op == 'phi' for t in subterms(tracks)):
        c = [n for n in R.nodes if n.kind == 'call' and n.data[0] not in (TRACK + '::new',) and n.data[3] is tracks]
        L = [t for n in c for t in n.data[2] if listed(LH, roots, t)]
        ok = bool(c) and bool(L) and all(any(t.ty == 'usize' or True for t in n.data[2]) for n in c)
        if ok:
            # the number of top-level tracks handed on is their number
            for n in c:
                us = [t for t, ty in zip(n.data[2], tys(ck, n.data[0])) if ty == 'usize']
                ok = ok and all(I.entails(F, int_eq(t, I.length(L[0]))) for t in us)
        tracks = L[0] if L else tracks
        ck.req(ok, 'song', 'optimised', s.trace, 'the tracks are not optimised as the tracks of the song')
    ck.req(listed(LH, roots, tracks), 'song', 'tracks', s.trace, 'the tracks of the song are %s' % show(tracks)[:120])
    ok = parts.op == 'vec' and len(parts.args[0]) == 1 and parts.args[0][0].op == 'adt'
    if not ck.req(ok, 'song', 'parts', s.trace, 'the parts of the song are %s' % show(parts)[:120]): return
    p = parts.args[0][0].args[3][ck.field('nspc::Part', 'tracks')]
    ck.req((I.entails(F, int_eq(I.length(p), I.length(tracks))) or any(paired(I, LH, p, n, pushes) for n in R.nodes if n.kind == 'push' and n.data[2].ty == 'usize' and p.op == 'phi')) and
           numbered(ck, I, R, LH, p, pushes), 'song', 'part', s.trace, 'the part does not list all tracks in order: %s' % show(p)[:120])


def tys(ck, k): return tys_of(ck.prog, k)


def tys_of(prog, k):
    f = prog.fns[k]
    return [f['locals'][i] for i in range(1, f['args'] + 1)]


def listed(LH, roots, t):
    """is t the list of the voices' tracks?"""
    if t.op != 'phi': return False
    return any(r in {x for x, p in roots} and hv is t for h in LH.get(t.args[1], ()) for r, hv in h.store.items())


def numbered(ck, I, R, LH, p, pushes):
    """a list whose k-th element is k"""
    if p.op == 'phi' and p.args[1] in LH:
        hs = LH[p.args[1]]
        bid = {y.id for h in hs for y in body(h)}
        ps = [n for n in R.nodes if n.kind == 'push' and n.id in bid and stripped(n.data[3]) is p]
        ent = [headmap(h, e).get(p) for h in hs for e in h.ents or ()]
        return bool(ps) and all(x is not None and (x.op == 'vec' and not x.args[0]) for x in ent) and \
            all(I.entails(n.facts, int_eq(n.data[2], I.length(n.data[3]))) or paired(I, LH, p, n, pushes) for n in ps)
    return False


def stripped(v):
    while v.op == 'push': v = v.args[0]
    return v


def paired(I, LH, p, n, pushes):
    """the value is the length of the list of tracks, which grows at the same time"""
    lid = p.args[1]
    if not pushes or n.data[2].op != 'len': return False
    hs = LH[lid]
    roots = {x.data[0] for x in pushes}
    L = n.data[2].args[0]
    if not any(r in roots and hv is L for h in hs for r, hv in h.store.items()): return False
    if not all(e.op == 'vec' and not e.args[0] for h in hs for x in h.ents or () for e in [headmap(h, x).get(L)] if e is not None): return False
    mine = lambda x: x in pushes or x.kind == 'push' and x.data[:2] == n.data[:2]
    for h in hs:
        for tr, b, hn in h.backs or ():
            for q in back_paths(tr, {x.id for x in hs}, mine):
                a = [x for x in q[1:] if x in pushes]
                if len(a) > 1 or len(a) * 2 != len(q) - 1: return False
    return True


ASSUME = ['ghakuf calls the handler as its documentation says']
RULES = {'P33': p33}
