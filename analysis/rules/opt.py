"""P14, P15, P16: extraction of repeated command sequences into call loops."""
from .base import *
from .encode import PC, CMD, TRACK

SONG = 'nspc::Song'
SEQ = 'nspc::seqtree::Sequence'
TREE = 'nspc::seqtree::SeqTree'
LOC = 'nspc::seqtree::Location'
EDGE = 'nspc::seqtree::Edge'
VT = 'alloc::vec::Vec<%s>'


def D(I, t):
    return I.deref(X.State({}, frozenset(), None), t)


def as_slice(I, t):
    """(sequence, from, to)"""
    if t.op == 'sub': return t.args[0], t.args[1], t.args[2]
    return t, Int(0), I.length(t)


def events_facts(q, facts):
    s = set(facts)
    for x in q:
        if x.kind != 'loop': s |= set(x.facts)
    return frozenset(s)


class Pieces(object):
    """what is appended to vectors along event sequences"""

    def __init__(self, I, R):
        self.I, self.R = I, R
        self.memo = {}

    def sym(self, n):
        return n.kind in ('push', 'ext', 'loop', 'exit', 'br')

    def seqs(self, end, stop):
        m = self.memo.setdefault(frozenset(stop), {})
        return [(q[0], q[1:]) for q in back_paths(end, stop, self.sym, m)]

    def copying(self, h):
        """a loop that copies consecutive elements of a sequence: (root, sequence, first index, count)"""
        grp = heads_into(h)
        ids = {g.id for g in grp}
        lid = h.data[0]
        res = None
        for g in grp:
            for tr, b, hn in g.backs or ():
                if hn.id not in ids: continue
                for s, q in self.seqs(tr, ids):
                    q = [x for x in q if x.kind not in ('exit', 'br')]
                    if len(q) != 1 or q[0].kind != 'push': return None
                    v = q[0].data[2]
                    if v.op != 'idx': return None
                    kap = [t for t in subterms(v.args[1]) if t.op == 'kap' and t.args[1] == lid]
                    if len(kap) != 1: return None
                    off = sub(v.args[1], kap[0])
                    if any(t is kap[0] for t in subterms(off)): return None
                    r = (q[0].data[0], v.args[0], off, kap[0])
                    if res not in (None, r): return None
                    res = r
        return res

    def touched(self, h):
        return {x.data[0] for x in body(h) if x.kind in ('push', 'ext')}


def p14(ck):
    """path-sensitive value-flow and coverage analysis over the MIR of the extraction, its loops followed by their induction variables ::
    For every path of an iteration over the occurrences, the pieces appended to the new track are the commands from the end of the last
    occurrence up to this one and one call loop (target = index of the track appended last, repeat count of the occurrence), and
    the covered position moves to start + length x count; the rest, the other tracks and the sequence follow unchanged, in order."""
    key = ck.fn(SONG + '::extract_sequence', ((VT % TRACK, SEQ, 'usize'), VT % TRACK))
    I, R = ck.analyse(key, cap=200, branches=True)
    tracks, seq, K = R.args[0], R.args[1], R.args[2]
    fc, fl = ck.field(SEQ, 'commands'), ck.field(SEQ, 'locations')
    scmds = field(seq, None, fc, 'commands', VT % PC)
    locs = field(seq, None, fl, 'locations', VT % LOC)
    ftr, fci, frc = (ck.field(LOC, n) for n in ('track_idx', 'cmd_idx', 'repeat_count'))
    L = I.length(scmds)
    ft = ck.field(TRACK, 'commands')
    cl = ck.variant(CMD, 'CallLoop')
    fcmd = ck.field(PC, 'command')
    P = Pieces(I, R)
    LH = loop_heads(R)
    loops = [n for n in R.nodes if n.kind == 'push' and n.data[2].op == 'adt' and n.data[2].args[0] == PC]
    ck.floor(len(loops), 1, 'call loop', 'places where a call loop is made')
    # the loops: outer over tracks, inner over occurrences
    inner = {l for l, hs in LH.items() for x in loops if any(y is x for h in hs for y in body(h))}
    outer = {l for l in inner if any(x.kind == 'push' and x.data[2].op == 'adt' and x.data[2].args[0] == TRACK for h in LH[l] for x in body(h))}
    inner = inner - outer
    if len(outer) != 1 or len(inner) != 1: raise Missing('loops over tracks and occurrences in ' + key)
    ol, il = next(iter(outer)), next(iter(inner))
    OH, IH = LH[ol], LH[il]
    oid, iid = {h.id for h in OH}, {h.id for h in IH}
    okap = next((t for h in OH for tr, b, hn in h.backs or () for f in b.facts for t in subterms(f) if t.op == 'kap' and t.args[1] == ol), None)
    if okap is None: raise Missing('counter of the loop over tracks in ' + key)
    track = I.index(None, tracks, okap)
    tcmds = field(track, None, ft, 'commands', VT % PC)
    tlen = I.length(tcmds)
    V = {x.data[0] for x in loops}
    if not ck.req(len(V) == 1, 'pieces', 'one list', loops[0], 'call loops are put into several lists'): return
    V = next(iter(V))
    locat = lambda j: I.index(None, locs, j)
    # the covered position at a head
    curs = {t for h in IH for tr, b, hn in h.backs or () for s, q in P.seqs(tr, iid) for x in q if x.kind == 'ext' for t in [as_slice(I, x.data[2])[1]] if t.op == 'phi' and t.args[1] == il}
    curs |= {as_slice(I, x.data[2])[1] for x in R.nodes if x.kind == 'ext' and as_slice(I, x.data[2])[1].op == 'phi' and as_slice(I, x.data[2])[1].args[1] == il}
    if not ck.req(len(curs) <= 1, 'position', 'variable', IH[0], 'cannot tell up to where a track is covered'): return
    C = next(iter(curs)) if curs else None

    def cur(h):
        for v in h.store.values():
            if C is not None and any(t is C for t in subterms(v)): return C
        return Int(0)

    def cur_in(h, st):
        if C is None: return Int(0)
        return headmap(h, st).get(C) if cur(h) is C else Int(0)
    for h in IH:
        for e in h.ents or ():
            c = cur_in(h, e)
            ck.req(c is not None and I.entails(e.facts, eq0(c)), 'position', 'start', e.trace, 'a track is not copied from its first command on')
            v = e.store.get(V)
            v = field(v, None, ft, 'commands', None) if v is not None and v.op == 'adt' and v.args[0] == TRACK else v
            ck.req(v is not None and I.entails(e.facts, eq0(I.length(v))), 'pieces', 'start', e.trace, 'the new track does not start empty')
    # which occurrence an iteration is at
    jpos = set()
    for x in loops:
        c = x.data[2].args[3][fcmd]
        if c.op != 'adt' or c.args[1] != cl:
            ck.req(False, 'call loop', 'command', x, 'an occurrence is replaced by %s' % show(c))
            return
        r = c.args[3][1]
        ok = r.op == 'fld' and r.args[2] == frc and r.args[0].op == 'idx' and r.args[0].args[0] is locs
        if not ck.req(ok, 'call loop', 'repeat count', x, 'the repeat count is %s, not that of the occurrence' % show(r)): return
        ck.req(I.entails(x.facts, int_eq(c.args[3][0], I.length(tracks))), 'call loop', 'target', x, 'the call loop targets track %s, the sequence becomes track %s' % (show(c.args[3][0]), show(I.length(tracks))))
        j = r.args[0].args[1]
        jpos |= {t for t in subterms(j) if t.op in ('kap', 'phi') and t.args[1] == il}
    if not ck.req(len(jpos) == 1, 'occurrences', 'position', loops[0], 'cannot tell which occurrence is at hand'): return
    J = next(iter(jpos))
    for h in IH:
        for e in h.ents or ():
            v = headmap(h, e).get(J) if J.op == 'phi' else Int(0)
            ck.req(v is not None and I.entails(e.facts, eq0(v)), 'occurrences', 'start', e.trace, 'the occurrences are not read from the first one on')
    n = 0
    for h in IH:
        for tr, b, hn in h.backs or ():
            for s, q in P.seqs(tr, iid):
                if s is not hn: continue
                F = events_facts(q, b.facts)
                n += 1
                w = next((x for x in reversed(q) if x.kind == 'push'), tr)
                vis, extra = [], []
                for x in q:
                    if x.kind == 'loop':
                        t = P.touched(x)
                        if t:
                            cp = P.copying(x)
                            if cp is None or cp[0] != V: extra.append(x)
                            else: vis.append(('slice', cp[1], cp[2], add(cp[2], cp[3]), x))
                    elif x.kind in ('push', 'ext') and x.data[0] == V:
                        vis.append(('one', x.data[2], None, None, x) if x.kind == 'push' else ('slice',) + as_slice(I, x.data[2]) + (x,))
                    elif x.kind in ('push', 'ext'): extra.append(x)
                ck.req(not extra, 'pieces', 'elsewhere', w, 'commands are put elsewhere')
                j1 = headmap(hn, b).get(J, J) if J.op == 'phi' else addc(J, 1)
                c0, c1 = cur(hn), cur_in(h, b)
                ones = [p for p in vis if p[0] == 'one']
                if not vis:
                    # an occurrence of another track
                    skipped = range_all(I, P, R, q, F, J, j1, locs, ftr, okap)
                    ck.req(skipped, 'occurrences', 'skipped', w, 'an occurrence of this track may be skipped')
                    ck.req(c1 is c0 or c1 is not None and I.entails(F, int_eq(c0, c1)), 'position', 'skipped', w, 'the covered position changes to %s without an occurrence' % (show(c1) if c1 is not None else '?'))
                    continue
                if not ck.req(len(ones) == 1 and vis[-1][0] == 'one', 'pieces', 'one call loop', w, 'an occurrence is not replaced by exactly one call loop after the commands before it'): continue
                loc = ones[0][1].args[3][fcmd].args[3][1].args[0]
                j = loc.args[1]
                start = field(loc, None, fci, 'cmd_idx', 'usize')
                ck.req(I.entails(F, int_eq(field(loc, None, ftr, 'track_idx', 'usize'), okap)), 'occurrences', 'track', w, 'an occurrence of another track may be replaced')
                ck.req(I.entails(F, int_eq(j1, addc(j, 1))), 'occurrences', 'next', w, 'the next occurrence looked at is %s after %s' % (show(j1), show(j)))
                ck.req(j is J or range_all(I, P, R, q, F, J, j, locs, ftr, okap), 'occurrences', 'skipped', w, 'an occurrence of this track may be skipped')
                ck.req(covers(I, F, [p for p in vis if p[0] == 'slice'], tcmds, c0, start), 'pieces', 'before an occurrence', w,
                       'the commands between two occurrences are not copied exactly once')
                want = add(start, mul(L, field(loc, None, frc, 'repeat_count', 'u8')))
                ck.req(c1 is not None and I.entails(F, int_eq(c1, want)), 'position', 'after an occurrence', w, 'after an occurrence copying goes on at %s, not at %s' % (show(c1) if c1 is not None else '?', show(want)))
    ck.floor(n, 1, 'pieces', 'steps over occurrences')
    # the end of each track
    n = 0
    over = False
    roots = set()
    for h in OH:
        for tr, b, hn in h.backs or ():
            for s, q in P.seqs(tr, oid):
                if s is not hn: continue
                F = events_facts(q, b.facts)
                n += 1
                ip = [i for i, x in enumerate(q) if x.kind == 'loop' and x.data[0] == il]
                if not ip and I.entails(F, le(K, okap)):
                    # the same loop takes over the tracks of earlier call loops
                    out = [x for x in q if x.kind in ('push', 'ext') or x.kind == 'loop' and P.touched(x)]
                    same = len(out) == 1 and out[0].kind == 'push' and is_copy(I, out[0].data[2], track, tcmds, ft)
                    ck.req(same, 'tracks', 'earlier call loops', tr, 'a track of an earlier call loop is not taken over as it is')
                    roots |= {x.data[0] for x in out}
                    over = True
                    continue
                if not ck.req(len(ip) == 1, 'pieces', 'occurrences once', tr, 'the occurrences of a track are not gone through once'): continue
                hi = q[ip[0]]
                after = q[ip[0] + 1:]
                vis, out, extra = [], [], []
                for x in after:
                    if x.kind == 'loop' and P.touched(x):
                        cp = P.copying(x)
                        if cp is None or cp[0] != V: extra.append(x)
                        else: vis.append(('slice', cp[1], cp[2], add(cp[2], cp[3]), x))
                    elif x.kind in ('push', 'ext') and x.data[0] == V:
                        vis.append(('one', x.data[2], None, None, x) if x.kind == 'push' else ('slice',) + as_slice(I, x.data[2]) + (x,))
                    elif x.kind in ('push', 'ext'): out.append(x)
                ok = not extra and all(p[0] == 'slice' for p in vis) and not any(x.kind in ('push', 'ext') for x in q[:ip[0]])
                ck.req(ok and covers(I, F, vis, tcmds, cur(hi), tlen, atleast=True), 'pieces', 'after the last occurrence', tr, 'the commands after the last occurrence are not copied exactly once')
                jend = J if J.op == 'phi' else J
                ck.req(all_seen(I, P, R, q, F, jend, locs, ftr, okap), 'occurrences', 'all', tr, 'not all occurrences of a track are replaced')
                ok = len(out) == 1 and out[0].kind == 'push' and is_track(out[0].data[2], V, ft, il)
                ck.req(ok, 'tracks', 'new track', tr, 'a track is not followed by exactly one new track in the result')
                roots |= {x.data[0] for x in out}
                ck.req(I.entails(F, lt(okap, K)) and I.entails(F, lt(okap, I.length(tracks))), 'tracks', 'top level', tr, 'more than the top-level tracks are searched')
    ck.floor(n, 1, 'tracks', 'steps over tracks')
    # the other tracks and the sequence
    n = 0
    for s, v in R.rets:
        for h0, q in P.seqs(s.trace, oid):
            F = events_facts(q, s.facts)
            n += 1
            ck.req(I.entails(F, Or(le(K, okap), le(I.length(tracks), okap))), 'tracks', 'all', s.trace, 'not all top-level tracks are part of the result')
            vis = []
            for x in q:
                if x.kind == 'loop' and P.touched(x):
                    cp = P.copying(x)
                    vis.append(('slice', cp[1], cp[2], add(cp[2], cp[3]), x) if cp else ('?', None, None, None, x))
                elif x.kind == 'push': vis.append(('one', x.data[2], None, None, x))
                elif x.kind == 'ext': vis.append(('slice',) + as_slice(I, x.data[2]) + (x,))
            last = vis[-1] if vis else None
            ok = last is not None and last[0] == 'one' and last[1].op == 'adt' and last[1].args[0] == TRACK and last[1].args[3][ft] is scmds
            ck.req(ok, 'tracks', 'sequence', s.trace, 'the last track is not the extracted sequence')
            sl = [p for p in vis[:-1]]
            T = I.length(tracks)
            # K <= number of tracks: everything from K on; otherwise nothing is left
            ok = over and not sl and len(roots) == 1 and I.entails(F, le(T, okap)) or all(p[0] == 'slice' for p in sl) and not over and (covers(I, F, sl, tracks, K, T) or covers(I, F, sl, tracks, T, T) and I.entails(F, le(T, K)))
            ck.req(ok, 'tracks', 'earlier call loops', s.trace, 'the tracks of earlier call loops are not copied in order')
            t = v
            while t.op in ('push', 'ext'): t = t.args[0]
            ck.req(t.op == 'phi' and t.args[1] == ol or t.op == 'phi', 'tracks', 'result', s.trace, 'the result is %s' % show(v)[:80])
    ck.floor(n, 1, 'tracks', 'results')
    p14_rounds(ck)


def is_copy(I, v, track, tcmds, ft):
    return v is track or v.op == 'adt' and v.args[0] == TRACK and v.args[3][ft] is tcmds


def is_track(v, V, ft, il):
    if v.op == 'adt' and v.args[0] == TRACK: v = v.args[3][ft]
    while v.op in ('ext', 'push'): v = v.args[0]
    return v.op == 'phi'


def covers(I, F, slices, seq, lo, hi, atleast=False):
    """do the slices together make up seq[lo..hi], in order"""
    at = lo
    for p in slices:
        if p[2] is p[3] or I.entails(F, le(p[3], p[2])): continue
        if p[1] is not seq or not (p[2] is at or I.entails(F, int_eq(p[2], at))): return False
        at = p[3]
    if at is hi or I.entails(F, int_eq(at, hi)): return True
    return atleast and I.entails(F, le(hi, at))


def skip_facts(I, P, x, locs, ftr, okap):
    """does every iteration of a loop without effects pass over an occurrence of another track: (counter or None)"""
    grp = heads_into(x)
    lid = x.data[0]
    kap = None
    for g in grp:
        for tr, b, hn in g.backs or ():
            ok = False
            for f in b.facts:
                for t in subterms(f):
                    if t.op == 'idx' and t.args[0] is locs and any(k.op == 'kap' and k.args[1] == lid for k in subterms(t.args[1])):
                        if I.entails(b.facts, Not(int_eq(field(t, None, ftr, 'track_idx', 'usize'), okap))):
                            k = [k for k in subterms(t.args[1]) if k.op == 'kap' and k.args[1] == lid][0]
                            ok = sub(t.args[1], k)
                            kap = k
            if ok is False: return None
    return kap


def range_all(I, P, R, q, F, j0, j1, locs, ftr, okap):
    """are all occurrences from j0 up to j1 (not included) known to be of other tracks"""
    if j0 is j1: return True
    d = sub(j1, j0)
    c, parts = lin_parts(d)
    parts = dict(parts)
    if not parts:
        return all(I.entails(F, Not(int_eq(field(I.index(None, locs, addc(j0, i)), None, ftr, 'track_idx', 'usize'), okap))) for i in range(c)) if 0 <= c < 4 else False
    for x in q:
        if x.kind == 'loop' and not P.touched(x):
            k = skip_facts(I, P, x, locs, ftr, okap)
            if k is not None and dict(parts).get(k) == 1:
                return range_all(I, P, R, q, F, j0, sub(j1, k), locs, ftr, okap) if c == 0 or True else False
    return False


def all_seen(I, P, R, q, F, J, locs, ftr, okap):
    n = I.length(locs)
    if I.entails(F, le(n, J)): return True
    # a search for the next occurrence ran to the end
    for f in F:
        if f.op != 'ge0': continue
        for t, k in dict(lin_parts(f.args[0])[1]).items():
            if t.op == 'kap' and k > 0 and I.entails(F, le(n, add(J, t))):
                return any(h.kind == 'loop' and h.data[0] == t.args[1] and skip_facts(I, P, h, locs, ftr, okap) is t for h in R.nodes)
    return False


def p14_rounds(ck):
    """extraction is repeated on its own result, with the same number of top-level tracks"""
    ext = ck.fn(SONG + '::extract_sequence', ((VT % TRACK, SEQ, 'usize'), VT % TRACK))
    best = ck.fn(TREE + '::best_sequence', (('&' + TREE,), None))
    key = ck.fn(SONG + '::optimize_call_loops', ((VT % TRACK, 'usize', 'bool'), VT % TRACK))
    addt = ck.fn(TREE + '::add_track', (('&mut ' + TREE, '&' + TRACK, 'usize'), None))
    I, R = ck.analyse(key, opaque=lambda k: k in (ext, best, addt))
    tracks, K = R.args[0], R.args[1]
    n = 0
    for x in R.events('call', lambda x: x.data[0] == ext):
        a = x.data[1]
        n += 1
        src = resolve(I, a[0])
        ck.req(all(v is tracks or v.op == 'app' and v.args[0] == ext for v, f, l in src), 'rounds', 'tracks', x, 'a sequence is extracted from %s' % show(a[0]))
        ck.req(a[2] is K, 'rounds', 'top level', x, 'a sequence is extracted from %s top-level tracks' % show(a[2]))
    ck.floor(n, 1, 'rounds', 'extractions')
    # what is looked for repeats in: the top-level tracks only, the ones in which repeats are replaced, each under its own number
    n = 0
    for x in R.events('call', lambda x: x.data[0] == addt):
        a, d = x.data[1], x.data[2]
        n += 1
        ck.req(I.entails(x.facts, lt(a[2], K)), 'rounds', 'where repeats are looked for', x, 'repeats are looked for in track %s, which may be none of those in which they are replaced' % show(a[2])[:60])
        t = d[1]
        ok = t.op == 'idx' and t.args[1] is a[2] and all(v is tracks or v.op == 'app' and v.args[0] == ext for v, f, l in resolve(I, t.args[0]))
        ck.req(ok, 'rounds', 'numbers', x, 'track %s is looked at under the number %s' % (show(t)[:80], show(a[2])[:40]))
    ck.floor(n, 1, 'rounds', 'tracks looked at')
    for x in R.events('call', lambda x: x.data[0] == key):
        a = x.data[1]
        ck.req(a[0].op == 'app' and a[0].args[0] == ext and a[1] is K, 'rounds', 'next', x, 'the next round works on %s with %s top-level tracks' % (show(a[0]), show(a[1])))
    for s, v in R.rets:
        for t, f, l in resolve(I, v):
            ok = t is tracks or t.op == 'app' and t.args[0] in (ext, key)
            ck.req(ok, 'rounds', 'result', s.trace, 'the tracks returned are %s' % show(t))
            if t is tracks and f is None:
                ck.req(not any(c.kind == 'call' and c.data[0] == ext for c in reach_back(s.trace).values()), 'rounds', 'kept', s.trace, 'an extraction is thrown away')



# ------------------------------------------------------------------ P15
def is_loc_vec(e):
    return e[0] == 'f' and e[4].endswith('Vec<%s>' % LOC)


def records(n):
    """the locations list that an event adds an occurrence to: (root, path of the list), or None"""
    if n.kind in ('push', 'store'):
        p = n.data[1]
        for i, e in enumerate(p):
            if is_loc_vec(e): return n.data[0], p[:i + 1]
        if n.kind == 'push' and (n.data[2].op == 'adt' and n.data[2].args[0] == LOC or n.data[2].ty == LOC): return n.data[0], p
    if n.kind in ('ext', 'vremove', 'vpop') and any(is_loc_vec(e) for e in n.data[1]): return n.data[0], n.data[1]
    return None


def recorded(ck, I, x, T, C, L, what):
    """event x records the occurrence at (T, C) of a sequence of length L"""
    ftr, fci, frc = (ck.field(LOC, n) for n in ('track_idx', 'cmd_idx', 'repeat_count'))
    F = x.facts
    if x.kind == 'push':
        v = x.data[2]
        ok = v.op == 'adt' and v.args[0] == LOC and I.entails(F, int_eq(v.args[3][ftr], T)) and I.entails(F, int_eq(v.args[3][fci], C)) and I.entails(F, int_eq(v.args[3][frc], Int(1)))
        return ck.req(ok, what, 'new record', x, 'the occurrence at (%s, %s) is recorded as %s' % (show(T), show(C), show(v)))
    if x.kind != 'store' or x.data[1][-1][:4] != ('f', None, frc, 'repeat_count'):
        return ck.req(False, what, 'record', x, 'a recorded occurrence is changed')
    v = x.data[2]
    c, d = lin_parts(v)
    d = dict(d)
    old = next(iter(d)) if len(d) == 1 else None
    ok = c == 1 and old is not None and d[old] == 1 and old.op == 'fld' and old.args[2] == frc
    if not ck.req(ok, what, 'repeat count', x, 'a repeat count becomes %s' % show(v)): return False
    loc = old.args[0]
    a = int_eq(field(loc, None, ftr, 'track_idx', 'usize'), T)
    # the occurrence directly follows the recorded ones
    at = field(loc, None, fci, 'cmd_idx', 'usize')
    b = I.entails(F, int_eq(add(at, L), C)) or I.entails(F, int_eq(add(at, mul(L, old)), C))
    ck.req(I.entails(F, a), what, 'adjoining track', x, 'an occurrence may be counted as a repeat of one in another track')
    ck.req(b, what, 'adjoining position', x, 'an occurrence may be counted as a repeat of one it does not follow directly')
    ck.req(I.entails(F, le(old, Int(254))), what, 'overflow', x, 'a repeat count may overflow')
    return True


def no_overflow(ck, I, R, what):
    """counters narrower than usize cannot overflow (what is as long as the song fits in memory)"""
    for x in R.nodes:
        if x.kind == 'assert' and x.data[0] == 'overflow':
            op, a, b = x.data[2][:3]
            c = dict((abs(v), 1) for t in subterms(x.data[1]) if t.op in ('ge0', 'eq0') for v in [lin_parts(t.args[0])[0]])
            big = any(v >= 2 ** 62 for v in c)
            ck.req(op in ('Add', 'Mul') and big, what, 'overflow', x, '%s of %s and %s may overflow' % (op, show(a), show(b)))
        elif x.kind == 'lossy':
            ck.req(False, what, 'narrowing', x, '%s may be cut off' % show(x.data[1]))


def p15(ck):
    """value-flow analysis over the MIR of the repeat search, with facts kept per path: which list gets which occurrence, under which label ::
    On every path: one record per visited node, with the track and start it was called for; a count is only raised for the occurrence
    that follows directly in the same track, and only below 255; the recursive call gets the rest of the commands, the node under the edge
    that is labelled with the commands compared equal so far and their length. The number of commands and nodes is taken to fit in memory."""
    p15_add(ck)
    p15_track(ck)
    p15_merge(ck)
    p15_best(ck)
    p15_equal(ck)


def equal_upto(I, R, h, cmds, label, flip=True):
    """does every iteration of the loop with heads h compare commands[k] with label[k] and find them equal"""
    grp = heads_into(h)
    lid = h.data[0]
    for g in grp:
        for tr, b, hn in g.backs or ():
            ok = False
            for f in b.facts:
                if f.op == 'eq' or f.op == 'app' and f.args[0] == 'eq':
                    a = [t for t in f.args if isinstance(t, Term)]
                    if len(a) == 2 and all(t.op == 'idx' for t in a) and {a[0].args[0], a[1].args[0]} == {cmds, label} and a[0].args[1] is a[1].args[1]:
                        k = a[0].args[1]
                        if k.op == 'kap' and k.args[1] == lid: ok = True
            if not ok: return False
    return True


def elems_are(I, R, v, cmds, n, F, also=(), depth=0):
    """is v = cmds[0..n] (or the same of a sequence in also), given how it was built"""
    if depth > 4: return False
    s, a, b = as_slice(I, v)
    if s is cmds or s in also:
        return I.entails(F, eq0(a)) and I.entails(F, int_eq(b, n))
    if v.op != 'phi': return False
    if not I.entails(F, int_eq(I.length(v), n)): return False
    return built_from(I, R, v, cmds, also, depth)


def strip_ref(I, v):
    """what a reference or a read through one stands for"""
    for _ in range(6):
        if v.op == 'ref': v = D(I, v)
        elif v.op == 'clone': v = v.args[0]
        else: break
    return v


def built_from(I, R, v, cmds, also, depth=0):
    """is every element i of the loop-carried vector v equal to (or a reference to) cmds[i]"""
    if depth > 4: return False
    seen, st, roots = set(), [v], set()
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'phi' and t in I.phi_in:
            for x, f, l in I.phi_in[t]: st.append(x)
        elif t.op == 'push':
            base, e = t.args[0], t.args[1]
            if not elem_ok(I, R, base, e, cmds, also, depth): return False
            st.append(base)
        elif t.op == 'sub':
            if not (t.args[1].op == 'int' and t.args[1].args[0] == 0): return False
            st.append(t.args[0])
        elif t.op == 'vec' and not t.args[0]: pass
        elif t is cmds or t in also: pass
        elif t.op in ('vrem', 'remove', 'vremove', 'pop', 'trunc'):
            # only the end is taken off
            if t.op in ('vrem', 'remove', 'vremove') and t.args[1] is not addc(I.length(t.args[0]), -1): return False
            st.append(t.args[0])
        else:
            return False
    return True


def elem_ok(I, R, base, e, cmds, also, depth):
    e = strip_ref(I, e)
    if e.op == 'deref':
        e = strip_ref(I, e.args[0])
    if e.op == 'idx':
        i = e.args[1]
        if i is not I.length(base): return False
        s = e.args[0]
        if s is cmds or s in also: return True
        return s.op == 'phi' and built_from(I, R, s, cmds, also, depth + 1)
    return False


def edge_path(p, fe):
    """(index of the edge, rest of the path) for a path into the edges of a node"""
    for i, e in enumerate(p):
        if e[0] == 'f' and e[4].endswith('Vec<%s>' % EDGE) and i + 1 < len(p) and p[i + 1][0] == 'i':
            return p[:i + 1], p[i + 1][1], p[i + 2:]
    return None


def p15_add(ck):
    key = ck.fn(TREE + '::add_commands', (('&mut ' + TREE, '&[%s]' % PC, 'usize', 'usize', 'usize'), '()'))
    I, R = ck.analyse(key, cap=200, branches=True)
    self_, cref, T, C, N = R.args
    cmds = D(I, cref)
    CL = I.length(cmds)
    node = D(I, self_)
    fed, fec, fet = ck.field(TREE, 'edges'), ck.field(EDGE, 'commands'), ck.field(EDGE, 'target')
    flo = ck.field(TREE, 'locations')
    frc = ck.field(LOC, 'repeat_count')
    edges = field(node, None, fed, 'edges', VT % EDGE)
    sroot = self_.args[0] if self_.op == 'ref' else None
    H = ('H', self_)
    own = [x for x in R.nodes if records(x) and records(x)[0] == H and len(records(x)[1]) == 1]
    ck.floor(len(own), 1, 'occurrence', 'places where an occurrence is recorded')
    for x in own: recorded(ck, I, x, T, C, N, 'occurrence')
    start = [x for x in R.nodes if x.kind == 'start']
    sid = {x.id for x in start}
    calls = [x for x in R.nodes if x.kind == 'call' and x.data[0] == key]
    ck.floor(len(calls), 2, 'next node', 'recursive calls')
    no_overflow(ck, I, R, 'counts')
    inloop = {y.id for hs in loop_heads(R).values() for h in hs for y in body(h)}
    memo = {}
    for x in R.nodes:
        if records(x) and x not in own:
            ck.req(not (records(x)[0] == H and x.id not in inloop), 'occurrence', 'other node', x, 'an occurrence is recorded in a node below as well')
    for s, v in R.rets:
        w = s.trace
        for q in back_paths(s.trace, sid, lambda n: bool(records(n)) or n in calls or n.kind == 'br', memo):
            F = events_facts(q, s.facts)
            if track_contradictory(I, F): continue
            r = [x for x in q if x in own]
            ck.req(not [x for x in q if records(x) and x not in own], 'occurrence', 'extra', w, 'an occurrence is recorded in another node as well')
            if I.entails(F, le(N, Int(0))): ck.req(not r, 'occurrence', 'root', w, 'the empty sequence is recorded')
            else: ck.req(len(r) == 1 and I.entails(F, le(Int(1), N)), 'occurrence', 'once', w, 'an occurrence is recorded %d times in a node' % len(r))
            c = [x for x in q if x in calls]
            if c: ck.req(len(c) == 1, 'next node', 'once', w, 'the rest of a sequence is followed %d times' % len(c))
            else:
                ok = I.entails(F, le(CL, Int(0))) or any(t.op == 'kap' and I.entails(F, eq0(t)) for f in F for t in subterms(f))
                ck.req(ok, 'next node', 'dropped', w, 'the rest of a sequence is dropped')
    for x in own + calls: ck.req(x.id not in inloop, 'occurrence', 'repeated', x, 'an occurrence is recorded in a loop')
    # where the rest of the commands goes
    epush = lambda n: n.kind == 'push' and n.data[2].op == 'adt' and n.data[2].args[0] == EDGE
    estore = lambda n: n.kind == 'store' and n.data[0] == H and edge_path(n.data[1], fed) is not None
    sym = lambda n: epush(n) or estore(n) or n.kind == 'br' or n.kind == 'loop' or bool(records(n))
    memo = {}
    for x in calls:
        a, d = x.data[1], x.data[2]
        ck.req(I.entails(x.facts, int_eq(a[2], T)), 'next node', 'track', x, 'the rest of a sequence is recorded for track %s' % show(a[2]))
        ck.req(I.entails(x.facts, int_eq(a[3], C)), 'next node', 'start', x, 'the rest of a sequence is recorded with start %s' % show(a[3]))
        t = a[0]
        ep = edge_path(t.args[1], fed) if t.op == 'ref' and t.args[0] == H else None
        if not ck.req(ep is not None and ep[2] and ep[2][0][:3] == ('f', None, fet), 'next node', 'target', x, 'the rest of a sequence goes to %s, not to the node below an edge' % show(t)): continue
        E = ep[1]
        P = sub(a[4], N)
        for q in back_paths(x, sid, sym, memo):
            F = events_facts(q, x.facts)
            if track_contradictory(I, F): continue
            q = q[1:]
            label, new = None, None
            old = field(I.index(None, edges, E), None, fec, 'commands', VT % PC)
            target = field(I.index(None, edges, E), None, fet, 'target', None)
            label = old
            for y in q:
                if estore(y):
                    e2 = edge_path(y.data[1], fed)
                    if not (e2[1] is E or I.entails(F, int_eq(e2[1], E))): continue
                    if e2[2] and e2[2][0][:3] == ('f', None, fec): label = y.data[2]
                    elif e2[2] and e2[2][0][:3] == ('f', None, fet): target = y.data[2]
                    elif not e2[2] and y.data[2].op == 'adt': label, target = y.data[2].args[3][fec], y.data[2].args[3][fet]
                elif epush(y) and y.data[0] == H:
                    if I.entails(F, int_eq(E, I.length(y.data[3]))): label, target, new = y.data[2].args[3][fec], y.data[2].args[3][fet], y
            ck.req(I.entails(F, int_eq(P, I.length(label))), 'label', 'length', x, 'the node below an edge of %s commands is entered for a sequence of %s more' % (show(I.length(label)), show(P)))
            # the commands skipped are the ones on the edge
            loops = [y for y in q if y.kind == 'loop']
            eqk = [k for k in subterms(P) if k.op == 'kap' for h in loops if h.data[0] == k.args[1] and equal_upto(I, R, h, cmds, old) and I.entails(F, le(P, k))]
            if label is old: ok = bool(eqk)
            else:
                ok = elems_are(I, R, label, cmds, P, F, (old,) if eqk else ())
            ck.req(ok, 'label', 'commands', x, 'the commands on an edge may differ from those skipped')
            rest = as_slice(I, d[1])
            empty = I.entails(F, le(rest[2], rest[1]))
            fresh = target.op == 'adt' and is_some(target) and payload(target).op == 'adt' and new is not None
            if fresh:
                tr = payload(target)
                ck.req(all(I.entails(F, eq0(I.length(tr.args[3][i]))) for i in (fed, flo)), 'next node', 'new leaf', x, 'the node below a new edge is not empty')
            ck.req(fresh and empty or rest[0] is cmds and I.entails(F, int_eq(rest[1], P)) and I.entails(F, int_eq(rest[2], CL)), 'next node', 'rest', x, 'the commands followed after an edge are %s, not those after it' % show(d[1]))
            if label is not old and new is None:
                # an edge was split
                split(ck, I, R, x, q, F, E, old, P, target, H, fed, fec, fet, flo, frc, edges, N)


def split(ck, I, R, x, q, F, E, old, P, target, H, fed, fec, fet, flo, frc, edges, N):
    oldt = field(I.index(None, edges, E), None, fet, 'target', None)
    if not ck.req(target.op == 'adt' and is_some(target) and payload(target).op == 'adt', 'split', 'node', x, 'a split edge does not lead to a new node'): return
    nn = payload(target)
    ev = nn.args[3][fed]
    if I.entails(F, mk('var', oldt, 0)): return       # edges always have a target
    es = list(ev.args[0]) if ev.op == 'vec' else None
    ok = es is not None and len(es) == 1 and es[0].op == 'adt' and es[0].args[0] == EDGE
    if not ck.req(ok, 'split', 'edges', x, 'a node inserted into an edge has the edges %s' % show(ev)[:120]): return
    e = es[0]
    s, a, b = as_slice(I, e.args[3][fec])
    ck.req(s is old and I.entails(F, int_eq(a, P)) and I.entails(F, int_eq(b, I.length(old))), 'split', 'lower label', x, 'the lower part of a split edge is labelled %s' % show(e.args[3][fec])[:160])
    t = e.args[3][fet]
    was = payload(t) if t.op == 'adt' and is_some(t) else None
    okt = t is oldt or was is not None and was.op == 'fld' and was.args[0] is oldt
    ck.req(okt, 'split', 'lower node', x, 'the lower part of a split edge leads to %s' % show(t)[:120])
    if was is None: return
    ol = field(was, None, flo, 'locations', VT % LOC)
    ftr, fci = ck.field(LOC, 'track_idx'), ck.field(LOC, 'cmd_idx')
    # every occurrence of the longer sequence is one of the shorter
    oln = add(N, I.length(old))
    nl = add(N, P)
    heads = [y for y in q if y.kind == 'loop' and any(records(z) and records(z)[0] != H for z in body(y))]
    outer = [h for h in heads if not any(h is not g and any(z is h for z in body(g)) for g in heads)]
    if not ck.req(len(outer) == 1, 'split', 'occurrences', x, 'the occurrences below a split edge are not gone through once'): return
    o = outer[0]
    k = [t for t in (kt for f in F for kt in subterms(f)) if t.op == 'kap' and t.args[1] == o.data[0]]
    k = k[0] if k else None
    if not ck.req(k is not None and I.entails(F, le(I.length(ol), k)), 'split', 'all occurrences', x, 'not all occurrences below a split edge are taken over'): return
    for g in heads_into(o):
        for e2 in g.ents or ():
            pass
    loc = I.index(None, ol, k)
    T2, C2 = field(loc, None, ftr, 'track_idx', 'usize'), field(loc, None, fci, 'cmd_idx', 'usize')
    rc = field(loc, None, frc, 'repeat_count', 'u8')
    og = heads_into(o)
    oid = {h.id for h in og}
    inner = [h for h in LOOPS(R) if h.id not in oid and any(z is h for z in body(o)) and any(records(z) for z in body(h))]
    ilid = {h.data[0] for h in inner}
    if not ck.req(len(ilid) == 1, 'split', 'repeats', x, 'the repeats of an occurrence are not gone through'): return
    ilid = next(iter(ilid))
    for g in og:
        for tr, b, hn in g.backs or ():
            for p in back_paths(tr, oid, lambda n: n.kind == 'loop' or bool(records(n))):
                hs = [y for y in p[1:] if y.kind == 'loop' and y.data[0] == ilid]
                rs = [y for y in p[1:] if records(y)]
                F2 = events_facts(p, b.facts)
                j = [t for f in F2 for t in subterms(f) if t.op == 'kap' and t.args[1] == ilid]
                ck.req(len(hs) == 1 and not rs, 'split', 'repeats once', tr, 'the repeats of an occurrence are not gone through once')
                ck.req(bool(j) and I.entails(F2, le(rc, j[0])), 'split', 'all repeats', tr, 'not all repeats of an occurrence below a split edge are taken over')
    iid = {h.id for h in inner}
    for g in inner:
        for tr, b, hn in g.backs or ():
            for p in back_paths(tr, iid, lambda n: bool(records(n)) or n.kind == 'br'):
                rs = [y for y in p if records(y)]
                if not ck.req(len(rs) == 1, 'split', 'recorded once', tr, 'an occurrence below a split edge is taken over %d times' % len(rs)): continue
                j = [t for f in b.facts for t in subterms(f) if t.op == 'kap' and t.args[1] == ilid]
                if not ck.req(bool(j), 'split', 'repeat position', tr, 'cannot tell which repeat is taken over'): continue
                recorded(ck, I, rs[0], T2, add(C2, mul(j[0], oln)), nl, 'split')


def LOOPS(R):
    return [n for n in R.nodes if n.kind == 'loop']


def track_contradictory(I, F):
    from .track import contradictory
    return contradictory(I, F)


def p15_track(ck):
    """every start position of a track is searched once"""
    add_ = ck.fn(TREE + '::add_commands', (('&mut ' + TREE, '&[%s]' % PC, 'usize', 'usize', 'usize'), '()'))
    key = ck.fn(TREE + '::add_track', (('&mut ' + TREE, '&' + TRACK, 'usize'), '()'))
    I, R = ck.analyse(key, opaque=lambda k: k == add_, branches=True)
    cmds = field(D(I, R.args[1]), None, ck.field(TRACK, 'commands'), 'commands', VT % PC)
    each(ck, I, R, lambda x: x.kind == 'call' and x.data[0] == add_, cmds, None, 'start position', 'a start position', lambda x, k: (
        x.data[1][0] is R.args[0] or x.data[2][0] is D(I, R.args[0]) or x.data[1][0].op == 'ref' and not x.data[1][0].args[1]) and suffix(I, x.data[2][1], cmds, k, x.facts) and
        I.entails(x.facts, int_eq(x.data[1][2], R.args[2])) and I.entails(x.facts, int_eq(x.data[1][3], k)) and I.entails(x.facts, eq0(x.data[1][4])))
    opt = ck.fn(SONG + '::optimize_call_loops', ((VT % TRACK, 'usize', 'bool'), VT % TRACK))
    best = ck.fn(TREE + '::best_sequence', (('&' + TREE,), None))
    I, R = ck.analyse(opt, opaque=lambda k: k in (key, best) or k == ck.fn(SONG + '::extract_sequence', ((VT % TRACK, SEQ, 'usize'), VT % TRACK)), branches=True)
    calls = [x for x in R.nodes if x.kind == 'call' and x.data[0] == key]
    ck.floor(len(calls), 1, 'tracks', 'searched tracks')
    if calls:
        a = calls[0].data[2][1]
        seq = a.args[0] if a.op == 'idx' else None
        if ck.req(seq is not None, 'tracks', 'track', calls[0], 'the track searched is %s' % show(a)):
            each(ck, I, R, lambda x: x.kind == 'call' and x.data[0] == key, seq, R.args[1], 'tracks', 'a track', lambda x, k:
                 x.data[2][1] is I.index(None, seq, k) and I.entails(x.facts, int_eq(x.data[1][2], k)))
            ck.req(any(v is R.args[0] for v, f, l in resolve(I, seq)), 'tracks', 'of the song', calls[0], 'the tracks searched are %s' % show(seq))


def suffix(I, v, seq, k, F):
    s, a, b = as_slice(I, v)
    return s is seq and I.entails(F, int_eq(a, k)) and I.entails(F, int_eq(b, I.length(seq)))


def each(ck, I, R, pred, seq, lim, rule, what, good):
    """is there exactly one good pred-event for every k < min(len(seq), lim)"""
    evs = [x for x in R.nodes if pred(x)]
    ck.floor(len(evs), 1, rule, 'calls')
    lids = {l for l, hs in loop_heads(R).items() for h in hs for x in evs if any(y is x for y in body(h))}
    # the innermost loop around the call
    lids = {l for l in lids if not any(m != l and any(g.data[0] == m for h in loop_heads(R)[l] for g in body(h) if g.kind == 'loop') for m in lids)}
    if not ck.req(len(lids) == 1, rule, 'loop', evs[0] if evs else None, 'not every %s is handled' % what): return
    lid = next(iter(lids))
    hs = loop_heads(R)[lid]
    ids = {h.id for h in hs}
    n = I.length(seq)
    kap = None
    for h in hs:
        for tr, b, hn in h.backs or ():
            ks = [t for f in b.facts for t in subterms(f) if t.op == 'kap' and t.args[1] == lid]
            if not ck.req(bool(ks), rule, 'counter', tr, 'cannot tell how %s is chosen' % what): return
            kap = ks[0]
            for p in back_paths(tr, ids, lambda x: pred(x)):
                ck.req(len(p) == 2, rule, 'once', tr, '%s is handled %d times' % (what, len(p) - 1))
                for x in p[1:]: ck.req(good(x, kap), rule, 'arguments', x, 'the call does not fit %s: %s' % (what, show(x.data[3])[:200] if len(x.data) > 3 else ''))
    m = 0
    for x in R.nodes:
        if x.kind == 'exit' and x.data[0] == lid:
            m += 1
            c = le(n, kap) if lim is None else Or(le(n, kap), le(lim, kap))
            ok = I.entails(x.facts, c)
            ck.req(ok, rule, 'all', x, 'not every %s is handled' % what)
    ck.floor(m, 1, rule, 'loop ends')
    for x in evs: ck.req(any(y is x for h in hs for y in body(h)), rule, 'extra', x, '%s is handled twice' % what)


def p15_merge(ck):
    """adjoining occurrences become one with their counts added up; the others are kept, unless they overlap"""
    key = ck.fn(TREE + '::consolidate_locations', (('&' + VT % LOC, 'usize'), VT % LOC))
    I, R = ck.analyse(key, cap=200, branches=True)
    locs, L = D(I, R.args[0]), R.args[1]
    ftr, fci, frc = (ck.field(LOC, n) for n in ('track_idx', 'cmd_idx', 'repeat_count'))
    tr_ = lambda t: field(t, None, ftr, 'track_idx', 'usize')
    at_ = lambda t: field(t, None, fci, 'cmd_idx', 'usize')
    rc_ = lambda t: field(t, None, frc, 'repeat_count', 'u8')
    no_overflow(ck, I, R, 'merge')
    evs = [x for x in R.nodes if x.kind in ('push', 'store', 'ext', 'vremove', 'vpop')]
    outs = {x.data[0] for x in evs if x.kind == 'push'}
    if not ck.req(len(outs) == 1, 'merge', 'one list', evs[0] if evs else None, 'merged occurrences are put into %d lists' % len(outs)): return
    V = next(iter(outs))
    LH = loop_heads(R)
    lids = {l for l, hs in LH.items() if any(x.kind == 'push' for h in hs for x in body(h))}
    if not ck.req(len(lids) == 1, 'merge', 'one loop', evs[0], 'the occurrences are not gone through once'): return
    lid = next(iter(lids))
    hs = LH[lid]
    ids = {h.id for h in hs}
    kap = next((t for h in hs for tr, b, hn in h.backs or () for f in b.facts for t in subterms(f) if t.op == 'kap' and t.args[1] == lid), None)
    if not ck.req(kap is not None, 'merge', 'counter', hs[0], 'cannot tell which occurrence is at hand'): return
    for x in R.nodes:
        if x.kind == 'exit' and x.data[0] == lid: ck.req(I.entails(x.facts, le(I.length(locs), kap)), 'merge', 'all', x, 'not all occurrences are gone through')
    loc = I.index(None, locs, kap)
    n = 0
    for h in hs:
        cur = h.store.get(V)
        if not ck.req(cur is not None, 'merge', 'list', h, 'cannot follow the merged occurrences'): continue
        last = I.index(None, cur, addc(I.length(cur), -1))
        end = add(at_(last), mul(L, rc_(last)))
        for tr, b, hn in h.backs or ():
            pass
    for h in hs:
        for tr, b, hn in h.backs or ():
            cur = hn.store[V]
            last = I.index(None, cur, addc(I.length(cur), -1))
            end = add(at_(last), mul(L, rc_(last)))
            for p in back_paths(tr, ids, lambda x: x in evs or x.kind == 'br'):
                F = events_facts(p, b.facts)
                if track_contradictory(I, F): continue
                ev = [x for x in p if x in evs]
                w = ev[0] if ev else tr
                n += 1
                if not ck.req(len(ev) <= 1, 'merge', 'once', w, 'an occurrence is merged twice'): continue
                same = int_eq(tr_(last), tr_(loc))
                if not ev:
                    ok = I.entails(F, le(Int(1), I.length(cur))) and I.entails(F, same) and I.entails(F, lt(at_(loc), end))
                    ck.req(ok, 'merge', 'dropped', w, 'an occurrence that does not overlap the last one may be dropped')
                elif ev[0].kind == 'push':
                    v = ev[0].data[2]
                    ok = v is loc or v.op == 'adt' and v.args[0] == LOC and all(v.args[3][i] is field(loc, None, i, None, None) for i in (ftr, fci, frc))
                    ck.req(ok, 'merge', 'kept', w, 'an occurrence is kept as %s' % show(v))
                    ok = I.entails(F, eq0(I.length(cur))) or I.entails(F, Not(same)) or I.entails(F, le(end, at_(loc)))
                    ck.req(ok, 'merge', 'overlap', w, 'an occurrence may be kept that overlaps the last one')
                else:
                    pth = ev[0].data[1]
                    ok = ev[0].kind == 'store' and pth and pth[0][0] == 'i' and I.entails(F, int_eq(pth[0][1], addc(I.length(cur), -1))) and pth[-1][:3] == ('f', None, frc)
                    if not ck.req(ok, 'merge', 'changed', w, 'the merged occurrences are changed otherwise than by raising the last repeat count'): continue
                    v = ev[0].data[2]
                    d = sub(v, rc_(last))
                    ck.req(d is rc_(loc) or I.entails(F, int_eq(d, rc_(loc))), 'merge', 'repeat count', w, 'merging %s repeats raises the repeat count by %s' % (show(rc_(loc)), show(d)))
                    ck.req(I.entails(F, same) and I.entails(F, le(Int(1), I.length(cur))), 'merge', 'adjoining track', w, 'occurrences of different tracks may be merged')
                    ck.req(I.entails(F, int_eq(end, at_(loc))), 'merge', 'adjoining position', w, 'occurrences that do not follow each other directly may be merged')
                    ck.req(I.entails(F, le(v, Int(255))), 'merge', 'range', w, 'a repeat count may exceed 255')
    ck.floor(n, 3, 'merge', 'cases')
    for s, v in R.rets:
        ck.req(v.op == 'phi' and any(v is h.store.get(V) for h in hs), 'merge', 'result', s.trace, 'the result is %s' % show(v))


def p15_best(ck):
    """a sequence offered for extraction is the label of the path to a node, with the occurrences recorded there"""
    cons = ck.fn(TREE + '::consolidate_locations', (('&' + VT % LOC, 'usize'), VT % LOC))
    key = ck.fn(TREE + '::best_sequence', (('&' + TREE,), None))
    I, R = ck.analyse(key, opaque=lambda k: k == cons, cap=100)
    fec, fet, flo = ck.field(EDGE, 'commands'), ck.field(EDGE, 'target'), ck.field(TREE, 'locations')
    fsc, fsl = ck.field(SEQ, 'commands'), ck.field(SEQ, 'locations')
    no_overflow2(ck, I, R)
    seqs = {t for x in R.nodes for t in walk_terms(x) if t.op == 'adt' and t.args[0] == SEQ}
    seqs |= {t for s, v in R.rets for t in subterms(v) if t.op == 'adt' and t.args[0] == SEQ}
    ck.floor(len(seqs), 1, 'candidates', 'sequences offered')
    for c in seqs:
        cm, lo = c.args[3][fsc], c.args[3][fsl]
        if cm.op == 'phi' and lo.op == 'phi': continue     # one of the others
        ok = lo.op in ('app', 'res') and cons in lo.args
        if not ck.req(ok, 'candidates', 'occurrences', None, 'the occurrences of a candidate are %s' % show(lo)[:200]): continue
        a = lo.args[1:] if lo.op == 'app' else lo.args[-1]
        src, ln = a[0], a[1]
        src = strip_ref(I, src)
        ck.req(ln is I.length(cm), 'candidates', 'length', None, 'adjoining occurrences are %s commands apart, the sequence has %s' % (show(ln), show(I.length(cm))))
        ok = src.op == 'fld' and src.args[2] == flo
        if not ck.req(ok, 'candidates', 'node', None, 'the occurrences of a candidate come from %s' % show(src)[:200]): continue
        t = src.args[0]
        while t.op == 'fld' and not (t.args[2] == fet and t.args[3] == 'target'): t = t.args[0]
        edge = t.args[0] if t.op == 'fld' else None
        ok = cm.op == 'ext' and edge is not None and cm.args[1].op == 'fld' and cm.args[1].args[0] is edge and cm.args[1].args[2] == fec
        ck.req(ok, 'candidates', 'label', None, 'the commands of a candidate are %s, which is not the label of its node' % show(cm)[:200])


def walk_terms(x):
    for d in x.data:
        if isinstance(d, Term):
            for t in subterms(d): yield t
        elif isinstance(d, tuple):
            for e in d:
                if isinstance(e, Term):
                    for t in subterms(e): yield t


def no_overflow2(ck, I, R):
    for x in R.nodes:
        if x.kind == 'assert' and x.data[0] == 'overflow':
            op, a, b = x.data[2][:3]
            wide = any(abs(lin_parts(t.args[0])[0]) >= 2 ** 62 for t in subterms(x.data[1]) if t.op in ('ge0', 'eq0'))
            usz = all((t.ty or 'usize') == 'usize' for t in (a, b))
            if op == 'Sub': ck.req(usz, 'totals', 'score', x, '%s - %s may overflow' % (show(a), show(b)))
            else: ck.req(wide, 'totals', 'overflow', x, '%s of %s and %s may overflow' % (op, show(a), show(b)))
        elif x.kind == 'lossy':
            ck.req(False, 'totals', 'narrowing', x, '%s may be cut off' % show(x.data[1]))


def p15_equal(ck):
    """commands that compare equal are equal"""
    for path in (PC, CMD):
        key = '<%s as core::cmp::PartialEq>::eq' % path
        if key not in ck.prog.fns: raise Missing('comparison of ' + path)
        I, R = ck.analyse(key, cap=400, branches=True)
        a, b = (D(I, t) for t in R.args)
        adt_ = ck.adt(path)
        n = 0
        sid = {x.id for x in R.nodes if x.kind == 'start'}
        memo = {}
        for s, v, F in [(s, v, events_facts(q, s.facts)) for s, v in R.rets if v is not FALSE for q in back_paths(s.trace, sid, lambda x: x.kind == 'br', memo)]:
            F = F | ({v} if v is not TRUE else set())
            kinds = lambda t: {i for i in range(len(adt_['variants'])) if not I.entails(F, Not(mk('var', t, i)))}
            if len(adt_['variants']) > 1 and any(f.op == 'eq0' and sum(1 for t in lin_parts(f.args[0])[1] if t.op == 'discr') == 2 for f in F):
                both = kinds(a) & kinds(b)
                if not both: continue
                if len(both) == 1: F = F | {mk('var', a, min(both)), mk('var', b, min(both))}
            n += 1
            eqs = {frozenset(t.args[-2:]) for f in F for t in conj(f) if t.op == 'eq' or t.op == 'app' and t.args[0] == 'eq'}
            iseq = lambda x, y: x is y or frozenset((x, y)) in eqs or I.entails(F, int_eq(x, y)) if I.is_intval(x) else x is y or frozenset((x, y)) in eqs
            vs = range(len(adt_['variants']))
            if len(adt_['variants']) > 1:
                live = [i for i in vs if not I.entails(F, Not(mk('var', a, i)))]
                if len(live) > 1 and not any(adt_['variants'][i]['fields'] for i in live): continue
                if not ck.req(len(live) == 1 or not any(adt_['variants'][i]['fields'] for i in live), 'equality', 'kind', s.trace, 'different kinds of commands compare equal'): continue
                vs = live
            for i in vs:
                for j, (name, ty) in enumerate(adt_['variants'][i]['fields']):
                    vi = i if len(adt_['variants']) > 1 else None
                    x, y = field(a, vi, j, name, ty), field(b, vi, j, name, ty)
                    ck.req(iseq(x, y) or opt_eq(I, F, x, y), 'equality', '%s.%s' % (adt_['variants'][i]['name'], name), s.trace, 'commands that differ in %s compare equal' % name)
        ck.floor(n, 1, 'equality', 'ways to be equal')


def conj(f):
    if f.op == 'and': return conj(f.args[0]) + conj(f.args[1])
    return [f]


def opt_eq(I, F, x, y):
    for f in F:
        for t in conj(f):
            if t.op not in ('ge0', 'eq0', 'not', 'var', 'or') and x in t.args and y in t.args: return True
    return False



# ------------------------------------------------------------------ P16
def p16(ck):
    """forward analysis over the MIR of the repeat search with command-kind facts: what is known of a command where it is put on an edge, and of a prefix where it is shared ::
    Every command put on a new edge is known not to be a call loop (or a pitch slide, at its end); every path that shares a prefix knows that its first command is no
    tie at the start of a sequence and that its last is no pitch slide unless nothing follows on either side; labels are otherwise only cut from existing ones (P15).
    The candidate returned is known to have more than three commands and a total repeat count above one."""
    key = ck.fn(TREE + '::add_commands', (('&mut ' + TREE, '&[%s]' % PC, 'usize', 'usize', 'usize'), '()'))
    I, R = ck.analyse(key, cap=200, branches=True)
    self_, cref, T, C, N = R.args
    cmds = D(I, cref)
    CL = I.length(cmds)
    fed, fec, fet = ck.field(TREE, 'edges'), ck.field(EDGE, 'commands'), ck.field(EDGE, 'target')
    fcmd = ck.field(PC, 'command')
    edges = field(D(I, self_), None, fed, 'edges', VT % EDGE)
    cl, sl, tie = (ck.variant(CMD, n) for n in ('CallLoop', 'PitchSlide', 'Tie'))
    kind = lambda t: field(t, None, fcmd, 'command', CMD)
    H = ('H', self_)
    sid = {x.id for x in R.nodes if x.kind == 'start'}
    # what gets onto edges
    n = 0
    for x in R.nodes:
        if x.kind != 'push' or x.data[2].op != 'adt' or x.data[2].args[0] != EDGE: continue
        lab = x.data[2].args[3][fec]
        s, a, b = as_slice(I, lab)
        if s.op == 'fld' and s.args[2] == fec: continue        # part of an existing label
        n += 1
        bad, elems = eligible(I, R, lab, cl, kind, set())
        ck.req(not bad, 'no call loops', 'on an edge', bad[0] if bad else x, 'a call loop may become part of a repeated sequence')
        ck.req(elems > 0 or s is not cmds, 'no call loops', 'filtered', x, 'a repeated sequence is not searched for call loops')
    ck.floor(n, 1, 'no call loops', 'new edges')
    # shared prefixes
    calls = [x for x in R.nodes if x.kind == 'call' and x.data[0] == key]
    n = 0
    memo = {}
    estore = lambda y: y.kind == 'store' and y.data[0] == H and edge_path(y.data[1], fed) is not None
    epush = lambda y: y.kind == 'push' and y.data[2].op == 'adt' and y.data[2].args[0] == EDGE and y.data[0] == H
    for x in calls:
        a = x.data[1]
        t = a[0]
        ep = edge_path(t.args[1], fed) if t.op == 'ref' and t.args[0] == H else None
        if not ck.req(ep is not None, 'shared prefix', 'target', x, 'cannot tell which edge is followed'): continue
        P = sub(a[4], N)
        old = field(I.index(None, edges, ep[1]), None, fec, 'commands', VT % PC)
        for q in back_paths(x, sid, lambda y: estore(y) or epush(y) or y.kind == 'br', memo):
            F = events_facts(q, x.facts)
            if track_contradictory(I, F) or any(epush(y) for y in q): continue
            n += 1
            # the prefix as commands
            firsts, lasts = aliases(I, R, F, cmds, Int(0)), aliases(I, R, F, cmds, addc(P, -1))
            ck.req(any(I.entails(F, Not(mk('var', kind(c), tie))) for c in firsts) or I.entails(F, le(Int(1), N)), 'shared prefix', 'tie', x, 'a shared sequence may start with a tie')
            whole = I.entails(F, le(CL, P)) and I.entails(F, le(I.length(old), P))
            ok = whole or any(I.entails(F, Or(Not(mk('var', kind(c), sl)), And(le(CL, P), le(I.length(old), P)))) for c in lasts)
            ck.req(ok, 'shared prefix', 'slide', x, 'a shared sequence may end in a pitch slide that is continued')
    ck.floor(n, 1, 'shared prefix', 'shared prefixes')
    # what is extracted
    cons = ck.fn(TREE + '::consolidate_locations', (('&' + VT % LOC, 'usize'), VT % LOC))
    key = ck.fn(TREE + '::best_sequence', (('&' + TREE,), None))
    I, R = ck.analyse(key, opaque=lambda k: k == cons, cap=100)
    fsc, fsl = ck.field(SEQ, 'commands'), ck.field(SEQ, 'locations')
    frc = ck.field(LOC, 'repeat_count')
    n = 0
    for s, v in R.rets:
        for v2, f2, l2 in resolve(I, v):
            if is_none(v2): continue
            if not ck.req(v2.op == 'adt' and payload(v2).op == 'adt', 'candidate', 'result', s.trace, 'the sequence extracted is %s' % show(v2)[:120]): continue
            c = payload(v2)
            for cm, f, l in resolve(I, c.args[3][fsc]):
                F = (f or f2 or s.facts)
                n += 1
                ck.req(I.entails(F, le(Int(4), I.length(cm))), 'candidate', 'length', s.trace, 'a sequence of three or fewer commands may be extracted')
                ok = any(total(I, t, cons, I.length(cm), frc) for g in F if g.op in ('ge0', 'not') for t in subterms(g) if t.op == 'phi' and I.entails(F, le(Int(2), t)))
                ck.req(ok, 'candidate', 'repeats', s.trace, 'a sequence that occurs only once may be extracted')
    ck.floor(n, 1, 'candidate', 'ways to choose a sequence')


def total(I, t, cons, n, frc):
    """is t the sum of the repeat counts of the merged occurrences of a sequence of length n"""
    inc = 0
    for x, f, l in I.phi_in.get(t, ()):
        if x.op == 'int' and x.args[0] == 0 and l is None: continue
        d = sub(x, t)
        ok = d.op == 'fld' and d.args[2] == frc and d.args[0].op == 'idx'
        if not ok: return False
        b = d.args[0].args[0]
        if b.op == 'app' and b.args[0] == cons and b.args[2] is n: inc += 1
    return inc > 0


def eligible(I, R, v, cl, kind, seen):
    """pushes of commands that may be call loops into the vector v; how many pushes there are"""
    if v in seen: return [], 0
    seen.add(v)
    bad, n = [], 0
    if v.op == 'phi':
        for x in R.nodes:
            if x.kind == 'push' and x.data[3] is v:
                n += 1
                e = x.data[2]
                if not I.entails(x.facts, Not(mk('var', kind(e), cl))): bad.append(x)
        for x, f, l in I.phi_in.get(v, ()):
            b, m = eligible(I, R, x, cl, kind, seen)
            bad, n = bad + b, n + m
    elif v.op in ('push', 'ext', 'sub'):
        b, m = eligible(I, R, v.args[0], cl, kind, seen)
        bad, n = bad + b, n + m
        if v.op == 'ext':
            b, m = eligible(I, R, v.args[1], cl, kind, seen)
            bad, n = bad + b, n + m
    return bad, n


def aliases(I, R, F, cmds, i):
    """terms in F that stand for cmds[i]"""
    out = [I.index(None, cmds, i)]
    for f in F:
        for t in subterms(f):
            s, j = None, None
            if t.op == 'idx': s, j, e = t.args[0], t.args[1], t
            if t.op == 'deref' and t.args[0].op == 'idx': s, j, e = t.args[0].args[0], t.args[0].args[1], t
            if s is None or not I.entails(F, int_eq(j, i)): continue
            if s is cmds or s.op == 'phi' and built_from(I, R, s, cmds, ()): out.append(e)
    return out


RULES = {'P14': p14, 'P15': p15, 'P16': p16}
