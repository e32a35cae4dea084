"""P01-P09: reading, laying out and writing the ROM image."""
import itertools
from .base import *
from types import SimpleNamespace as ns
from .encode import vbits
from .safe import dropped

ASSUME = ['A file opened with OpenOptions without create/truncate is not changed by opening it, and Read/Seek do not change it.',
          'Vec::splice over a range with an iterator of the same length overwrites exactly that range.',
          'The sound-RAM address of every placed byte fits in 16 bits (chunk address + chunk length <= 0x10000 in the source ROM).']
ARAM = 0xd000
WT = 'nspc::Song::write_track'
EMPTY = 'nspc::Song::empty'


def io_fns(ck):
    ck.fn('rom::write')
    ck.fn(WT)


# ------------------------------------------------------------------ the model
class Store(object):
    """one write to the image: bytes [start, end) := value"""

    def __init__(self, n, start, end, val):
        self.n, self.start, self.end, self.val = n, start, end, val
        self.facts, self.loops, self.where = n.facts, n.loops, n.where


class Rom(object):
    def __init__(self, ck):
        self.ck = ck
        ck.fn('rom::write')
        wt = ck.fn(WT, (('&nspc::Song', '&mut core::io::cursor::Cursor<alloc::vec::Vec<u8>>', 'usize', '&mut alloc::vec::Vec<nspc::CallLoopRef>'), None))
        self.wt = wt
        fl = ck.field('manifest::Song', 'loops')

        def keep(f):
            g = f.args[0] if f.op == 'not' else f
            return g.op == 'fld' and g.args[2] == fl and 'manifest::Song' in (g.args[0].ty or 'manifest::Song')
        self.I, self.R = ck.analyse('rom::write', opaque=lambda k: k in (wt, EMPTY), keep=keep)
        R = self.R
        reads = R.events('fread')
        if len(reads) != 1: raise Missing('single read of the ROM file')
        self.read = reads[0]
        self.file = self.read.data[0]
        self.filedata = self.read.data[1]
        self.writes = R.events('fwrite')
        # the image: the local that holds the file's bytes when the banks are written
        self.heads = loop_heads(R)
        self.calls = R.events('call', lambda n: n.data[0] == wt)
        if not self.calls: raise Missing('call of Song::write_track in the ROM writer')
        lo = {n.loops[:3] for n in self.calls}
        if len(lo) != 1 or len(list(lo)[0]) != 3: raise Missing('bank, song and track loops around Song::write_track')
        self.lbank, self.lsong, self.ltrack = list(lo)[0]
        roots = set()
        for h in self.heads[self.lbank]:
            for e in h.ents:
                for r, v in e.store.items():
                    if v is self.filedata: roots.add(r)
        if len(roots) != 1: raise Missing('buffer holding the ROM image (%d candidates)' % len(roots))
        self.root = list(roots)[0]
        self.stores = []
        self.odd = []
        for n in R.nodes:
            if n in self.I.absorbed: continue
            if n.kind == 'store' and n.data[0] == self.root:
                p = n.data[1]
                if len(p) == 1 and p[0][0] == 'i': self.stores.append(Store(n, p[0][1], addc(p[0][1], 1), n.data[2]))
                elif len(p) == 1 and p[0][0] == 'rng': self.stores.append(Store(n, p[0][1], p[0][2], n.data[2]))
                else: self.odd.append(n)
            elif n.kind in ('push', 'ext', 'vpop', 'vtrunc', 'vremove', 'vinsert') and n.data[0] == self.root:
                self.odd.append(n)
        self.kbank = self.kap(self.lbank)
        self.ksong = self.kap(self.lsong)
        self.ktrack = self.kap(self.ltrack)
        self.mtriples = None

    def kap(self, lid):
        for h in self.heads[lid]:
            for v in h.store.values():
                for t in subterms(v):
                    if t.op == 'kap' and t.args[1] == lid: return t
        for n in self.R.nodes:
            for f in n.facts:
                for t in subterms(f):
                    if t.op == 'kap' and t.args[1] == lid: return t
        raise Missing('index of loop %s' % lid)

    # chunks ------------------------------------------------------------
    def chunk_len(self, c, a):
        return add(self.at(c, a), scale(self.at(c, addc(a, 1)), 256))

    def chunk_aram(self, c, a):
        return add(self.at(c, addc(a, 2)), scale(self.at(c, addc(a, 3)), 256))

    def at(self, c, i):
        return self.I.index(None, c, i)

    def headers(self, facts):
        """(content, address) of chunk headers known to load to 0xD000"""
        r = []
        for f in facts:
            if f.op != 'eq0': continue
            for g in (f.args[0], scale(f.args[0], -1)):
                c, d = lin_parts(g)
                if c != -ARAM: continue
                for t, k in d.items():
                    if k == 1 and t.op == 'idx':
                        a = addc(t.args[1], -2)
                        if addc(self.chunk_aram(t.args[0], a), -ARAM) is g and (t.args[0], a) not in r: r.append((t.args[0], a))
        return r

    def pair(self, c, a):
        """base and overflow chunk (start, length, sound-RAM address) for a base header at a"""
        L = self.chunk_len(c, a)
        b = addc(add(a, L), 4)
        return ((addc(a, 4), L, Int(ARAM)), (addc(b, 4), self.chunk_len(c, b), self.chunk_aram(c, b)))

    def found(self):
        """{base chunk start: (base triple, overflow triple, note)}: variables of search loops that are only ever set together"""
        if self.mtriples is not None: return self.mtriples
        out = []
        for lid, hs in self.heads.items():
            if lid in (self.lsong, self.ltrack): continue
            grp = hs
            cands = []
            its = nexts(grp)
            maps = [(tr, b, headmap(h, b), [want5(self.pair(c, a)) for c, a in self.headers(b.facts)]) for hn, tr, b, h in its]

            def check(tup):
                for tr, b, m, wants in maps:
                    vals = [m.get(x, x) for x in tup]
                    if all(v is x for v, x in zip(vals, tup)): continue
                    if vals in wants: continue
                    return tr, [show(v) for v in vals]
                return None
            for tr, b, m, wants in maps:
                for want in wants:
                    inv = {}
                    for k, v in m.items(): inv.setdefault(v, []).append(k)
                    if want[0] not in inv or want[2] not in inv: continue
                    # several variables may hold the same value after one step: the right ones agree on all of them
                    alts = list(itertools.islice(itertools.product(*[inv.get(w, [None]) for w in want]), 4096))
                    good = [t for t in alts if None not in t and check(t) is None]
                    cands += [t for t in (good or alts[:1]) if t not in cands]
            for tup in cands:
                e = None in tup and (maps[0][0], 'not all kept') or check(tup)
                if e: self.badscan = e
                out.append((tup, lid, not e))
            if any(g for t, l, g in out if l == lid): out = [x for x in out if x[1] != lid or x[2]]
        self.mtriples = out
        return out

    def chunks(self, facts):
        """the chunk pairs that can be meant at a point with these facts: [(base triple, overflow triple)]"""
        r = []
        for tup, lid, good in self.found():
            if good:
                B, BL, O, OL, OA = tup
                r.append(((B, BL, Int(ARAM)), (O, OL, OA)))
        for c, a in self.headers(facts):
            r.append(self.pair(c, a))
        return r

    def locate(self, s, start=None):
        """(which, offset in chunk, triple, pair): the chunk that a store goes to"""
        start = s.start if start is None else start
        for P in self.chunks(s.facts):
            for w, t in ((0, P[0]), (1, P[1])):
                d = sub(start, t[0])
                c, p = lin_parts(t[0])
                dd = lin_parts(d)[1]
                if all(x not in dd for x in p): return w, d, t, P
        return None

    def untranslate(self, v, P):
        """image address of sound-RAM address v"""
        B, O = P
        c, d = lin_parts(O[2])
        dv = lin_parts(v)[1]
        if d and all(dv.get(x) == k for x, k in d.items()):
            return add(O[0], sub(v, O[2]))
        return add(B[0], sub(v, B[2]))

    # element substitution for vectors filled in the track loop
    def entails(self, facts, c):
        return c is TRUE or self.I.entails(facts, c)


def want5(P):
    return [P[0][0], P[0][1], P[1][0], P[1][1], P[1][2]]


def strip_mask(t, m):
    while t.op == 'bin' and t.args[0] == 'BitAnd' and t.args[2].op == 'int' and t.args[2].args[0] & m == m: t = t.args[1]
    return t


def pointer(lo, hi):
    """the value whose low 16 bits are stored as (lo, hi), or None"""
    if lo.op == 'int' and hi.op == 'int':
        return Int(lo.args[0] + 256 * hi.args[0])
    h = strip_mask(hi, 255)
    if h.op == 'bin' and h.args[0] == 'Shr' and h.args[2] is Int(8):
        v = strip_mask(h.args[1], 0xffff)
        if strip_mask(lo, 255) is strip_mask(binop('BitAnd', v, Int(255), 'usize'), 255): return v
        if binop('BitAnd', v, Int(255), 'usize') is lo: return v
        if bits(lo, 8) == bits(v, 8): return v
    if h.op != 'bin' and lin_parts(h)[1]:
        # (a + k) >> 8 folded into a sum: compare bits
        pass
    return None


def bytes_of(s):
    """a store as single bytes {address: value} when its extent is constant"""
    n = sub(s.end, s.start)
    if n is Int(1) and s.val.op not in ('vec', 'rep'): return {s.start: s.val}
    if n.op == 'int' and s.val.op == 'vec' and len(s.val.args[0]) == n.args[0]:
        return {addc(s.start, i): x for i, x in enumerate(s.val.args[0])}
    if n.op == 'int' and s.val.op == 'rep' and n.args[0] <= 64:
        return {addc(s.start, i): s.val.args[0] for i in range(n.args[0])}
    return None


# ------------------------------------------------------------------ P01
def p01(ck):
    """event-order (typestate) analysis over all paths of the ROM writer, with a who-may-write scan of the crate ::
    The ROM file is opened read/write without create, truncate or append; the only modification is one complete write of
    the whole image buffer at offset 0, outside every loop, reached only after the loop over all banks ended without an
    error; every success return passes it and every error return that can follow it carries that write's own error. No
    function reachable from the writer or the converters uses another file-modifying call."""
    r = Rom(ck)
    I, R = r.I, r.R
    for n in R.events('fopen'):
        o = n.data[0]
        ok = o.op == 'adt' and [x is TRUE for x in o.args[3]] == [True, True, False, False, False, False]
        same = n.data[1] is R.args[1] or n.data[1] is mk('deref', R.args[1])
        ck.req(ok and same, 'open', 'rom file', n, 'the ROM file is opened as %s (%s); expected read and write only' % (show(o), show(n.data[1])))
    ck.req(len(R.events('fopen')) == 1, 'open', 'count', None, 'the ROM writer opens %d files' % len(R.events('fopen')))
    ws = r.writes
    ck.req(len(ws) == 1, 'single write', 'count', ws[1] if len(ws) > 1 else None, '%d write events to files in the ROM writer, expected one' % len(ws))
    for n in ws:
        ck.req(n.data[0] == 'write_all', 'single write', 'complete', n, 'the image is written with %s, which can write only a part' % n.data[0])
        ck.req(n.data[1] is r.file, 'single write', 'file', n, 'the write goes to %s' % show(n.data[1]))
        ck.req(not n.loops, 'single write', 'outside loops', n, 'the ROM file is written inside a loop')
        cur = current(r, n)
        ck.req(n.data[2] is cur, 'single write', 'whole image', n, 'what is written is %s, not the whole image' % show(n.data[2]))
        before = reach_back(n)
        seeks = [x for x in before.values() if x.kind in ('fs', 'seek') and x.data[0] in ('seek', 'rewind', 'set_len')]
        def at_start(x):
            return x.kind == 'fs' and (x.data[0] == 'rewind' or x.data[0] == 'seek' and x.data[2] and show(x.data[2][0]) == 'Start(0)') and x.data[1] is r.file
        last = []
        st, seen = list(n.preds), set()
        while st:           # what moved the cursor last?
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.kind in ('fs', 'fread', 'fopen', 'seek') and (len(x.data) < 2 or x.data[1] is r.file or x.data[0] is r.file or x.kind == 'fopen'): last.append(x)
            else: st.extend(ins(x))
        ck.req(last and all(at_start(x) for x in last), 'single write', 'offset 0', n, 'the image is written without first seeking to the start of the file')
        # after all banks
        hs = [h for h in r.heads[r.lbank]]
        ids = {h.id for h in hs}
        ck.req(on_every_path(n, lambda x: x.id in ids), 'after the last bank', 'dominated by the bank loop', n, 'the file can be written without going through the banks')
        banks = manifest_banks(r)
        ck.req(any(r.entails(n.facts, le(I.length(b), r.kbank)) for b in banks), 'after the last bank', 'all banks done', n, 'the file can be written before the last bank is done')
        # no error of a bank is pending
        for f, what in pending_errors(r, n): ck.req(False, 'after the last bank', what, n, 'the file is written although %s may have failed' % what)
        ck.req(True, 'after the last bank', 'no pending error', n, '')
    # every song of every bank, every track of every song: the loops end only when nothing is left, and no error is swallowed
    for n in ws:
        back = reach_back(n)
        for lid, kap, what, ty in ((r.lsong, r.ksong, 'songs', 'manifest::Song'), (r.ltrack, r.ktrack, 'tracks', 'nspc::track::Track')):
            ex = [x for x in R.events('exit', lambda x: x.data[0] == lid) if x.id in back]
            ck.floor(len(ex), 1, 'nothing left out', 'exits of the loop over the %s' % what)
            bad = [x for x in ex if not left_none(r, x, kap, ty)]
            ck.req(not bad, 'nothing left out', what, bad[0] if bad else n, 'the image can be written although the loop over the %s ended before the last one' % what)
    dropped(ck, ns(fns={}), 'rom::write', I, R)
    wid = {n.id for n in ws}
    oks = errs = 0
    for s, v in R.rets:
        n = s.trace
        if is_ok(v):
            oks += 1
            ck.req(on_every_path(n, lambda x: x.id in wid), 'outcome', 'success writes the image', n, 'success is reported without the image having been written')
        elif is_err(v):
            errs += 1
            after = any(x in wid for x in reach_back(n))
            own = any(w.data[3] in subterms(payload(v)) for w in ws if len(w.data) > 3 and isinstance(w.data[3], Term))
            ck.req(not after or own, 'outcome', 'error leaves the file alone', n, 'the error %s can be reported after the file was changed' % show(payload(v)))
        else:
            # a passed-on Result
            after = any(x in wid for x in reach_back(n))
            ck.req(after and any(w.data[3] in subterms(v) for w in ws), 'outcome', 'other', n, 'returns %s' % show(v))
            oks += 1
    ck.floor(oks, 1, 'outcome', 'success returns')
    ck.floor(errs, 3, 'outcome', 'error returns')
    for n in R.events('fs'):
        ck.req(n.data[0] in ('seek', 'rewind', 'stream_position', 'metadata', 'flush', 'sync_all', 'sync_data'), 'no other change', str(n.data[0]), n, 'the ROM writer uses %s on a file' % n.data[0])
    for n in R.events('lib'):
        if any(a is r.file or (isinstance(a, Term) and a.op == 'ref' and r.file in subterms(a)) for a in flat(n.data[1:])) and n.data[0] not in ('std::fs::File::metadata',):
            ck.req(False, 'no other change', str(n.data[0]), n, 'the ROM file handle is passed to %s' % n.data[0])
    # who may write files at all
    allowed = {'rom::write', 'rom::gen_fake_rom', 'nspc::Song::write_to_json'}
    reach = reachable(ck.prog, [k for k in ck.prog.fns if k.startswith('<')] + ['rom::write', 'converter', 'song_from_midi', 'nspc::Song::from_json', 'nspc::Song::from_midi'])
    sites = 0
    for k in sorted(reach):
        for c, sp in direct_calls(ck.prog.fns[k]):
            if modifies_files(c):
                sites += 1
                ck.req(k in I.analysed, 'who writes files', '%s:%s' % (k, c), (k, sp), '%s calls %s while songs are converted and placed' % (k, c))
    ck.floor(sites, 1, 'who writes files', 'file-modifying call sites')
    ck.notes.append('functions reachable from the ROM writer and the converters: %d' % len(reach))


def flat(x):
    for a in x:
        if isinstance(a, tuple):
            for b in flat(a): yield b
        else: yield a


MODIFY = ('std::fs::write', 'std::fs::File::create', 'std::fs::File::create_new', 'std::fs::OpenOptions::open', 'std::fs::File::set_len',
          'std::fs::remove_file', 'std::fs::rename', 'std::fs::copy', 'std::fs::remove_dir', 'std::fs::create_dir', 'std::fs::File::options',
          'std::fs::remove_dir_all', 'std::fs::hard_link', 'std::fs::set_permissions', 'std::process::Command', 'std::os::unix::fs')


def modifies_files(c):
    return any(c == m or c.startswith(m + '::') for m in MODIFY) or (c.endswith('Write::write') or c.endswith('Write::write_all')) and False


def current(r, n):
    """content of the image at event n: what its buffer holds after the bank loop"""
    hs = r.heads[r.lbank]
    for h in hs:
        v = h.store.get(r.root)
        if v is not None: return v
    return None


def left_none(r, x, kap, ty):
    """is nothing left of a vector of `ty` when loop index kap is where it is at event x?"""
    seen = set()
    for f in x.facts:
        if kap not in subterms(f): continue
        for t in subterms(f):
            if t.op == 'len' and t not in seen:
                seen.add(t)
                if ty in (t.args[0].ty or '') and r.entails(x.facts, le(t, kap)): return True
    return False


def manifest_banks(r):
    """the vector of banks the bank loop runs over"""
    out = set()
    for n in r.R.nodes:
        for f in n.facts:
            for t in subterms(f):
                if t.op == 'idx' and t.args[1] is r.kbank and (t.args[0].ty or '').find('manifest::Bank') >= 0: out.add(t.args[0])
    return out


def pending_errors(r, n):
    """fallible calls made for a bank whose failure is not excluded when the file is written"""
    out = []
    hs = {h.id: h for h in r.heads[r.lbank]}
    # a loop-carried Result: the write is only reached from the heads where it is Ok
    st, seen, hd = list(n.preds), set(), []
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.id in hs: hd.append(hs[x.id]); continue
        st.extend(x.preds)
    for h in hd:
        for root, v in h.store.items():
            if v.op == 'adt' and is_err(v): out.append((v, 'a bank'))
    return out



# ------------------------------------------------------------------ P02
def no_resize(ck, r):
    for n in r.odd:
        ck.req(False, 'image size', n.kind, n, 'the image buffer is changed by %s' % n.kind)
    for s in r.stores:
        if s.n.data[1][0][0] == 'rng':
            n = sub(s.end, s.start)
            ck.req(r.entails(s.facts, int_eq(r.I.length(s.val), n)), 'image size', 'range store', s, 'a range of %s bytes is replaced by %s bytes' % (show(n), show(r.I.length(s.val))))


def p02(ck):
    """interval and provenance analysis of every store into the image buffer, with relational checks of the chunk search loop ::
    Every store to the image (indexed, spliced or filled) has a target of the form chunk start + offset, where the chunk is
    the one whose header read 0xD000 or the one directly behind it (the search variables are only ever set together from one
    such header), and offset and end are proved within the chunk's length at that point; range stores replace as many bytes
    as they write; nothing else changes the buffer. A bank whose chunks were not found is not written to."""
    r = Rom(ck)
    found(ck, r)
    no_resize(ck, r)
    n = 0
    for s in r.stores:
        n += 1
        L = r.locate(s)
        if L is None:
            fixup(ck, r, s, 'inside a chunk', bounds=True)
            continue
        within(ck, r, s, L, 'inside a chunk')
    ck.floor(n, 8, 'inside a chunk', 'stores into the image')


def within(ck, r, s, L, rule):
    w, d, t, P = L
    end = add(d, sub(s.end, s.start))
    name = ('base', 'overflow')[w]
    inst = '%s chunk store %s' % (name, site(s))
    ck.req(r.entails(s.facts, le(Int(0), d)) or low_ok(r, s, d), rule, inst + ' start', s, 'a byte at offset %s of the %s chunk is not known to be behind its start' % (show(d), name))
    ck.req(r.entails(s.facts, le(end, t[1])), rule, inst + ' end', s, 'bytes up to offset %s of the %s chunk are written, which is not known to be within its length %s' % (show(end), name, show(t[1])))
    ck.req(known_chunk(r, s, P), rule, inst + ' found', s, 'the %s chunk is written to although it may not have been found' % name)


def low_ok(r, s, d):
    """offsets are sums of unsigned quantities"""
    c, p = lin_parts(d)
    fb = r.I.bounds(s.facts)
    lo = fb.range(d)[0]
    return lo is not None and lo >= 0


def site(s):
    return s.n.where[0].split('::')[-1] + '/' + '/'.join('%d' % (i + 1) for i in range(len(s.loops)))


def known_chunk(r, s, P):
    """the search variables of this pair were set: their initial value is excluded here"""
    for tup, lid, good in r.found():
        if good and P[0][0] is tup[0]:
            init = [e for h in r.heads[lid] for e in h.ents]
            m = [headmap(h, e).get(x) for h in r.heads[lid] for e in h.ents for x in tup[:1]]
            m2 = [headmap(h, e).get(x) for h in r.heads[lid] for e in h.ents for x in tup[2:3]]
            a = all(v is None or r.entails(s.facts, Not(int_eq(tup[0], v))) for v in m)
            b = all(v is None or r.entails(s.facts, Not(int_eq(tup[2], v))) for v in m2)
            return a or b
    return True


def found(ck, r):
    n = 0
    for tup, lid, good in r.found():
        n += 1
        ck.req(good, 'chunk search', 'variables set together', r.heads[lid][0], 'the chunk search sets start, length and address of the two chunks from different headers: %s' % (getattr(r, 'badscan', (0, ''))[1],))
    if not n and not any(r.headers(s.facts) for s in r.stores):
        ck.req(False, 'chunk search', 'found', None, 'no chunk is ever identified by its address 0xD000')
    else:
        ck.req(True, 'chunk search', 'found', None, '')


def elements(r, s):
    """terms of s that are elements of vectors filled in the track loop: {vector: [element term]}"""
    out = {}
    for t in (s.start, s.end, s.val):
        for u in subterms(t):
            if u.op == 'idx' and u.args[0].op in ('phi', 'push') and u.args[1].op == 'kap': out.setdefault(u.args[0], [])
            if u.op == 'idx' and u.args[0].op in ('phi', 'push') and u.args[1].op == 'kap' and u not in out[u.args[0]]: out[u.args[0]].append(u)
    return out


def vec_pushes(r, vec):
    """the push events whose values can be elements of vec (a phi), and whether it starts empty"""
    seen, st, pushes, empty = set(), [vec], [], True
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v)
        if v.op == 'phi':
            for x, f, l in r.I.phi_in.get(v, ()): st.append(x)
        elif v.op == 'push':
            st.append(v.args[0])
            pushes.append(v.args[1])
        elif v.op == 'vec':
            pushes.extend(v.args[0])
        elif v.op == 'ext':
            st.append(v.args[0])
            pushes.append(None)
        else:
            empty = False
    return pushes, empty


def track_of(n, r):
    """the write_track call whose output a term stems from: its argument snapshot"""
    for t in subterms(n):
        if t.op == 'res' and t.args[1].startswith(r.wt): return t.args[3]
    return None


def fixup(ck, r, s, rule, bounds=False):
    """a store at an address kept in a list while the tracks were placed: every entry of the list is the start of a track
    placed just before, plus the position the track writer reported for that same track. -> [(which, X, entry, facts)]"""
    els = elements(r, s)
    if len(els) != 1 or any(len(v) != 1 for v in els.values()):
        ck.req(False, rule, 'address of ' + site(s), s, 'a store at %s, which is not the address of anything placed' % show(s.start))
        return []
    vec, (el,) = list(els.items())[0]
    pushes = [n for n in r.R.nodes if n.kind == 'push' and r.ltrack in n.loops and n.data[1] == () and n.data[2] in set(vec_pushes(r, vec)[0])]
    all_p, empty = vec_pushes(r, vec)
    out = []
    ok = bool(pushes) and empty and None not in all_p
    ck.req(ok, rule, 'list of ' + site(s), s, 'the list of addresses to fix up is filled elsewhere than where tracks are placed')
    for p in pushes:
        e = p.data[2]
        start = subst(s.start, {el: e})
        val = subst(s.val, {el: e})
        for q in last_placements(r, p):
            args = track_of(q.val, r)
            pos = sub(start, q.start)
            d = addc(pos, 0)
            base = lin_parts(pos)[1]
            src = [t for t in base if track_of(t, r) == args and args is not None]
            c = lin_parts(pos)[0]
            good = args is not None and len(base) == 1 and list(base.values()) == [1] and len(src) == 1 and 0 <= c <= 1 and is_refpos(ck, src[0])
            ck.req(good, rule, 'address of ' + site(s), s, 'the address %s is not (start of the track just placed, %s) + (position reported for that track)' % (show(start), show(q.start)))
            out.append((c, q, e, p, val))
        if not last_placements(r, p): ck.req(False, rule, 'address of ' + site(s), p, 'an address to fix up is recorded for a track that was not placed')
    return out


def is_refpos(ck, t):
    return t.op == 'fld' and t.args[2] == ck.field('nspc::CallLoopRef', 'ref_pos') and t.args[0].op == 'idx'


def last_placements(r, n):
    """the track placements that can be the last one before event n, in the same iteration of the track loop"""
    by = {s.n.id: s for s in r.stores if r.ltrack in s.loops}
    hs = {h.id for h in r.heads[r.ltrack]}
    out, seen, st = [], set(), [n]
    while st:
        x = st.pop()
        if x.id in seen or x.id in hs: continue
        seen.add(x.id)
        if x.id in by:
            if by[x.id] not in out: out.append(by[x.id])
            continue
        st.extend(ins(x))
    return out


# ------------------------------------------------------------------ P03
def p03(ck):
    """capacity obligations at every placement, proved from the path conditions that hold there ::
    At every store of a song header, part table or track, on every path, the conditions already tested imply that the whole
    object ends within the declared length of the chunk it goes to (object extents from the layout: header + 16-byte table,
    whole track). On every path where placement moves to the overflow chunk, it starts at its first byte and the tested
    conditions imply that the object does not fit in the base chunk; the move is never undone."""
    r = Rom(ck)
    found(ck, r)
    lay = Layout(ck, r)
    n = 0
    for song in lay.songs():
        for s in song.direct:
            L = r.locate(s)
            if L is None or s in song.slots: continue
            n += 1
            w, d, t, P = L
            S = r.locate(s, song.S)
            if S is None or S[0] != w:
                ck.req(False, 'header fits', 'chunk', s, 'header bytes are written to different chunks')
                continue
            end = addc(S[1], song.hl + 16)
            ck.req(r.entails(s.facts, le(end, t[1])), 'header fits', ('base', 'overflow')[w], s, 'a song header with its part table up to offset %s is written without knowing that this is within the chunk length %s' % (show(end), show(t[1])))
    ck.floor(n, 8, 'header fits', 'header stores')
    n = 0
    for s in lay.tracks:
        n += 1
        L = r.locate(s)
        if L is None:
            ck.req(False, 'track fits', 'chunk', s, 'a track is placed at %s, not in a chunk' % show(s.start))
            continue
        w, d, t, P = L
        ck.req(r.entails(s.facts, le(add(d, sub(s.end, s.start)), t[1])), 'track fits', ('base', 'overflow')[w], s, 'a track up to offset %s is placed without knowing that this is within the chunk length %s' % (show(add(d, sub(s.end, s.start))), show(t[1])))
    ck.floor(n, 2, 'track fits', 'track stores')
    # moving to the overflow chunk
    moves = 0
    for f, segs in lay.segments():
        for (w0, p0), items in segs:
            for s, (w, d, t, P), size in items:
                if w0 == 0 and w == 1:
                    moves += 1
                    ck.req(d is Int(0), 'overflow', 'starts at the first byte', s, 'the first object in the overflow chunk is placed at offset %s' % show(d))
                    ck.req(r.entails(s.facts, le(addc(P[0][1], 1), add(p0, size))), 'overflow', 'only when needed', s, 'an object moves to the overflow chunk although it may fit in the base chunk')
                    w0, p0 = 1, add(d, size)
                elif w0 == 1 and w == 0:
                    ck.req(False, 'overflow', 'never undone', s, 'an object is placed in the base chunk after the overflow chunk was started')
                else:
                    p0 = add(d, size)
    ck.floor(moves, 2, 'overflow', 'moves to the overflow chunk')


class Song(object):
    pass


class Layout(object):
    """what one iteration of the song loop writes, on every path through it"""

    def __init__(self, ck, r):
        self.ck, self.r = ck, r
        R = r.R
        self.by = {s.n.id: s for s in r.stores}
        self.tracks = [s for s in r.stores if r.ltrack in s.loops]
        self.songloop = r.heads[r.lsong]
        self.grp = self.songloop
        self.ids = {h.id for h in self.grp}
        self.inner = {}
        for s in r.stores:
            if s.loops[:2] == (r.lbank, r.lsong) and len(s.loops) > 2: self.inner.setdefault(s.loops[2], []).append(s)
        self._songs = None
        self.tgrp = r.heads[r.ltrack]

    def heads_on(self, x):
        return x.kind == 'loop' and x.loops[:-1] == (self.r.lbank, self.r.lsong)

    def songs(self):
        """every path of stores through the song loop: Song(slots, direct, S, hl, loops, inner heads, end state)"""
        if self._songs is not None: return self._songs
        r, ck = self.r, self.ck
        out, seen = [], set()
        sym = lambda x: (x.id in self.by and x.loops == (r.lbank, r.lsong)) or (self.heads_on(x) and x.data[0] in self.inner)
        for hn, tr, b, h in nexts(self.grp):
            for q in back_paths(tr, self.ids, sym):
                key = (tuple((x.kind, x.data[1:] if x.kind == 'store' else x.id) for x in q), h.id)
                if key in seen: continue
                seen.add(key)
                so = Song()
                so.head, so.next, so.end, so.b = q[0], h, tr, b
                so.items = q[1:]
                so.direct = [self.by[x.id] for x in so.items if x.kind == 'store']
                so.loops = [x for x in so.items if x.kind == 'loop']
                so.slots = [s for s in so.direct if r.ksong in subterms(s.start)]
                self.interpret(so)
                out.append(so)
        self._songs = out
        ck.floor(len(out), 4, 'layout', 'paths through the song loop')
        return out

    def interpret(self, so):
        """the song's address according to its table slot, and its header length according to the loop flag"""
        r, ck = self.r, self.ck
        by = {}
        for s in so.slots:
            m = bytes_of(s)
            if m is None: raise Missing('song table slot written byte by byte')
            by.update({a: (v, s) for a, v in m.items()})
        so.slotbytes = by
        addrs = sorted(by, key=lambda a: lin_parts(a)[0])
        so.S = None
        so.slot = None
        if len(addrs) == 2 and sub(addrs[1], addrs[0]) is Int(1):
            v = pointer(by[addrs[0]][0], by[addrs[1]][0])
            so.slot = addrs[0]
            so.songptr = v
            if v is not None:
                # the chunk pair in use is the one the slot lies in
                L = r.locate(by[addrs[0]][1])
                if L is not None: so.S = r.untranslate(v, L[3])
        if so.S is None: raise Missing('address that the song table receives')
        fl = flags(r, so.b.facts, ck)
        for s in so.direct: fl = fl or flags(r, s.facts, ck)
        so.flag = fl
        so.hl = 8 if fl == 1 else 4 if fl == 0 else None
        if so.hl is None: raise Missing('loop setting on a path through the song loop')

    # placement frontier ------------------------------------------------
    def frontier(self):
        """(loop variable of the song loop, of the track loop) that holds the next free offset"""
        r = self.r
        tv, sv = set(), set()
        for s in self.tracks:
            L = r.locate(s)
            if L is None: continue
            for t in lin_parts(L[1])[1]:
                if t.op == 'phi' and t.args[1] == r.ltrack: tv.add(t)
        for so in self.songs():
            L = r.locate(so.slots[0], so.S)
            if L is None: continue
            for t in lin_parts(L[1])[1]:
                if t.op == 'phi' and t.args[1] == r.lsong: sv.add(t)
        if len(tv) != 1 or len(sv) != 1: raise Missing('variable that holds the next free offset in a chunk')
        return list(sv)[0], list(tv)[0]

    def chunk_of_head(self, h, var, stores):
        """the chunk in which objects are placed at `var` when an iteration starts at head h"""
        r = self.r
        w = set()
        for s, start in stores:
            L = r.locate(s, start)
            if L is None: continue
            if L[1] is var or var in lin_parts(L[1])[1]: w.add(L[0])
        if len(w) > 1: raise Missing('chunk in use at the start of an iteration')
        return w.pop() if w else None

    def segments(self):
        """[(kind, [((chunk, next free offset) at the start, [(store, location, size)])])] for both loops"""
        r = self.r
        sv, tv = self.frontier()
        self.schunk, self.tchunk = {}, {}
        songs, out = {}, []
        for so in self.songs():
            songs.setdefault(so.head.id, []).append((so.slots[0], so.S))
        for h in self.grp: self.schunk[h.id] = self.chunk_of_head(h, sv, songs.get(h.id, []))
        tr = {}
        hs = {h.id for h in self.tgrp}
        sym = lambda x: x.id in self.by
        self.tpaths = []
        for hn, end, b, h in nexts(self.tgrp):
            for q in back_paths(end, hs, sym):
                self.tpaths.append((q[0], [self.by[x.id] for x in q[1:]], end, b, h))
                for x in q[1:]: tr.setdefault(q[0].id, []).append((self.by[x.id], self.by[x.id].start))
        for h in self.tgrp: self.tchunk[h.id] = self.chunk_of_head(h, tv, tr.get(h.id, []))
        a = []
        for so in self.songs():
            if self.schunk[so.head.id] is None: continue
            s = so.slots[0]
            L = r.locate(s, so.S)
            a.append(((self.schunk[so.head.id], sv), [(s, L, Int(so.hl + 16))]))
        out.append(('song', a))
        a = []
        for h, ss, end, b, h2 in self.tpaths:
            if self.tchunk[h.id] is None: continue
            a.append(((self.tchunk[h.id], tv), [(s, r.locate(s), sub(s.end, s.start)) for s in ss if r.locate(s)]))
        out.append(('track', a))
        return out


def flags(r, facts, ck):
    """is the current song known to loop (1), not to loop (0)?"""
    fi = ck.field('manifest::Song', 'loops')
    for f in facts:
        g = f.args[0] if f.op == 'not' else f
        if g.op == 'fld' and g.args[2] == fi and is_song(r, g.args[0]): return 0 if f.op == 'not' else 1
    return None


def is_song(r, t):
    """the manifest song of the current iteration"""
    return t.op == 'idx' and t.args[1] is r.ksong and t.args[0].op == 'fld' and t.args[0].args[0].op == 'idx' and t.args[0].args[0].args[1] is r.kbank


# ------------------------------------------------------------------ P04, P05
def p04(ck):
    """pointer correspondence: every stored 16-bit value is mapped back through the address map of its chunk and compared with where the object was placed ::
    On every path through the song loop: song-table slot, header pointer and loop target are little-endian and map back to
    the song's header, its part table (directly behind the header) and the header again. The list of track addresses gets
    exactly one entry per track: the sound-RAM address of the place where that track's bytes were put on the same path, or 0
    on paths where the track is empty. Part-table slot k holds the entry of the part's k-th track; every call-loop address
    recorded by the track writer is filled with the entry of its target track at (start of that track) + (reported position)."""
    r = Rom(ck)
    found(ck, r)
    lay = Layout(ck, r)
    I = r.I
    for so in lay.songs():
        inst = path_name(r, so)
        L = r.locate(so.slots[0])
        P = L[3]
        hdr = header_bytes(ck, r, so)
        # header -> part table
        ptr = pointer(hdr[0], hdr[1]) if 0 in hdr and 1 in hdr else None
        ck.req(ptr is not None, 'header pointer', inst, so.slots[0], 'the first two header bytes are not one little-endian pointer: %s' % show_bytes(hdr))
        if ptr is not None:
            so.pt = r.untranslate(ptr, P)
            ck.req(so.pt is addc(so.S, so.hl), 'header pointer', inst, so.slots[0], 'the header points to image offset %s, its part table is at %s' % (show(so.pt), show(addc(so.S, so.hl))))
        if so.flag:
            lp = pointer(hdr[4], hdr[5]) if 4 in hdr and 5 in hdr else None
            ck.req(lp is not None and r.untranslate(lp, P) is so.S, 'loop target', inst, so.slots[0], 'the loop target of the song is %s, not the song itself' % (show(lp) if lp is not None else None))
        part_slots(ck, r, lay, so, inst, contents=True)
        fix_loops(ck, r, lay, so, inst)
    for n in r.calls:
        # what the track writer reports, and what it writes, is of this track only
        for t, a in zip(ck.prog.fns[r.wt]['locals'][1:], n.data[2]):
            if 'CallLoopRef' in t: ck.req(r.entails(n.facts, eq0(I.length(a))), 'call loops', 'fresh list', n, 'the call loops of earlier tracks are still listed when a track is written')
            elif a.op == 'adt' and a.args[0].endswith('Cursor'):
                ck.req(r.entails(n.facts, eq0(I.length(payload(a, 0)))) and r.entails(n.facts, eq0(payload(a, 1))), 'track list', 'fresh buffer', n, 'a track is written behind other data')
    track_list(ck, r, lay)


def path_name(r, so):
    L = r.locate(so.slots[0], so.S)
    inp = 'file' if any(f.op == 'var' and f.args[1] == 1 and f.args[0].op == 'fld' and is_song(r, f.args[0].args[0]) for s in so.direct for f in s.facts) else 'empty'
    return '%s %s %s' % (('base', 'overflow')[L[0]] if L else '?', 'loop' if so.flag else 'once', inp)


def show_bytes(m):
    return ' '.join('%d:%s' % (k, show(v)) for k, v in sorted(m.items()))


def header_bytes(ck, r, so):
    """bytes written at the song's own address, by offset (direct stores only)"""
    m = {}
    for s in so.direct:
        if s in so.slots: continue
        b = bytes_of(s)
        if b is None:
            ck.req(False, 'header', 'bytes', s, 'a header store of unknown extent at %s' % show(s.start))
            continue
        for a, v in b.items():
            d = sub(a, so.S)
            if d.op == 'int' and 0 <= d.args[0] < so.hl + 16: m[d.args[0]] = v
            else: ck.req(False, 'header', 'bytes', s, 'a store at %s, which is not part of the header of the song at %s' % (show(a), show(so.S)))
    return m


def song_term(r, so):
    """the song that the tracks of this path come from"""
    return None


def part_slots(ck, r, lay, so, inst, contents):
    """the loops that fill the part table; contents: compare the pointers, else only the extent"""
    I = r.I
    PT = addc(so.S, so.hl)
    zero = slots = None
    zeroed = False
    filled = False
    for h in so.loops:
        lid = h.data[0]
        ss = [s for s in lay.inner[lid] if belongs(s, h)]
        if lid == r.ltrack: continue
        k = mk_kap(r, lid)
        if k is None: continue
        els = [s for s in ss if elements_only(r, s)]
        if els: continue
        if not ss: continue
        if all(is_zero(s) for s in ss):
            # a clearing loop
            lo = [s for s in ss if s.start is add(PT, k)]
            if lo and not each_time(h, {s.n.id for s in lo}): lo = []
            if lo and I.entails(so.b.facts | h.facts, le(Int(16), k)) or lo and exit_at(r, so, h, k, Int(16)):
                zeroed = True
                if filled: ck.req(False, 'part table', inst + ' order', h, 'the part table is cleared after it was filled')
            for s in ss:
                d = sub(s.start, PT)
                if not contents: ck.req(I.entails(s.facts, le(Int(0), d)) and I.entails(s.facts, le(addc(d, 1), Int(16))), 'part table', inst + ' extent', s, 'a byte at %s is cleared, outside the part table' % show(d))
            continue
        filled = True
        grp = heads_into(h)
        ids = {x.id for x in grp}
        mine = {s.n.id: s for s in ss}
        whole, n, blank, seen = True, None, [], set()
        for hn, tr, b2, h2 in nexts(grp):
            for q in back_paths(tr, ids, lambda x: x.id in mine):
                key = (tuple(x.id for x in q[1:]), b2.facts)
                if key in seen: continue
                seen.add(key)
                by = {}
                for x in q[1:]:
                    s = mine[x.id]
                    m = bytes_of(s)
                    if m is None:
                        ck.req(False, 'part table', inst, s, 'a part table store of unknown extent')
                        continue
                    for a, v in m.items(): by[sub(a, PT)] = (v, s)
                two = set(by) == {scale(k, 2), addc(scale(k, 2), 1)}
                whole = whole and two
                if not contents:
                    for d, (v, s) in by.items():
                        ck.req(I.entails(s.facts, le(Int(0), d)) and I.entails(s.facts, le(addc(d, 1), Int(16))), 'part table', inst + ' extent', s, 'part table byte %s is not known to be within its 16 bytes' % show(d))
                    ck.req(not by or two, 'part table', inst + ' slots', h, 'slot k of the part table is not written as two bytes at 2k: %s' % [show(x) for x in by])
                    continue
                lo, hi = by.get(scale(k, 2)), by.get(addc(scale(k, 2), 1))
                if lo is None or hi is None:
                    nul = [t for f in b2.facts for t in subterms(f) if t.op == 'idx' and track_list_vec(r, lay, t.args[0]) and t.args[1].op == 'idx' and t.args[1].args[1] is k]
                    ok = not by and any(I.entails(b2.facts, eq0(t)) for t in nul)
                    ck.req(ok, 'part pointer', inst, h if not by else q[-1], 'slot k of the part table may not be written as two bytes at 2k')
                    continue
                v = pointer(lo[0], hi[0])
                if v is Int(0):
                    blank.append((b2, lo[1]))
                    continue
                ok = v is not None and v.op == 'idx' and track_list_vec(r, lay, v.args[0])
                ck.req(ok, 'part pointer', inst, lo[1], 'part table slot k receives %s, not the address of a track' % (show(v) if v is not None else 'no single little-endian value'))
                if ok:
                    t = v.args[1]
                    good = t.op == 'idx' and t.args[1] is k and t.args[0].op == 'fld' and (t.args[0].args[3] == 'tracks' or True) and part0(ck, t.args[0])
                    ck.req(good, 'part pointer', inst + ' order', lo[1], 'slot k of the part table is for track %s, not for the k-th track of the part' % show(t))
                    if good:
                        n = I.length(t.args[0])
                        ck.req(exit_at(r, so, h, k, n), 'part pointer', inst + ' all', h, 'not all tracks of the part get a slot')
                        own_song(ck, r, lay, so, t, inst)
        # slots behind the last track
        for b2, s in blank:
            ck.req(n is not None and I.entails(b2.facts, le(n, k)), 'part pointer', inst, s, 'part table slot k receives 0, not the address of a track')
        if whole and seen and exit_at(r, so, h, k, Int(8)): zeroed = True
    # clearing by one range store
    for s in so.direct:
        b = bytes_of(s)
        if b and all(v is Int(0) for v in b.values()) and all(addc(PT, i) in b for i in range(16)): zeroed = True
    so.zeroed, so.filled = zeroed, filled


def each_time(h, ids):
    """does every iteration of the loop run of h pass one of these nodes?"""
    grp = heads_into(h)
    n = 0
    for hn, tr, b, h2 in nexts(grp):
        n += 1
        if counts(tr, grp, lambda x: x.id in ids)[0] < 1: return False
    return n > 0


def own_song(ck, r, lay, so, t, inst):
    """the part and the tracks come from the same song"""
    song = t.args[0].args[0].args[0].args[0]       # song.parts[0].tracks[k]
    ok = False
    for n in r.calls:
        ref = n.data[2][0]
        if ref is song: ok = True
    ck.req(ok, 'part pointer', inst + ' song', so.slots[0], 'the part table is made from %s, not from the song whose tracks were placed' % show(song))


def part0(ck, t):
    """t is song.parts[0].tracks"""
    return t.op == 'fld' and t.args[2] == ck.field('nspc::Part', 'tracks') and t.args[0].op == 'idx' and t.args[0].args[1] is Int(0) and \
        t.args[0].args[0].op == 'fld' and t.args[0].args[0].args[2] == ck.field('nspc::Song', 'parts')


def belongs(s, h):
    """does store s lie in an iteration that starts at a head of the loop run of h?"""
    ids = {x.id for x in heads_into(h)}
    st, seen = [s.n], set()
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.kind == 'loop' and x.data[0] == h.data[0]: return x.id in ids
        st.extend(x.preds)
    return False


def mk_kap(r, lid):
    for s in r.stores:
        if lid in s.loops:
            for t in list(subterms(s.start)) + [u for f in s.facts for u in subterms(f)]:
                if t.op == 'kap' and t.args[1] == lid: return t
    return None


def elements_only(r, s):
    """a store at an address that is itself an element of a list"""
    return any(u.op == 'idx' and u.args[0].op in ('phi', 'push') and u.args[0].ty != 'alloc::vec::Vec<u8>' for u in subterms(s.start))


def is_zero(s):
    return s.val is Int(0) or s.val.op == 'rep' and s.val.args[0] is Int(0) or s.val.op == 'vec' and all(x is Int(0) for x in s.val.args[0])


def exit_at(r, so, h, k, n):
    """on this path the loop of head h has run to k >= n"""
    if r.entails(so.b.facts, le(n, k)): return True
    nx = after(so, h)
    return any(r.entails(x.facts, le(n, k)) for x in nx)


def after(so, h):
    i = so.items.index(h)
    return [x for x in so.items[i + 1:i + 2]]


def track_list_vec(r, lay, v):
    """is v the list that gets one entry per track?"""
    return v.op == 'phi' and v.args[1] == r.ltrack


def track_list(ck, r, lay):
    """one entry per track: where it was placed"""
    I = r.I
    vecs = set()
    for s in r.stores:
        if s.loops[:2] == (r.lbank, r.lsong):
            for u in subterms(s.val):
                if u.op == 'idx' and track_list_vec(r, lay, u.args[0]) and (u.args[0].ty or '').find('usize') >= 0: vecs.add(u.args[0])
    ck.req(len(vecs) == 1, 'track addresses', 'one list', None, '%d lists of track addresses' % len(vecs))
    lay.segments()
    n = 0
    for vec in vecs:
        for h in lay.tgrp:
            for e in h.ents:
                v = headmap(h, e).get(vec)
                ck.req(v is not None and I.length(v) is Int(0), 'track addresses', 'starts empty', h, 'the list of track addresses of a song starts as %s' % (show(v) if v is not None else 'unknown'))
        sym = lambda x: x.id in lay.by or x.kind == 'push'
        hs = {h.id for h in lay.tgrp}
        for hn, end, b, h in nexts(lay.tgrp):
            nv = headmap(h, b).get(vec)
            ok = nv is not None and nv.op == 'push' and nv.args[0] is vec
            ck.req(ok, 'track addresses', 'one entry per track', end, 'a step of the track loop turns the list of track addresses into %s' % (show(nv) if nv is not None else 'unknown'))
            if not ok: continue
            entry = nv.args[1]
            for q in back_paths(end, hs, sym):
                n += 1
                placed = [lay.by[x.id] for x in q[1:] if x.id in lay.by]
                data = track_data(r, q[0], b, end)
                if not placed:
                    empty = any(r.entails(b.facts, int_eq(I.length(d), Int(0))) for d in data)
                    ck.req(empty, 'track addresses', 'empty track', end, 'a track that may have data is not placed')
                    ck.req(entry is Int(0), 'track addresses', 'empty track', end, 'an empty track gets the address %s instead of 0' % show(entry))
                    continue
                ck.req(len(placed) == 1, 'track addresses', 'placed once', placed[-1], 'a track is written %d times' % len(placed))
                s = placed[-1]
                L = r.locate(s)
                if L is None: ck.req(False, 'track addresses', 'placed', s, 'track placed at %s' % show(s.start)); continue
                ck.req(r.untranslate(entry, L[3]) is s.start, 'track addresses', ('base', 'overflow')[L[0]], s, 'a track placed at image offset %s is recorded under sound-RAM address %s' % (show(s.start), show(entry)))
                ck.req(any(s.val is d for d in data), 'track addresses', 'bytes', s, 'what is placed is %s, not the bytes of the track' % show(s.val))
        # the track loop goes over all tracks of the song, in order
        for c in r.calls:
            ck.req(c.data[2][2] is r.ktrack, 'track addresses', 'track order', c, 'step k of the track loop writes track %s' % show(c.data[2][2]))
            song = c.data[2][0]
            ft = ck.field('nspc::Song', 'tracks')
            ok = False
            for so in lay.songs():
                pass
            tr = field(song, None, ft, 'tracks', None)
            ends = [x for x in r.R.nodes if x.loops == (r.lbank, r.lsong) and x.kind == 'loop' or x.kind == 'loop' and x.loops[:2] == (r.lbank, r.lsong)]
        for so in lay.songs():
            fs = so.b.facts
            songs = {c.data[2][0] for c in r.calls}
            ok = any(r.entails(fs, le(I.length(tracks_of(ck, g)), r.ktrack)) for g in songs)
            ck.req(ok, 'track addresses', 'all tracks', so.end, 'the track loop can end before the last track')
    ck.floor(n, 4, 'track addresses', 'paths through the track loop')


def tracks_of(ck, song):
    i = ck.field('nspc::Song', 'tracks')
    ty = ck.adt('nspc::Song')['variants'][0]['fields'][i][1]
    return field(song, None, i, 'tracks', ty)


def track_data(r, head, b, end):
    """the bytes that the track writer produced in this step"""
    out = set()
    st, seen = [end], set()
    hs = {h.id for h in r.heads[r.ltrack]}
    while st:
        x = st.pop()
        if x.id in seen or x.id in hs: continue
        seen.add(x.id)
        if x.kind == 'call' and x.data[0] == r.wt:
            args = x.data[2]
            for v in b.store.values(): pass
            # the buffer behind the cursor argument, after the call
            out |= outputs(r, x)
        st.extend(ins(x))
    return out


def outputs(r, call):
    """terms for the bytes in the cursor after a write_track call"""
    out = set()
    snap = call.data[2]
    for s in r.stores:
        for t in subterms(s.val):
            if t.op == 'fld' and t.args[0].op == 'res' and t.args[0].args[1].startswith(r.wt) and t.args[0].args[3] == snap: out.add(t)
    for n in r.R.nodes:
        for f in n.facts:
            if f.op in ('ge0', 'eq0'):
                for u in subterms(f):
                    if u.op == 'len' and u.args[0].op == 'fld' and u.args[0].args[0].op == 'res' and u.args[0].args[0].args[1].startswith(r.wt) and u.args[0].args[0].args[3] == snap: out.add(u.args[0])
    return out


def fix_loops(ck, r, lay, so, inst):
    """every reported call loop gets the address of its target"""
    I = r.I
    done = False
    for h in so.loops:
        lid = h.data[0]
        if lid == r.ltrack: continue
        ss = [s for s in lay.inner[lid] if belongs(s, h) and elements_only(r, s)]
        if not ss: continue
        done = True
        k = mk_kap(r, lid)
        vec = None
        mine = {}
        for s in ss:
            els = elements(r, s)
            if len(els) == 1:
                vec, e = list(els.items())[0]
                ck.req(len(e) == 1 and e[0].args[1] is k, 'call loops', inst + ' element', s, 'the fix-up loop does not take the list element by element')
            mine[s.n.id] = (s, fixup(ck, r, s, 'call loops'))
        # every way through an iteration writes both bytes
        grp = heads_into(h)
        ids = {x.id for x in grp}
        ways = {}
        for hn, tr, b2, h2 in nexts(grp):
            for w in back_paths(tr, ids, lambda x: x.id in mine): ways[tuple(x.id for x in w[1:])] = tr
        for w, tr in ways.items():
            ck.req(w, 'call loops', inst + ' each', tr, 'a recorded call loop may be left without an address')
        for w in ways:
            got = {}
            for i in w:
                for c, q, e, p, val in mine[i][1]: got.setdefault((q, e), {})[c] = (val, mine[i][0])
            for (q, e), m in got.items():
                if 0 not in m or 1 not in m:
                    ck.req(False, 'call loops', inst + ' bytes', mine[w[0]][0], 'only one byte of a call-loop address is written')
                    continue
                v = pointer(m[0][0], m[1][0])
                ok = v is not None and v.op == 'idx' and track_list_vec(r, lay, v.args[0])
                tgt = v.args[1] if ok else None
                good = ok and tgt.op == 'fld' and tgt.args[2] == ck.field('nspc::CallLoopRef', 'target_track') and tgt.args[0].op == 'idx' and track_of(tgt, r) == track_of(q.val, r)
                ck.req(good, 'call loops', inst + ' target', m[0][1], 'a call loop receives %s, not the address of its target track' % (show(v) if v is not None else 'no little-endian value'))
        if vec is not None:
            ck.req(exit_at(r, so, h, k, I.length(vec)), 'call loops', inst + ' all', h, 'not every recorded call loop is filled in')
            # recording: one entry per call loop reported, for every placed track
            recorded(ck, r, lay, vec, inst)
    ck.req(done, 'call loops', inst + ' present', so.end, 'call-loop addresses are not filled in')


def recorded(ck, r, lay, vec, inst):
    if getattr(lay, '_recorded', None) is vec: return
    lay._recorded = vec
    I = r.I
    hs = {h.id for h in lay.tgrp}
    vals = set(vec_pushes(r, vec)[0])
    for n in r.R.nodes:
        if n.kind == 'push' and n.data[2] in vals:
            # inside a loop over the reported call loops
            inner = n.loops[-1]
            src = [t for t in subterms(n.data[2]) if t.op == 'idx' and track_of(t, r) is not None and t.args[1].op == 'kap' and t.args[1].args[1] == inner]
            ck.req(bool(src) and inner != r.ltrack, 'call loops', 'recorded one by one', n, 'what is recorded is %s' % show(n.data[2]))
            if not src: continue
            k = src[0].args[1]
            reps = src[0].args[0]
            grp = [h for h in r.heads[inner]]
            for g in grp:
                for hn, tr, b, h in nexts([g]):
                    c = counts(tr, g.grp or [g], lambda x: x.kind == 'push' and x.data[2] in vals)
                    ck.req(c == (1, 1), 'call loops', 'recorded once', tr, 'a reported call loop is recorded %s times' % (c,))
            lay.reps = getattr(lay, 'reps', {})
            lay.reps.setdefault(reps, k)
    # on every path that places a track, the recording loop runs to the end
    sym = lambda x: x.id in lay.by
    for hn, end, b, h in nexts(lay.tgrp):
        for q in back_paths(end, hs, sym):
            if len(q) < 2: continue
            ok = any(r.entails(b.facts, le(I.length(reps), k)) for reps, k in getattr(lay, 'reps', {}).items())
            ck.req(ok, 'call loops', 'all recorded', end, 'not every call loop that the track writer reported for a placed track is recorded')


def p05(ck):
    """exact header contents per loop setting on every path; coverage analysis of the part table ::
    On every path through the song loop the bytes stored directly at the song's address are exactly part pointer, 0x00FF,
    loop target, 0x0000 (8 bytes) when the song's loop flag is known true there and part pointer, 0x0000 (4 bytes) when it is
    known false; on every path the 16 bytes behind are first all set to zero, and pointer stores to slot k stay within them."""
    r = Rom(ck)
    lay = Layout(ck, r)
    for so in lay.songs():
        inst = path_name(r, so)
        hdr = header_bytes(ck, r, so)
        hdr = {k: v for k, v in hdr.items() if k < so.hl}
        ck.req(sorted(hdr) == list(range(so.hl)), 'header', inst + ' length', so.slots[0], 'a %s header has the bytes %s' % ('looping' if so.flag else 'non-looping', sorted(hdr)))
        want = {2: 0xff, 3: 0, 6: 0, 7: 0} if so.flag else {2: 0, 3: 0}
        for o, v in want.items():
            ck.req(hdr.get(o) is Int(v), 'header', inst + ' byte %d' % o, so.slots[0], 'header byte %d is %s, expected %d' % (o, show(hdr[o]) if o in hdr else 'not written', v))
        part_slots(ck, r, lay, so, inst, contents=False)
        ck.req(so.zeroed, 'part table', inst + ' cleared', so.end, 'the 16 bytes of the part table are not all cleared before it is filled')
        ck.req(so.filled, 'part table', inst + ' filled', so.end, 'no track pointers are written to the part table')


# ------------------------------------------------------------------ P06
def p06(ck):
    """allocation-frontier analysis: inductive check over the song and track loops that each placement starts at or after the end of the previous one ::
    For every path of both loops: an object is placed at or after the loop variable that holds the next free offset (or at the
    start of the overflow chunk when moving there), the variable's next value is at or after the object's end, the chunk never
    moves back, the song loop hands its frontier (behind header and part table) to the track loop and takes it back; it starts
    behind the song table. Late stores go only to the part table reserved on the same path or to reported call-loop positions."""
    r = Rom(ck)
    found(ck, r)
    lay = Layout(ck, r)
    lay.segments()
    sv, tv = lay.frontier()
    E = r.entails
    # the track loop
    for h, ss, end, b, h2 in lay.tpaths:
        w, p = lay.tchunk[h.id], tv
        if w is None:
            # no track is ever placed from here on; the song loop may not go on placing either
            if ss or lay.tchunk[h2.id] is not None: ck.req(False, 'tracks', 'chunk', h, 'cannot tell which chunk a track goes to')
            continue
        for s in ss:
            L = r.locate(s)
            if L is None: ck.req(False, 'tracks', 'chunk', s, 'a track is placed at %s' % show(s.start)); continue
            if L[0] == w: ck.req(E(s.facts, le(p, L[1])), 'tracks', 'behind the previous piece', s, 'a track is placed at offset %s, before the end %s of the previous piece' % (show(L[1]), show(p)))
            elif w == 1: ck.req(False, 'tracks', 'chunk', s, 'a track is placed in the base chunk after the overflow chunk was started')
            w, p = L[0], add(L[1], sub(s.end, s.start))
        nv = headmap(h2, b).get(tv)
        w2 = lay.tchunk[h2.id]
        moved = w == 0 and w2 == 1 and nv is not None and E(b.facts, le(Int(0), nv))      # on to the overflow chunk, where nothing is yet
        if w2 is None: continue         # nothing is placed from there on
        ck.req(moved or nv is not None and w2 == w and E(b.facts, le(p, nv)), 'tracks', 'frontier advances', end, 'after a track that ends at %s, the next one is placed at %s' % (show(p), show(nv) if nv is not None else '?'))
    ck.floor(len(lay.tpaths), 4, 'tracks', 'paths through the track loop')
    # from the song to its tracks
    for so in lay.songs():
        inst = path_name(r, so)
        w, p = lay.schunk[so.head.id], sv
        if w is None: ck.req(False, 'songs', 'chunk', so.head, 'cannot tell which chunk a song goes to'); continue
        L = r.locate(so.slots[0], so.S)
        if L[0] == w: ck.req(E(so.slots[0].facts, le(p, L[1])), 'songs', inst + ' behind the previous piece', so.slots[0], 'a song is placed at offset %s, before the end of the previous piece' % show(L[1]))
        elif w == 1: ck.req(False, 'songs', inst + ' chunk', so.slots[0], 'a song is placed in the base chunk after the overflow chunk was started')
        ts = [x for x in so.loops if x.data[0] == r.ltrack]
        ck.req(len(ts) == 1, 'songs', inst + ' tracks', so.end, 'a song places its tracks %d times' % len(ts))
        for t in ts:
            n = 0
            for e in path_entries(so, t):
                n += 1
                ev = headmap_any(t, e).get(tv)
                te = [g for g in heads_into(t) if e in (g.ents or ())]
                w3 = lay.tchunk[te[0].id] if te else None
                good = ev is not None and (w3 == L[0] or w3 is None) and E(e.facts, le(addc(L[1], so.hl + 16), ev))
                ck.req(good, 'songs', inst + ' tracks behind the part table', t, 'the first track of a song at offset %s is placed at %s' % (show(L[1]), show(ev) if ev is not None else '?'))
            ck.req(n > 0, 'songs', inst + ' tracks', t, 'tracks are not placed after the header')
            # back to the song loop
            nv = headmap(so.next, so.b).get(sv)
            wn = lay.schunk[so.next.id]
            wt = lay.tchunk[t.id] if t.id in lay.tchunk else None
            wt = exit_chunk(lay, so, t)
            ck.req(nv is not None and E(so.b.facts, le(tv, nv)) and (wn is None or wn in wt), 'songs', inst + ' next song behind the tracks', so.end, 'the next song is placed at %s, the tracks end at %s' % (show(nv) if nv is not None else '?', show(tv)))
            ck.req(len(wt) <= 1, 'songs', inst + ' chunk after the tracks', t, 'cannot tell the chunk after the tracks')
        late(ck, r, lay, so, inst)
    # the first song is behind the song table
    for h in lay.grp:
        for e in h.ents:
            v = headmap(h, e).get(sv)
            w = lay.schunk[h.id]
            bank = [t for f in e.facts for t in subterms(f) if t.op == 'len' and t.args[0].op == 'fld' and t.args[0].args[0].op == 'idx' and t.args[0].args[0].args[1] is r.kbank]
            first = firsts(r, lay)
            ok = v is not None and w == 0 and first is not None and any(E(e.facts, le(scale(add(first, n), 2), v)) for n in bank)
            ck.req(ok, 'songs', 'first song behind the song table', h, 'the first song of a bank is placed at %s, which is not known to be behind the song table' % (show(v) if v is not None else '?'))


def firsts(r, lay):
    """global number of the bank's first song, from the table slots"""
    s = set()
    for so in lay.songs():
        L = r.locate(so.slots[0], so.slot)
        if L is None: return None
        d = sub(L[1], scale(r.ksong, 2))
        c, p = lin_parts(d)
        if c % 2 or any(k % 2 for k in p.values()): return None
        s.add(mk_lin(c // 2, {t: k // 2 for t, k in p.items()}))
    return s.pop() if len(s) == 1 else None


def headmap_any(t, e):
    for g in heads_into(t):
        if e in (g.ents or ()): return headmap(g, e)
    return {}


def path_entries(so, t):
    """the states entering the track loop from the stores of this path"""
    i = so.items.index(t)
    prev = so.items[i - 1].id if i else so.head.id
    out = []
    for e in entries(t):
        # the last store before this entry
        st, seen, hit = [e.trace], set(), set()
        ids = {x.id for x in so.items[:i]} | {so.head.id}
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.id == prev: hit.add(x.id); continue
            if x.kind == 'store' or x.id == so.head.id: continue
            st.extend(ins(x))
        if prev in hit: out.append(e)
    return out


def exit_chunk(lay, so, t):
    """the chunks in use when the track loop of this path ends"""
    i = so.items.index(t)
    return {lay.tchunk[t.id]} - {None}


def late(ck, r, lay, so, inst):
    """stores after the tracks go to the reserved part table or to reported call-loop positions"""
    E = r.entails
    PT = addc(so.S, so.hl)
    seen = False
    for x in so.items:
        if x.kind == 'loop' and x.data[0] == r.ltrack: seen = True; continue
        ss = [lay.by[x.id]] if x.kind == 'store' else [s for s in lay.inner[x.data[0]] if belongs(s, x)]
        for s in ss:
            if s in so.slots: continue
            if elements_only(r, s):
                fixup(ck, r, s, 'late stores')
                continue
            d = sub(s.start, so.S)
            n = sub(s.end, s.start)
            ok = E(s.facts, le(Int(0), d)) and E(s.facts, le(add(d, n), Int(so.hl + 16)))
            ck.req(ok, 'late stores', inst, s, 'a store at %s, which is not within the header and part table of the song at %s' % (show(s.start), show(so.S)))


# ------------------------------------------------------------------ P07
def p07(ck):
    """slot arithmetic of the song table and coverage of the clearing loop, inductively over the bank and song loops ::
    On every path through the song loop exactly one two-byte slot is written, at base chunk + 2 * (number of the bank's first
    song + index of the song); the first number starts at 0 and grows by each bank's number of songs. After the songs every
    byte from the slot behind the last song up to the first song's offset is set to zero before the bank is done."""
    r = Rom(ck)
    found(ck, r)
    lay = Layout(ck, r)
    I = r.I
    first = firsts(r, lay)
    ck.req(first is not None, 'slot', 'address', None, 'the song table slot is not at base chunk + 2 * number')
    for so in lay.songs():
        inst = path_name(r, so)
        L = r.locate(so.slots[0], so.slot)
        ck.req(L is not None and L[0] == 0, 'slot', inst + ' chunk', so.slots[0], 'the song table slot is not in the base chunk')
        ck.req(len(so.slotbytes) == 2, 'slot', inst + ' bytes', so.slots[0], 'a song writes %d bytes of the song table' % len(so.slotbytes))
        hdr = header_bytes(ck, r, so)
        ck.req(0 in hdr and 1 in hdr, 'slot', inst + ' leads to the song', so.slots[0], 'the song table leads to %s, where no song header is written' % show(so.S))
    if first is None: return
    banks = manifest_banks(r)
    # accumulation over the banks
    fis = ck.field('manifest::Bank', 'songs')
    grp = r.heads[r.lbank]
    ck.req(first.op == 'phi' and first.args[1] == r.lbank, 'numbering', 'carried from bank to bank', grp[0], 'the number of the first song is %s' % show(first))
    if first.op == 'phi':
        n = 0
        for v, f, lid in I.phi_in.get(first, ()):
            n += 1
            if lid is None: ck.req(v is Int(0), 'numbering', 'starts at 0', grp[0], 'the first bank starts at song %s' % show(v))
            else:
                d = sub(v, first)
                ok = d.op == 'len' and d.args[0].op == 'fld' and d.args[0].args[2] == fis and d.args[0].args[0].op == 'idx' and d.args[0].args[0].args[1] is r.kbank
                ck.req(ok, 'numbering', 'grows by the songs of the bank', grp[0], 'after a bank the number of the first song becomes %s' % show(v))
        ck.floor(n, 2, 'numbering', 'sources of the first song number')
    # songs in order, all of them
    songs = None
    for n in r.R.nodes:
        for f in n.facts:
            for t in subterms(f):
                if is_song(r, t): songs = t.args[0]
    if songs is None: raise Missing('songs of the bank')
    # clearing
    sv, tv = lay.frontier()
    f0 = set()
    for h in lay.grp:
        for e in h.ents:
            v = headmap(h, e).get(sv)
            if v is not None: f0.add(v)
    ends = []
    for hn, tr, b, h in nexts(grp):
        if all(not is_errstate(x) for x in b.store.values()): ends.append((tr, b))
    nz = 0
    zs = [s for s in r.stores if r.lsong not in s.loops and r.lbank in s.loops]
    for s in zs:
        ck.req(is_zero(s), 'clearing', 'zeros', s, 'outside the song loop %s is written to the image' % show(s.val))
        L = r.locate(s)
        ck.req(L is not None and L[0] == 0, 'clearing', 'base chunk', s, 'bytes at %s are cleared' % show(s.start))
        if L is None: continue
        d, n = L[1], sub(s.end, s.start)
        ck.req(r.entails(s.facts, le(scale(add(first, I.length(songs)), 2), d)), 'clearing', 'behind the last slot', s, 'table bytes from %s are cleared, which may belong to a song' % show(d))
        ck.req(any(r.entails(s.facts, le(add(d, n), v)) for v in f0), 'clearing', 'before the first song', s, 'bytes up to %s are cleared, which may belong to song data' % show(add(d, n)))
    ck.floor(len(zs), 1, 'clearing', 'clearing stores')
    for tr, b in ends:
        cov = False
        for s in zs:
            L = r.locate(s)
            if L is None: continue
            d, n = L[1], sub(s.end, s.start)
            k = [t for t in lin_parts(d)[1] if t.op == 'kap' and t.args[1] == s.loops[-1]] if s.loops[-1] != r.lbank else []
            if k and dict(lin_parts(d)[1])[k[0]] == 1:
                same = {x.n.id for x in zs if x.loops == s.loops and x.start is s.start}
                if not all(each_time(h, same) for h in r.heads[s.loops[-1]] if belongs(s, h)): continue
                lo = sub(d, k[0])
                hi = [v for v in f0 if r.entails(b.facts, le(v, d))]
            elif s.loops[-1] == r.lbank:
                lo, hi = d, [v for v in f0 if r.entails(b.facts, le(v, add(d, n)))]
            else: continue
            if hi and r.entails(b.facts, le(lo, scale(add(first, I.length(songs)), 2))) and on_every_path(tr, lambda x: x.id == s.n.id or x.kind == 'loop' and x.data[0] in s.loops and x.data[0] != r.lbank): cov = True
        nz += 1
        ck.req(cov, 'clearing', 'complete', tr, 'a bank can be finished without clearing the table from its last slot up to the first song')
        ck.req(r.entails(b.facts, le(I.length(songs), r.ksong)), 'slot', 'all songs', tr, 'a bank can be finished before its last song')
    ck.floor(nz, 1, 'clearing', 'ends of a bank')


def is_errstate(v):
    return v.op == 'adt' and is_err(v)



# ------------------------------------------------------------------ P08, P09
class Walk(object):
    """a loop that walks the chunk list of a bank"""

    def __init__(self, ck, I, R, contents, base, within):
        self.ck, self.I, self.R = ck, I, R
        self.contents, self.base = contents, base
        self.hits = []
        heads = loop_heads(R)
        for lid, hs in heads.items():
            if lid == within or within not in hs[0].loops: continue
            vs = {}
            for h in hs:
                for e in h.ents:
                    for k, v in headmap(h, e).items():
                        n = sum(1 for t in subterms(v) if t.op == 'idx' and t.args[0] in contents)
                        if n >= 3 and not (v.ty or '').startswith('alloc'): vs.setdefault(k, set()).add(v)
            for k, v in vs.items():
                # it addresses the content
                if any(t.op == 'idx' and t.args[0] in contents and k in lin_parts(t.args[1])[1] for n in R.nodes for f in n.facts for t in subterms(f)) or \
                   any(n.kind == 'bounds' and k in lin_parts(n.data[0])[1] for n in R.nodes):
                    self.hits.append((lid, hs, k, v))

    def content_of(self, *terms):
        for t in terms:
            for u in subterms(t):
                if u.op == 'idx' and u.args[0] in self.contents: return u.args[0]
        return list(self.contents)[0]


def lorom(v, n=23):
    """X such that v is the file offset of SNES address X: 15 bits in the bank, bit 15 dropped, bank number above"""
    b = vbits(v, 24)
    if b is None: return None
    b0 = b[0]
    if not isinstance(b0, tuple): return None
    return [b[i] for i in range(15)], b[15:23], b[23]


def lorom_of(v, x):
    """is v the file offset of the SNES address with bits x (24 of them)?"""
    b = vbits(v, 24)
    xb = x if isinstance(x, list) else vbits(x, 32)
    if b is None or xb is None: return False
    top = xb[24] if len(xb) > 24 else 0
    return b[:15] == xb[:15] and b[15:23] == xb[16:24] and (b[23] == 0 or b[23] == top)


def check_walk(ck, I, R, contents, base, within, what):
    """-> (loop id, heads, address variable, content) of the chunk walk"""
    w = Walk(ck, I, R, contents, base, within)
    ck.req(len(w.hits) == 1, 'chunk walk', what + ' found', None, '%d loops that start at a pointer read from the ROM' % len(w.hits))
    if len(w.hits) != 1: return None
    lid, hs, a, starts = w.hits[0]
    h0 = hs[0]
    for v in starts:
        # the three bytes of the pointer
        b = vbits(v, 24)
        src = [set(x[0] for x in b[lo:hi] if isinstance(x, tuple)) for lo, hi in ((0, 8), (8, 15), (15, 23))]
        ok = all(len(x) == 1 for x in src)
        ck.req(ok, 'pointer', what + ' bytes', h0, 'the chunk list starts at %s, which is not made of one low, one high and one bank byte' % show(v))
        if not ok: continue
        lo, hi, bk = [list(x)[0] for x in src]
        ok = all(t.op == 'idx' and t.args[0] in contents for t in (lo, hi, bk))
        ck.req(ok, 'pointer', what + ' from the ROM', h0, 'the pointer to the chunk list is made of %s, %s, %s' % (show(lo), show(hi), show(bk)))
        if not ok: continue
        X = [(lo, i) for i in range(8)] + [(hi, i) for i in range(8)] + [(bk, i) for i in range(8)]
        ck.req(lorom_of(v, X), 'LoROM', what + ' chunk list', h0, 'the pointer %s:%s:%s is mapped to file offset %s' % (show(bk), show(hi), show(lo), show(v)))
        for t, off, nm in ((lo, 0, 'low'), (hi, 4, 'high'), (bk, 8, 'bank')):
            ck.req(lorom_of(t.args[1], addc(base, off)), 'pointer', '%s %s byte' % (what, nm), h0, 'the %s byte of the pointer is read at %s, not at the file offset of bank address + %d' % (nm, show(t.args[1]), off))
    def clen(c, x): return add(I.index(None, c, x), scale(I.index(None, c, addc(x, 1)), 256))
    n = 0
    lens = {}
    for hn, tr, b, h in nexts(hs):
        m = headmap(h, b)
        nv = m.get(a)
        c = w.content_of(nv) if nv is not None else None
        ok = False
        L = None
        if nv is not None:
            n += 1
            x = a
            for i in range(3):
                l = clen(c, x)
                x = addc(add(x, l), 4)
                if nv is x:
                    ok = True
                    break
        ck.req(ok, 'chunk walk', what + ' next chunk', tr, 'after the chunk at %s the walk continues at %s, which is not (4 + length) bytes further' % (show(a), show(nv) if nv is not None else '?'))
        if ok:
            # does it only go on when the last header read has a length?
            b_ = addc(add(a, clen(c, a)), 4)
            cands = [clen(c, a), clen(c, b_)]
            run = [k for k, v in m.items() if any(v is x for x in cands)]
            ini = [e for hh in hs for e in hh.ents]
            go = any(I.entails(b.facts, Not(int_eq(x, Int(0)))) for x in cands) or \
                any(all_body(hs, lambda f: I.entails(f, Not(int_eq(k, Int(0))))) for k in run)
            ck.req(go, 'chunk walk', what + ' stops', tr, 'the walk may continue behind a chunk of length 0')
            for k in run: lens.setdefault(k, []).append(tr)
    ck.floor(n, 1, 'chunk walk', what + ' steps')
    # it ends at a chunk of length 0 only
    ids = {x.id for h in hs for x in body(h)} | {h.id for h in hs}
    outs = [(x, x.facts) for x in R.nodes if lid not in x.loops and any(p.id in ids for p in x.preds)]
    outs += [(tr, b.facts) for x in R.nodes if x.kind == 'loop' and x.data[0] != lid and lid not in x.loops for tr, b, hn in x.backs if tr.id in ids]
    back = nexts(hs)
    for x, xf in outs:
        def zero(f):
            for k in lens:
                if len(lens[k]) == len(back) and I.entails(f, int_eq(k, Int(0))): return True
            for c in contents:
                if I.entails(f, int_eq(clen(c, a), Int(0))): return True
                b_ = addc(add(a, clen(c, a)), 4)
                if I.entails(f, int_eq(clen(c, b_), Int(0))): return True
            return False
        ck.req(zero(xf), 'chunk walk', what + ' ends at length 0', x, 'the walk can end before a chunk of length 0')
    ck.floor(len(outs), 1, 'chunk walk', what + ' exits')
    return lid, hs, a, w


def all_body(hs, p):
    """holds at the first events of every iteration"""
    r = []
    for h in hs:
        ids = {h.id}
        for x in body(h):
            if any(q.id in ids for q in x.preds): r.append(p(x.facts))
    return bool(r) and all(r)


def bank_base(R, I, lid, kap):
    """the element of the array of bank addresses that iteration `kap` works on"""
    for v in R.args:
        if (v.ty or '').replace(' ', '').startswith('[u32;'):
            return I.index(None, v, kap), v
    raise Missing('bank addresses')


def p08(ck):
    """bit-provenance analysis of every address that is decoded from the ROM, and an inductive check of the chunk walk ::
    In the ROM writer and in the dummy generator: the chunk list starts at the file offset whose bits 0-14 and 15-22 are the
    low 15 bits and the bank byte of the pointer made of the bytes at the LoROM offsets of bank address, +4 and +8 (all as
    provenance of individual bits); each step goes from a header to header + 4 + little-endian length, the walk ends exactly
    at length 0, and a header is taken for the song data when its little-endian address is 0xD000."""
    r = Rom(ck)
    found(ck, r)
    base, _ = bank_base(r.R, r.I, r.lbank, r.kbank)
    contents = set()
    for h in r.heads[r.lbank]:
        v = h.store.get(r.root)
        if v is not None: contents.add(v)
    check_walk(ck, r.I, r.R, contents, base, r.lbank, 'writer')
    for tup, lid, good in r.found():
        ck.req(good, 'headers', 'writer', r.heads[lid][0], 'the base chunk is not identified by a little-endian address of 0xD000')
    g = Fake(ck)
    check_walk(ck, g.I, g.R, {g.filedata}, g.base, g.lid, 'generator')


class Fake(object):
    """the analysed generator of dummy ROMs"""

    def __init__(self, ck):
        ck.fn('rom::gen_fake_rom')
        self.I, self.R = ck.analyse('rom::gen_fake_rom')
        R = self.R
        reads = R.events('fread')
        if len(reads) != 1: raise Missing('single read of the source ROM')
        self.read = reads[0]
        self.filedata = reads[0].data[1]
        base = None
        for v in R.args:
            if (v.ty or '').replace(' ', '').startswith('[u32;'): self.arr = v
        ks = {t.args[1] for n in R.nodes if n.kind == 'bounds' for t in subterms(n.data[0]) if t.op == 'idx' and t.args[0] is self.arr}
        ks = {k for k in ks if k.op == 'kap'}
        if len(ks) != 1: raise Missing('loop over the banks in the dummy generator')
        self.k = list(ks)[0]
        self.lid = self.k.args[1]
        self.base = self.I.index(None, self.arr, self.k)
        self.heads = loop_heads(R)
        self.writes = R.events('fwrite')


def p09(ck):
    """taint and coverage analysis of the output buffer of the dummy generator ::
    The output buffer is created zeroed with the length of the source; each byte stored to it is the source's byte at the
    same offset, and that offset is one of the three pointer bytes of the bank or of the four bytes of a chunk header of the
    walk; on every path all of these are stored, for all banks; the buffer is written once, completely, after the last bank,
    to a file opened with create and truncate; the source is opened for reading only."""
    g = Fake(ck)
    I, R = g.I, g.R
    wk = check_walk(ck, I, R, {g.filedata}, g.base, g.lid, 'generator')
    if wk is None: return
    lid, hs, a, w = wk
    opens = R.events('fopen')
    ck.req(len(opens) == 2, 'files', 'two files', None, '%d files are opened' % len(opens))
    for n in opens:
        o = n.data[0]
        fl = [x is TRUE for x in o.args[3]] if o.op == 'adt' else None
        src = g.read.data[0] in (n.data[2],) or n.data[2] in subterms(g.read.data[0])
        if src:
            ck.req(fl == [True, False, False, False, False, False], 'files', 'source read only', n, 'the source ROM is opened as %s' % show(o))
            ck.req(n.data[1] is R.args[0], 'files', 'source path', n, 'the source ROM is %s' % show(n.data[1]))
        else:
            ck.req(fl is not None and fl[1] and not fl[2] and (fl[3] or fl[5]) and (fl[4] or fl[5]), 'files', 'output replaced', n, 'the output file is opened as %s: earlier content of it can survive' % show(o))
            ck.req(n.data[1] is R.args[1], 'files', 'output path', n, 'the output file is %s' % show(n.data[1]))
    ck.req(len(g.writes) == 1, 'output', 'one write', None, '%d writes to files' % len(g.writes))
    root = None
    for n in g.writes:
        ck.req(n.data[0] == 'write_all', 'output', 'complete', n, 'the output is written with %s, which can write only a part' % n.data[0])
        ck.req(not n.loops, 'output', 'once', n, 'the output is written inside a loop')
        ck.req(n.data[1] is not g.read.data[0], 'output', 'file', n, 'the source ROM is written to')
        for h in g.heads[g.lid]:
            for r, v in h.store.items():
                if v is n.data[2]: root = r
        ck.req(root is not None, 'output', 'whole buffer', n, 'what is written is %s, not the buffer that the headers were copied to' % show(n.data[2]))
        ck.req(I.entails(n.facts, le(I.length(g.arr), g.k)), 'output', 'all banks', n, 'the output can be written before the last bank is done')
    if root is None: return
    for h in g.heads[g.lid]:
        for e in h.ents:
            v = e.store.get(root)
            ok = v is not None and v.op == 'rep' and v.args[0] is Int(0) and v.args[1] is I.length(g.filedata)
            ck.req(ok, 'output', 'starts zeroed', h, 'the output starts as %s, not as zeros of the length of the source' % (show(v) if v is not None else '?'))
    ptr = {}
    for off in (0, 4, 8): ptr[off] = None
    stores, ptrs, hdrs = 0, {}, {}
    for n in R.nodes:
        if n.kind in ('push', 'ext', 'vpop', 'vtrunc', 'vremove', 'vinsert') and n.data[0] == root:
            ck.req(False, 'bytes', n.kind, n, 'the output buffer is changed by %s' % n.kind)
        if n.kind != 'store' or n.data[0] != root: continue
        p = n.data[1]
        if len(p) == 1 and p[0][0] == 'i': st, en = p[0][1], addc(p[0][1], 1)
        elif len(p) == 1 and p[0][0] == 'rng': st, en = p[0][1], p[0][2]
        else:
            ck.req(False, 'bytes', 'shape', n, 'the output buffer is replaced')
            continue
        ln = sub(en, st)
        if ln.op != 'int' or not 0 < ln.args[0] <= 16:
            ck.req(False, 'bytes', 'extent', n, '%s bytes are written to the output at once' % show(ln))
            continue
        for i in range(ln.args[0]):
            stores += 1
            x = addc(st, i)
            v = n.data[2] if p[0][0] == 'i' else I.index(None, n.data[2], Int(i))
            ck.req(same_byte(v, I.index(None, g.filedata, x)), 'bytes', 'copied from the same offset', n, 'the output byte at %s is %s' % (show(x), show(v)))
            d = sub(x, a)
            if d.op == 'int' and 0 <= d.args[0] < 4: hdrs.setdefault(d.args[0], set()).add(n.id)
            else:
                hit = [off for off in (0, 4, 8) if lorom_of(x, addc(g.base, off))]
                ck.req(len(hit) == 1, 'bytes', 'pointer or header', n, 'the output byte at %s is neither a pointer byte of the bank nor a chunk header byte' % show(x))
                for off in hit: ptrs.setdefault(off, set()).add(n.id)
    ck.floor(stores, 7, 'bytes', 'stored bytes')
    for i in range(4):
        for hn, tr, b, h in nexts(hs):
            c = counts(tr, hs, lambda x: x.id in hdrs.get(i, ()))
            ck.req(c is not None and c[0] >= 1, 'coverage', 'header byte %d' % i, tr, 'a step of the chunk walk can leave out byte %d of the chunk header' % i)
    for off in (0, 4, 8):
        for hn, tr, b, h in nexts(g.heads[g.lid]):
            c = counts(tr, g.heads[g.lid], lambda x: x.id in ptrs.get(off, ()))
            ck.req(c is not None and c[0] >= 1, 'coverage', 'pointer byte +%d' % off, tr, 'a bank can leave out the pointer byte at +%d' % off)
    wid = {n.id for n in g.writes}
    oks = 0
    for s, v in R.rets:
        if is_ok(v):
            oks += 1
            ck.req(on_every_path(s.trace, lambda x: x.id in wid), 'output', 'success writes', s.trace, 'success is reported without the output having been written')
    ck.floor(oks, 1, 'output', 'success returns')


def same_byte(v, w):
    return v is w or vbits(v, 8) == vbits(w, 8) and vbits(v, 16)[8:] == [0] * 8


RULES = {'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09}
