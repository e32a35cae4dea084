"""P24-P27: manifests, command line, settings of each song, JSON songs."""
import json
import os
from terms import *
from rules.base import *
from rules.track import EVENTS_T

ASSUME = ['serde_json, clap and std::path behave as documented: a missing JSON member reads as Null, required arguments are present, exactly one subcommand is selected']

JSON = 'serde_json::value::Value'
BANKS = [
    ('overworld', ['Title', 'World Map', 'Beginning', 'Rabbit', 'Forest', 'Intro', 'Town', 'Warp', 'Dark World', 'Master Sword', 'File Select', 'Soldier', 'Mountain', 'Shop', 'Fanfare']),
    ('indoor', ['Castle', 'Palace', 'Cave', 'Clear', 'Church', 'Boss', 'Dungeon', 'Psychic', 'Secret Way', 'Rescue', 'Crystal', 'Fountain', 'Pyramid', 'Kill Agahnim', 'Ganon Room', 'Last Boss']),
    ('ending', ['Triforce', 'Ending', 'Staff']),
]
DEFAULT_TEMPO = 0.2


def fin(t, memo=None):
    """t with references to values and elements of literal lists replaced by what they stand for"""
    memo = {} if memo is None else memo
    if not isinstance(t, Term): return tuple(fin(x, memo) for x in t) if isinstance(t, tuple) else t
    if t in memo: return memo[t]
    r = t
    if t.op == 'app' and t.args[0] == 'refto': r = fin(t.args[1], memo)
    elif t.op == 'deref': r = fin(t.args[0], memo)
    elif t.op == 'idx' and t.args[0].op == 'vec' and t.args[1].op == 'int' and t.args[1].args[0] < len(t.args[0].args[0]): r = fin(t.args[0].args[0][t.args[1].args[0]], memo)
    elif t.op in ('app', 'adt', 'f2f', 'idx', 'fld', 'var', 'eq', 'vec', 'res'):
        a = tuple(fin(x, memo) for x in t.args)
        r = mk(t.op, *a, ty=t.ty)
        if r.op == 'idx' and r.args[0].op == 'vec' and r.args[1].op == 'int' and r is not t: r = fin(r, memo)
    elif t.op == 'not': r = Not(fin(t.args[0], memo))
    elif t.op in ('and', 'or'): r = (And if t.op == 'and' else Or)(fin(t.args[0], memo), fin(t.args[1], memo))
    memo[t] = r
    return r


def is_str(t, s):
    return string(t) == s


def string(t):
    t = fin(t)
    return t.args[0] if t.op == 'str' else None


def collected(I, R, v, facts):
    """a list that was filled by one push per iteration of a loop that has run to its end, or a literal list:
    (length, f) with f(k) the possible (value, facts) of element k; None if it is neither"""
    if v.op == 'vec': return len(v.args[0]), lambda k: [(v.args[0][k], frozenset())]
    if v.op == 'adt' and v.args[0] in ('alloc::boxed::Box',): return collected(I, R, v.args[3][0], facts)
    if v.op != 'phi': return None
    lid = v.args[1]
    heads = [n for n in R.nodes if n.kind == 'loop' and n.data[0] == lid and v in n.store.values()]
    if not heads: return None
    grp = {g.id: g for h in heads for g in heads_into(h)}.values()
    out = []
    k = I.length(v)
    for h in grp:
        rs = [r for r, x in h.store.items() if x is v]
        if len(rs) != 1: return None
        r = rs[0]
        for e in h.ents or ():
            x = e.store.get(r)
            if x is None or x.op != 'vec' or x.args[0]: return None
        for tr, b, hn in h.backs or ():
            x = b.store.get(r)
            if x is None or x.op != 'push' or x.args[0] is not v: return None
            out.append((x.args[1], b.facts))
    if k.op != 'kap' or not out: return None
    n = None
    for f in facts:
        if f.op == 'ge0':
            c, d = lin_parts(f.args[0])
            if d == {k: 1}: n = max(n or 0, -c)
    if n is not None and not all(I.entails(f, lt(k, Int(n))) for x, f in out): n = None

    def at(i):
        m = {k: Int(i)}
        return [(subst(x, m), frozenset(subst(f, m) for f in fs)) for x, fs in out]
    return n, at


# ------------------------------------------------------------------ P24, P25: the manifest
class Entry(object):
    """where the value of a manifest member comes from"""

    def __init__(self, J, sec, name):
        self.J, self.sec, self.name = J, sec, name


def jpath(t):
    """(document, names) of a chain of JSON members"""
    names = []
    while t.op == 'app' and t.args[0] == 'jget':
        names.insert(0, t.args[2].args[0] if t.args[2].op == 'str' else None)
        t = t.args[1]
    return t, names


class Loaded(object):
    """the songs of Manifest::new"""

    def __init__(self, ck):
        self.ck = ck
        key = ck.fn('manifest::Manifest::new', (('&std::path::Path',), None))
        self.I, self.R = ck.analyse(key)
        self.path = self.R.args[0]
        self.where = (key, '')
        self.f = {n: ck.field('manifest::Song', n) for n in ('input', 'tempo_factor', 'loops')}
        self.oks = [(s, v) for s, v in self.R.rets if not is_err(v)]

    def banks(self, v):
        """[list of songs] of a Manifest value"""
        ck = self.ck
        return manifest_banks(ck, v)


def manifest_banks(ck, v):
    if v.op != 'adt' or not v.args[0].endswith('manifest::Manifest'): return None
    b = v.args[3][ck.field('manifest::Manifest', 'banks')]
    if b.op != 'vec': return None
    i = ck.field('manifest::Bank', 'songs')
    return [x.args[3][i] if x.op == 'adt' and x.args[0].endswith('manifest::Bank') else None for x in b.args[0]]


def p24(ck):
    """value-flow analysis of manifest loading: for every slot of every bank, the JSON members its song is read from are traced through the collecting loops, and compared with the game's order and with the manifest schema; the one-song manifests are evaluated to constructor terms ::
    Decided for all manifests: the terms are symbolic in the parsed document. The loops over the name tables are followed by their index; that the document is the parsed manifest file is part of the check."""
    ld = Loaded(ck)
    schema(ck)
    ck.floor(len(ld.oks), 1, 'slots', 'ways of loading a manifest')
    for s, v in ld.oks:
        if not ck.req(is_ok(v), 'slots', 'result', s.trace, 'a manifest is returned as %s' % show(v)[:100]): continue
        bs = ld.banks(payload(v))
        if not ck.req(bs is not None and len(bs) == 3, 'slots', 'banks', s.trace, 'a manifest does not have three banks'): continue
        for (sec, names), b in zip(BANKS, bs):
            c = collected(ld.I, ld.R, b, s.facts) if b is not None else None
            if not ck.req(c is not None, 'slots', sec + ' list', s.trace, 'the songs of the %s bank are not one per name' % sec): continue
            n, at = c
            if not ck.req(n == len(names), 'slots', sec + ' length', s.trace, 'the %s bank gets %s songs instead of %d' % (sec, n, len(names))): continue
            for i, name in enumerate(names):
                for x, fs in at(i):
                    x = fin(x)
                    ok, got = False, show(x)[:100]
                    if x.op == 'adt' and x.args[0].endswith('manifest::Song'):
                        js = {(jpath(t)[0], tuple(jpath(t)[1])) for a in x.args[3] for t in subterms(a) if t.op == 'app' and t.args[0] == 'jget'}
                        js = {(d, p) for d, p in js if len(p) >= 3}
                        got = sorted('/'.join(str(y) for y in p) for d, p in js)
                        ok = bool(js) and all(p[:2] == (sec, name) and document(ld, d) for d, p in js) and x.args[3][ld.f['input']].op == 'adt' and is_some(x.args[3][ld.f['input']]) and \
                            any(p == (sec, name, 'input') for t in subterms(x.args[3][ld.f['input']]) if t.op == 'app' and t.args[0] == 'jget' for p in [tuple(jpath(t)[1])])
                    ck.req(ok, 'slots', '%s %d' % (sec, i), s.trace, 'slot %d of the %s bank, %s, is read from %s' % (i, sec, name, got))
    # the one-song modes
    for name, want in (('manifest::Manifest::single_song', lambda b, i: True), ('manifest::Manifest::file_select', lambda b, i: BANKS[b][1][i] == 'File Select')):
        key = ck.fn(name)
        I, R = ck.analyse(key)
        for s, v in R.rets:
            one_song(ck, name.split('::')[-1], I, R, s, v, R.args[0], want)
    one_song_uses(ck)


def one_song(ck, nm, I, R, s, v, path, want):
    bs = manifest_banks(ck, v)
    if not ck.req(bs is not None and len(bs) == 3, nm, 'banks', s.trace, 'the manifest does not have three banks'): return
    fi, ft, fl = (ck.field('manifest::Song', n) for n in ('input', 'tempo_factor', 'loops'))
    for b, (sec, names) in enumerate(BANKS):
        c = collected(I, R, bs[b], s.facts)
        if c is None and bs[b] is not None: c = repeated(bs[b])
        if not ck.req(c is not None and c[0] == len(names), nm, sec + ' length', s.trace, 'the %s bank gets %s songs instead of %d' % (sec, c[0] if c else 'an unknown number of', len(names))): continue
        for i, name in enumerate(names):
            for x, fs in c[1](i):
                x = fin(x)
                if not ck.req(x.op == 'adt' and x.args[0].endswith('manifest::Song'), nm, '%s %d' % (sec, i), s.trace, 'slot %d is %s' % (i, show(x)[:100])): continue
                a = x.args[3]
                if want(b, i):
                    ck.req(is_some(a[fi]) and payload(a[fi]) is fin(path), nm, '%s %d song' % (sec, i), s.trace, 'slot %d of the %s bank does not get the song: %s' % (i, sec, show(x)[:100]))
                else:
                    ck.req(is_none(a[fi]) and a[fl] is FALSE, nm, '%s %d empty' % (sec, i), s.trace, 'slot %d of the %s bank, %s, is not empty and unlooped: %s' % (i, sec, name, show(x)[:100]))


def repeated(v):
    """vec![x; n]"""
    if v.op in ('rep', 'fill') and len(v.args) == 2 and v.args[1].op == 'int': return v.args[1].args[0], lambda k: [(v.args[0], frozenset())]
    return None


def document(ld, d):
    """is d the parsed contents of the manifest file?"""
    x = d
    if not (x.op == 'fld' and x.args[1] == 0 and x.args[0].op in ('res', 'app')): return False
    n = x.args[0].args[1] if x.args[0].op == 'res' else x.args[0].args[0]
    if not str(n).startswith('serde_json::') and 'parse' not in str(n): return False
    return any(t.op == 'res' and t.args[1] in ('fopen', 'std::fs::read', 'io::read', 'std::fs::read_to_string', 'io::read_to_string') and fin(ld.path) in subterms(fin(t)) for t in subterms(x))


def schema(ck):
    p = os.path.join(ck.repo, 'src/manifest.schema.json')
    try:
        d = json.load(open(p))
    except Exception as e:
        ck.req(False, 'schema', 'readable', ('src/manifest.schema.json', ''), str(e))
        return
    w = ('src/manifest.schema.json', '')
    ck.req(set(d.get('required', ())) == {b for b, n in BANKS}, 'schema', 'sections', w, 'the schema requires the sections %s' % d.get('required'))
    for b, names in BANKS:
        s = d.get('properties', {}).get(b, {})
        ck.req(set(s.get('required', ())) == set(names), 'schema', b + ' required', w, 'the names the schema requires in %s differ from the game\'s: %s' % (b, sorted(set(s.get('required', ())) ^ set(names))))
        ck.req(set(s.get('properties', ())) == set(names), 'schema', b + ' names', w, 'the names the schema describes in %s differ from the game\'s: %s' % (b, sorted(set(s.get('properties', ())) ^ set(names))))


def one_song_uses(ck):
    """write_all_overworld and write_file_select hand the writer their manifest"""
    W = ck.fn('rom::write')
    for name, want in (('rom::write_all_overworld', lambda b, i: True), ('rom::write_file_select', lambda b, i: BANKS[b][1][i] == 'File Select')):
        key = ck.fn(name)
        I, R = ck.analyse(key, opaque=lambda k: k == W)
        cs = R.events('call', lambda n: n.data[0] == W)
        ck.floor(len(cs), 1, 'one song', 'calls of the ROM writer in ' + name)
        for n in cs:
            one_song(ck, name.split('::')[-1] + ' call', I, R, type('S', (), {'trace': n, 'facts': n.facts})(), n.data[2][0], R.args[0], want)
            ck.req(fin(n.data[2][1]) is fin(R.args[1]), 'one song', name.split('::')[-1] + ' file', n, 'the ROM that is written is %s' % show(n.data[2][1]))


def p25(ck):
    """value-flow analysis of every setting from its manifest entry to its use: settings as terms over the entry's JSON members, arguments of the converter call and loop flag in the song loop of the ROM writer, the converter's closure over all paths ::
    Decided for all manifests and inputs; that the loop flag reaches the song header is P04's analysis, reused here."""
    ld = Loaded(ck)
    I = ld.I
    str_i, num_i, bool_i = (ck.variant(JSON, n) for n in ('String', 'Number', 'Bool'))
    n = 0
    for s, v in ld.oks:
        if not is_ok(v): continue
        for (sec, names), b in zip(BANKS, ld.banks(payload(v)) or ()):
            c = collected(I, ld.R, b, s.facts) if b is not None else None
            if not ck.req(c is not None, 'settings', sec, s.trace, 'the songs of the %s bank are not one per entry' % sec): continue
            for x, fs in c[1](0):
                x = fin(x)
                if not ck.req(x.op == 'adt' and x.args[0].endswith('manifest::Song'), 'settings', sec + ' song', s.trace, 'a song is %s' % show(x)[:100]): continue
                F = frozenset(fin(f) for f in fs | s.facts)
                inp, tempo, loops = (x.args[3][ld.f[a]] for a in ('input', 'tempo_factor', 'loops'))
                es = {t.args[1] for t in subterms(inp) if t.op == 'app' and t.args[0] == 'jget' and t.args[2].op == 'str' and len(jpath(t)[1]) == 3}
                if not ck.req(len(es) == 1, 'settings', sec + ' entry', s.trace, 'the input of a song comes from %d entries' % len(es)): continue
                e = es.pop()
                mem = lambda m: mk('app', 'jget', e, mk('str', m), ty=JSON)
                n += 1
                # tempo
                t = fin(mem('tempoAdjust'))
                val = field(t, num_i, 0, '0', None)
                if tempo.op == 'float': ok = abs(tempo.args[0] - DEFAULT_TEMPO) < 1e-6 and entails(I, F, Not(mk('var', t, num_i)))
                else: ok = tempo.op == 'f2f' and tempo.args[0].op == 'app' and tempo.args[0].args[0] == 'jnum' and same(tempo.args[0].args[1], t, num_i)
                ck.req(ok, 'settings', sec + ' tempo', s.trace, 'the tempo factor of a song is %s' % show(tempo)[:160])
                # loop flag
                t = fin(mem('loop'))
                if loops is TRUE: ok = entails(I, F, Not(mk('var', t, bool_i)))
                else: ok = same(loops, t, bool_i)
                ck.req(ok, 'settings', sec + ' loop', s.trace, 'the loop flag of a song is %s' % show(loops)[:160])
                # input
                t = fin(mem('input'))
                p = payload(inp) if is_some(inp) else None
                ck.req(p is not None and input_ok(ld, F, p, t, str_i), 'settings', sec + ' input', s.trace, 'the input of a song is %s' % show(inp)[:200])
    ck.floor(n, 6, 'settings', 'ways of reading a song')
    defaults(ck)
    uses(ck)
    converting(ck)


def entails(I, F, c):
    return I.entails(F, c) or c in F or any(f.op == 'var' and c.op == 'not' and c.args[0].op == 'var' and f.args[0] is c.args[0].args[0] and f.args[1] != c.args[0].args[1] for f in F)


def same(x, t, k):
    """is x the payload of variant k of JSON value t?"""
    return x.op == 'fld' and x.args[0] is t and x.args[1] == k


def input_ok(ld, F, p, t, k):
    if same(p, t, k):
        return any(f.op == 'app' and f.args[0].endswith('::is_absolute') and same(f.args[1], t, k) for f in F) or \
            any(f.op == 'not' and f.args[0].op == 'app' and f.args[0].args[0].endswith('::is_relative') and same(f.args[0].args[1], t, k) for f in F)
    if p.op == 'app' and p.args[0].endswith('::join') and len(p.args) == 3 and same(p.args[2], t, k):
        b = p.args[1]
        par = fin(mk('app', 'std::path::Path::parent', ld.path))
        if b.op == 'fld' and b.args[1] == 1 and b.args[0].op == 'app' and b.args[0].args[0].endswith('::parent') and b.args[0].args[1] is fin(ld.path): return True
        if b.op == 'str' and b.args[0] in ('', '.'):
            return any(f.op == 'var' and f.args[1] == 0 and f.args[0].op == 'app' and f.args[0].args[0].endswith('::parent') for f in F)
    return False


def defaults(ck):
    """songs of the one-song modes play with the defaults"""
    fi, ft, fl = (ck.field('manifest::Song', n) for n in ('input', 'tempo_factor', 'loops'))
    n = 0
    for name in ('manifest::Manifest::single_song', 'manifest::Manifest::file_select'):
        I, R = ck.analyse(ck.fn(name))
        for s, v in R.rets:
            for b in manifest_banks(ck, v) or ():
                c = collected(I, R, b, s.facts) or repeated(b)
                if c is None or c[0] is None: continue
                for i in range(c[0]):
                    for x, fs in c[1](i):
                        if x.op == 'adt' and is_some(x.args[3][fi]):
                            n += 1
                            t = x.args[3][ft]
                            ck.req(t.op == 'float' and abs(t.args[0] - DEFAULT_TEMPO) < 1e-6 and x.args[3][fl] is TRUE, 'defaults', '%s %d' % (name, i), s.trace, 'the settings of the song are %s' % show(x)[:120])
    ck.floor(n, 2, 'defaults', 'songs of the one-song modes')


def uses(ck):
    """the ROM writer converts the input of the song at hand with its tempo factor and lays out that song"""
    from rules import rom
    r = rom.Rom(ck)
    lay = rom.Layout(ck, r)
    fi, ft = ck.field('manifest::Song', 'input'), ck.field('manifest::Song', 'tempo_factor')
    conv = [a for a in r.R.args if 'Fn(' in (a.ty or '') or 'FnMut(' in (a.ty or '')]
    ck.req(len(conv) == 1, 'conversion', 'converter', ('rom::write', ''), 'the ROM writer has %d converters' % len(conv))

    def cur(t, i):
        return t.op == 'fld' and t.args[2] == i and rom.is_song(r, t.args[0])

    def inp(t):
        return t.op == 'fld' and t.args[1] == 1 and cur(t.args[0], fi)
    seen = {}
    for n in r.calls:
        song = fin_keep(n.data[2][0])
        if song in seen: continue
        seen[song] = True
        F = n.facts
        known = [f for f in F if f.op == 'var' and cur(f.args[0], fi)]
        c = song.args[0] if song.op == 'fld' and song.args[1] == 0 else None
        if c is not None and c.op == 'res' and c.args[1] == 'indirect':
            a = [fin_keep(x) for x in c.args[3]]
            a2 = a[1].args[3] if len(a) == 2 and a[1].op == 'adt' else a[1:]
            ck.req(a[0] in conv, 'conversion', 'by the converter', n, 'a song is made by %s' % show(a[0])[:80])
            ok = len(a2) == 2 and inp(a2[0]) and cur(a2[1], ft)
            ck.req(ok, 'conversion', 'own input and tempo', n, 'a song is converted from %s' % ', '.join(show(x)[:100] for x in a2))
        elif c is not None and c.op in ('app', 'res') and 'empty' in str(c.args[0] if c.op == 'app' else c.args[1]):
            ck.req(any(f.args[1] == 0 for f in known) or any(r.entails(F, mk('var', f.args[0], 0)) for f in known), 'conversion', 'empty only without input', n, 'the empty song is used for a song that may have an input')
        else:
            ck.req(False, 'conversion', 'origin', n, 'the song that is laid out is %s' % show(song)[:160])
    ck.floor(len(seen), 2, 'conversion', 'kinds of songs laid out')
    ck.floor(len(lay.songs()), 4, 'loop flag', 'layouts chosen by the song\'s own loop flag')


def fin_keep(t):
    """the value behind references"""
    while t.op == 'deref' or t.op == 'app' and t.args[0] == 'refto': t = t.args[1] if t.op == 'app' else t.args[0]
    return t


OPQ = {
    'write': ('rom::write', None), 'fake': ('rom::gen_fake_rom', None), 'read': ('midi::MidiHandler::read', None), 'from_midi': ('nspc::Song::from_midi', None),
    'to_json': ('nspc::Song::write_to_json', None), 'from_json': ('nspc::Song::from_json', None), 'load': ('manifest::Manifest::new', None),
}


class Run(object):
    def __init__(self, ck):
        self.ck = ck
        self.k = {n: ck.fn(p, s) for n, (p, s) in OPQ.items()}
        self.op = set(self.k.values())
        self.key = ck.fn('run', (('clap::args::arg_matches::ArgMatches',), None))
        self.I, self.R = ck.analyse(self.key, opaque=lambda k: k in self.op, branches=True)
        self.m = self.R.args[0]

    def calls(self, n):
        return self.R.events('call', lambda x: x.data[0] == self.k[n])

    def closure(self, n):
        """the converter that a call of the ROM writer gets: (key, captured values)"""
        for a in n.data[2]:
            x = fin_keep(a)
            while x.op == 'adt' and x.args[0].endswith('Box') and len(x.args[3]) == 1: x = fin_keep(x.args[3][0])
            if x.op == 'adt' and x.args[0].startswith('closure:'): return x.args[0][8:], x.args[3]
        return None


def reader_of(rn, t):
    """the (path, verbose) a MidiHandler was filled from: t is what read leaves behind on a new handler"""
    if t.op == 'res' and t.args[1].startswith(rn.k['read']) and '#mut' in t.args[1] and len(t.args[3]) >= 2: return t.args[3]
    return None


def converting(ck):
    rn = Run(ck)
    ws = rn.calls('write')
    ck.floor(len(ws), 3, 'converter', 'uses of the ROM writer')
    keys = set()
    for n in ws:
        c = rn.closure(n)
        if ck.req(c is not None, 'converter', 'closure', n, 'the ROM writer gets a converter that cannot be followed'): keys.add(c[0])
    for k in keys: converter_paths(ck, rn, k)
    # the song's own factor reaches all its tracks
    T = ck.fn('nspc::track::Track::new', ((EVENTS_T, 'u16', 'u32', 'f32', 'usize'), None))
    fm = rn.k['from_midi']
    I, R = ck.analyse(fm, opaque=lambda k: k == T)
    fs = [a for a in R.args if a.ty == 'f32']
    cs = R.events('call', lambda n: n.data[0] == T)
    ck.floor(len(cs), 1, 'tempo', 'calls of the track converter')
    for n in cs:
        ck.req(len(fs) == 1 and [a for a in n.data[2] if a.ty == 'f32' or a.op in ('float', 'fbin', 'f2f')] == fs, 'tempo', 'handed to tracks', n, 'a track is converted with the tempo factor %s' % [show(a) for a in n.data[2] if a.ty == 'f32'])


def converter_paths(ck, rn, key):
    I, R = ck.analyse(key, opaque=lambda k: k in rn.op)
    env, path, tempo = R.args[0], R.args[1], R.args[2]
    P = fin(path)
    ext = lambda t: any(x.op == 'app' and x.args[0].endswith('::extension') and fin(x.args[1]) is P for x in subterms(t))
    conds, opts = set(), set()
    for s, v in R.rets:
        for f in s.facts:
            for t in subterms(f):
                if t.op in ('eq', 'var') and ext(t):
                    if t.op == 'var': opts.add(t.args[0])
                    elif any(string(x) == 'mid' for x in subterms(t) if x.op == 'str'): conds.add(t)
                    names = {x.args[0] for x in subterms(t) if x.op == 'app' and x.args[0] not in ('refto',)}
                    ck.req(all(a.endswith(('::extension', '::to_str', 'deref')) for a in names), 'converter', 'extension', s.trace, 'the choice of the converter depends on %s' % show(t)[:120])
    ck.req(bool(conds), 'converter', 'mid', (key, ''), 'the converter does not look for the extension mid')
    nm = nj = 0
    for s, v in R.rets:
        kinds = {rn.k['from_midi']: 'from_midi', rn.k['from_json']: 'from_json', rn.k['read']: 'read'}
        org = set()
        for t in subterms(v):
            if t.op in ('app', 'res'):
                p = t.args[0] if t.op == 'app' else t.args[1]
                for k, m in kinds.items():
                    if str(p) == k or str(p).startswith(k + '#'): org.add((m, t))
        ks = {m for m, t in org}
        if 'from_json' in ks:
            nj += 1
            t = [t for m, t in org if m == 'from_json'][0]
            ar = t.args[3] if t.op == 'res' else t.args[1:]
            ck.req(ks == {'from_json'} and fin(ar[0]) is P, 'converter', 'JSON input', s.trace, 'a JSON song is read from %s' % show(ar[0])[:80])
            F = s.facts
            for o in opts: F = F and I.add_fact(F, isvar(o, 1))
            for c in conds: F = F and I.add_fact(F, c)
            ck.req(not F, 'converter', 'JSON otherwise', s.trace, 'a .mid input may be read as JSON')
        elif ks:
            nm += 1
            ck.req(any(I.entails(s.facts, c) for c in conds), 'converter', 'MIDI for mid', s.trace, 'an input that is not .mid may be read as MIDI')
            for m, t in org:
                ar = [fin(a) for a in (t.args[3] if t.op == 'res' else t.args[1:])]
                if m == 'read':
                    ck.req(ar[1] is P, 'converter', 'MIDI input', s.trace, 'a MIDI file is read from %s' % show(ar[1])[:80])
                    ck.req(fresh(ck, ar[0]), 'converter', 'new reader', s.trace, 'a MIDI file is read into a reader that is not new: %s' % show(ar[0])[:80])
                else:
                    rd = reader_of(rn, ar[0])
                    ck.req(rd is not None, 'converter', 'song of the file', s.trace, 'a song is made from %s' % show(ar[0])[:80])
                    ck.req(fin(tempo) in ar, 'converter', 'tempo factor', s.trace, 'a song is not converted with its tempo factor')
        else:
            ck.req(False, 'converter', 'result', s.trace, 'the converter returns %s' % show(v)[:100])
    ck.floor(nm, 1, 'converter', 'ways of converting a MIDI file')
    ck.floor(nj, 1, 'converter', 'ways of reading a JSON song')


def fresh(ck, t):
    """a constant term"""
    return not any(x.op in ('sym', 'arg', 'res', 'phi', 'deref', 'kap') for x in subterms(t))


# ------------------------------------------------------------------ P26
BUILD = ('clap::app::App::', 'clap::args::arg::Arg::', 'clap::args::subcommand::SubCommand::')
HARMLESS = {'help', 'about', 'long_about', 'long_help', 'version', 'author', 'usage', 'display_order', 'setting', 'settings', 'global_setting', 'index', 'value_name', 'value_names',
            'bin_name', 'after_help', 'before_help', 'name', 'short', 'long', 'required', 'takes_value', 'number_of_values', 'min_values', 'max_values', 'use_delimiter', 'multiple',
            'require_delimiter', 'value_delimiter', 'arg', 'args', 'subcommand', 'subcommands', 'new', 'with_name', 'global', 'unset_setting', 'help_message', 'version_message', 'hidden', 'hide', 'visible_alias', 'alias', 'help_short', 'version_short', 'hide_possible_values', 'hidden_short_help', 'hidden_long_help'}


class Decl(object):
    """an argument or command as it is declared"""

    def __init__(self, name):
        self.name = name
        self.attr = {}
        self.args = []
        self.subs = []


def declared(t, odd):
    """the declaration that a chain of builder calls makes"""
    chain = []
    while True:
        t = fin_keep(t)
        if t.op == 'res' and t.args[1].startswith('clap::'): p, a = t.args[1], t.args[3]
        elif t.op == 'app' and str(t.args[0]).startswith('clap::'): p, a = t.args[0], t.args[1:]
        else: return None
        m = p.split('::')[-1]
        if not p.startswith(BUILD): return None
        chain.append((m, a))
        if m in ('new', 'with_name'): break
        t = a[0]
    chain.reverse()
    d = Decl(string(chain[0][1][0]))
    for m, a in chain[1:]:
        if m in ('arg', 'subcommand'):
            x = declared(a[1], odd)
            if x is None: odd.append(show(a[1])[:80])
            else: (d.args if m == 'arg' else d.subs).append(x)
        elif m in ('args', 'subcommands'):
            v = fin(a[1])
            if v.op != 'vec': odd.append(m)
            else:
                for y in v.args[0]:
                    x = declared(y, odd)
                    if x is None: odd.append(show(y)[:80])
                    else: (d.args if m == 'args' else d.subs).append(x)
        else:
            if m not in HARMLESS: odd.append(m)
            d.attr.setdefault(m, []).append(fin(a[1]) if len(a) > 1 else None)
    return d


def flag(d, m):
    return d.attr.get(m, [FALSE])[-1] is TRUE


def num(d, m):
    x = d.attr.get(m)
    return x[-1].args[0] if x and x[-1].op == 'int' else None


def takes_value(d):
    return flag(d, 'takes_value') or any(m in d.attr for m in ('number_of_values', 'min_values', 'max_values', 'value_name', 'value_names', 'index')) or positional(d)


def positional(d):
    return 'short' not in d.attr and 'long' not in d.attr


def p26(ck):
    """the command-line declaration is read off the builder calls in main and compared with every access to the parsed arguments in the dispatch (name, level, kind, required); the calls each subcommand makes are traced back to the arguments by value flow ::
    All accesses and all return paths of the dispatch are covered."""
    rn = Run(ck)
    I, R = rn.I, rn.R
    mk_ = ck.fn('main')
    is_run = lambda k: k == rn.key or k.split('::')[-1] == rn.key.split('::')[-1]
    I2, R2 = ck.analyse(mk_, opaque=is_run)
    decls = []
    odd = []
    for n in R2.nodes:
        if n.kind in ('lib', 'call') and n.data[0].startswith('clap::app::App::get_matches'):
            d = declared(n.data[2][0], odd)
            if d: decls.append((d, n))
    if len(decls) != 1: raise Missing('declaration of the command line in main')
    top, w = decls[0]
    ck.req(not odd, 'declaration', 'readable', w, 'the declaration uses what the rule does not know: %s' % odd)
    got = decls[0][1].data[-1]
    cs = [n for n in R2.nodes if n.kind in ('call', 'lib') and is_run(n.data[0])]
    ck.req(len(cs) == 1 and fin(cs[0].data[2][0]) is fin(got), 'declaration', 'handed to run', cs[0] if cs else w, 'the parsed command line is not what the dispatch gets')
    for s, v in R2.rets:
        ck.req(bool(cs) and v in (cs[0].data[-1],) or propagated(v, cs), 'declaration', 'result', s.trace, 'main does not return the result of the dispatch')
    for d in [top] + top.subs:
        for a in ('name', 'short', 'long'):
            xs = [x.name if a == 'name' else string(x.attr[a][-1]).lstrip('-') for x in d.args if a == 'name' or a in x.attr]
            ck.req(len(xs) == len(set(xs)), 'declaration', '%s %s unique' % (d.name, a), w, 'two arguments of %s share a %s: %s' % (d.name, a, xs))
    subs = {d.name: d for d in top.subs}
    ck.req(len(subs) == len(top.subs), 'declaration', 'subcommands unique', w, 'two subcommands share a name')

    def level(m, F):
        """the command whose matches m is"""
        m = fin_keep(m)
        if m is fin_keep(rn.m): return top
        if m.op == 'fld' and m.args[1] == 1 and m.args[0].op == 'app' and fin_keep(m.args[0].args[1]) is fin_keep(rn.m):
            if m.args[0].args[0] == 'cl_subcommand_matches': return subs.get(string(m.args[0].args[2]), string(m.args[0].args[2]))
            if m.args[0].args[0] == 'cl_matches':
                for f in F:
                    x = chosen(f)
                    if x: return subs.get(x, x)
        return None

    def chosen(f):
        """the subcommand that fact f says was selected"""
        if f.op == 'var' and f.args[1] == 1 and f.args[0].op == 'app' and f.args[0].args[0] == 'cl_subcommand_matches': return string(f.args[0].args[2])
        if f.op == 'eq':
            for a, b in (f.args, f.args[::-1]):
                if fin_keep(a).op == 'app' and fin_keep(a).args[0] in ('cl_name', 'cl_subcommand_name') and string(b): return string(b)
                x = fin_keep(a)
                if x.op == 'fld' and x.args[0].op == 'app' and x.args[0].args[0] == 'cl_subcommand_name' and string(b): return string(b)
        return None

    def arg_of(d, name):
        for x in d.args if isinstance(d, Decl) else ():
            if x.name == name: return x
        if d is not top:
            for x in top.args:
                if x.name == name and flag(x, 'global'): return x
        return None
    # every access
    nacc = 0
    for n in R.nodes:
        if n.kind != 'clap': continue
        m, a = n.data
        if m in ('subcommand', 'subcommand_name'): continue
        d = level(a[0], n.facts)
        name = string(a[1])
        nacc += 1
        if not ck.req(d is not None and name is not None, 'access', '%s %s' % (m, name), n, 'an argument is read that the rule cannot place'): continue
        if m == 'subcommand_matches':
            ck.req(d is top and name in subs, 'access', 'subcommand ' + name, n, 'the subcommand %s is handled but not declared' % name)
            continue
        if not ck.req(isinstance(d, Decl), 'access', 'level %s' % name, n, 'arguments of the undeclared subcommand %s are read' % d): continue
        x = arg_of(d, name)
        if not ck.req(x is not None, 'access', '%s %s' % (d.name, name), n, '%s reads the argument %s, which it does not declare' % (d.name, name)): continue
        if m == 'value_of': ck.req(takes_value(x), 'access', '%s %s value' % (d.name, name), n, '%s of %s is declared without a value' % (name, d.name))
        elif m == 'values_of': ck.req(takes_value(x), 'access', '%s %s values' % (d.name, name), n, '%s of %s is declared without values' % (name, d.name))
        elif m in ('is_present', 'occurrences_of'): ck.req(not takes_value(x) or not flag(x, 'required'), 'access', '%s %s flag' % (d.name, name), n, '%s of %s is always present' % (name, d.name))
    ck.floor(nacc, 10, 'access', 'accesses to the parsed command line')
    for n in R.nodes:
        if n.kind == 'unwrap':
            t = n.data[0]
            if t.op == 'app' and t.args[0] == 'cl_value_of':
                d = level(t.args[1], n.facts)
                x = arg_of(d, string(t.args[2]))
                ck.req(x is not None and (flag(x, 'required') or 'default_value' in x.attr) and takes_value(x), 'access', '%s %s required' % (d.name if isinstance(d, Decl) else d, string(t.args[2])), n, '%s is taken for granted but not declared required' % string(t.args[2]))
        if n.kind == 'bounds':
            i = n.data[0]
            v = [t for t in subterms(n.data[1]) if t.op == 'kap']
            vals = values_lists(R, n)
            if i.op == 'int' and vals is not None:
                x = arg_of(level(vals[0], n.facts), vals[1])
                lo = (num(x, 'number_of_values') or num(x, 'min_values') or 0) if x is not None else 0
                ck.req(i.args[0] < lo, 'access', '%s number' % vals[1], n, 'value %d of %s is read, but only %d must be given' % (i.args[0], vals[1], lo))
    roles(ck, rn, top, subs, level, chosen, arg_of)


def values_lists(R, n):
    """(matches, name) of the list of values that is known to have been gone through at n"""
    r = {(t.args[1], string(t.args[2])) for f in n.facts for t in subterms(f) if t.op == 'app' and t.args[0] == 'cl_values'}
    return r.pop() if len(r) == 1 else None


def propagated(v, cs):
    """Ok(()) after success of the call, or its error"""
    if not cs: return False
    c = cs[0].data[-1]
    if is_err(v): return any(t is c for t in subterms(v))
    return is_ok(v)


def roles(ck, rn, top, subs, level, chosen, arg_of):
    I, R = rn.I, rn.R
    skip = lambda t: t.op == 'app' and t.args[0] == 'cl_is_present' and fin_keep(t.args[1]) is fin_keep(rn.m) and string(t.args[2]) == 'skip_optimization'
    verb = lambda t: t.op == 'app' and t.args[0] == 'cl_is_present' and fin_keep(t.args[1]) is fin_keep(rn.m) and string(t.args[2]) == 'verbose'

    def holds(F, t, want, neg):
        """does t equal (not) the flag?"""
        if neg and t.op == 'not' and want(t.args[0]): return True
        if not neg and want(t): return True
        if t is TRUE or t is FALSE:
            for f in F:
                g = f.args[0] if f.op == 'not' else f
                if want(g): return (t is TRUE) == ((f.op == 'not') == neg)
        return False
    optim = lambda F, t: holds(F, t, skip, True)
    verbose = lambda F, t: holds(F, t, verb, False)

    def path(F, t, sub, name):
        t = fin_keep(t)
        t = fin(t)
        if not (t.op == 'fld' and t.args[1] == 1 and t.args[0].op == 'app' and t.args[0].args[0] == 'cl_value_of'): return False
        d = level(t.args[0].args[1], F)
        return d is subs.get(sub) and string(t.args[0].args[2]) == name
    consts = DEFAULTS

    def array_filled(t, sub, F):
        """the values in an array of three that a loop over exactly three values has stored one by one"""
        if t.op != 'phi': return None
        x = arg_of(subs.get(sub), 'bank_addrs')
        if x is None or num(x, 'number_of_values') != 3 and (num(x, 'min_values') != 3 or num(x, 'max_values') != 3): return None
        k = None
        out = []
        for h in R.nodes:
            if h.kind != 'loop' or h.data[0] != t.args[1] or t not in h.store.values(): continue
            for g in heads_into(h):
                rs = [r for r, y in g.store.items() if y is t]
                if len(rs) != 1: return None
                for e in g.ents or ():
                    y = e.store.get(rs[0])
                    if y is None or not (y.op == 'rep' and y.args[1] is Int(3) or y.op == 'vec' and len(y.args[0]) == 3): return None
                for tr, b, hn in g.backs or ():
                    y = b.store.get(rs[0])
                    if y is None or y.op != 'upd' or y.args[0] is not t or y.args[1].op != 'kap' or y.args[1].args[1] != t.args[1]: return None
                    k = y.args[1]
                    out.append((k, y.args[2]))
        if not out: return None
        # the loop has gone through all values
        ln = {u for f in F for u in subterms(f) if u.op in ('app', 'len') and u.args[0] in ('seqlen', 'len') or u.op == 'seqlen'}
        ln = {u for u in ln if any(y.op == 'app' and y.args[0] == 'cl_values' and string(y.args[2]) == 'bank_addrs' for y in subterms(u))}
        three = {u: Int(3) for u in ln}

        def through(f, G):
            f = subst(f, three)
            if f.op == 'or': return all(through(g, G) for g in f.args)
            if f.op == 'and': return any(through(g, G) for g in f.args)
            return f is FALSE or I.entails(G | {f}, le(Int(3), k))
        G = frozenset(subst(f, three) for f in F if f.op == 'ge0')
        if not any(through(f, G) for f in F if f.op in ('or', 'ge0')): return None
        return [[subst(v, {k: Int(i)}) for k, v in out] for i in range(3)]

    def addrs(n, t, sub):
        F = n.facts
        t = fin(t)
        given = [f for f in F if any(x.op == 'app' and x.args[0] == 'cl_is_present' for x in subterms(f))]
        els = [[x] for x in t.args[0]] if t.op == 'vec' else array_filled(t, sub, F)
        if els is None or len(els) != 3: return False
        if all(x.op == 'int' for y in els for x in y):
            return [x.args[0] for x, in els] == consts and any(f.op == 'not' and f.args[0].op == 'app' and f.args[0].args[0] == 'cl_is_present' for f in F)
        if not any(f.op == 'app' and f.args[0] == 'cl_is_present' for f in F): return False
        for i, ys in enumerate(els):
            x = ys[0]
            if len(ys) > 1: vs = ys
            elif x.op == 'idx' and x.args[1].op == 'int' and x.args[0].op == 'phi':
                c = collected(I, R, x.args[0], F)
                if c is None: return False
                vs = [v for v, fs in c[1](x.args[1].args[0])]
            else: vs = [x]
            for v in vs:
                v = fin(v)
                if not (v.op == 'fld' and v.args[1] == 0 and v.args[0].op == 'app' and v.args[0].args[0].endswith('from_str_radix') and v.args[0].args[2] is Int(16)): return False
                e = v.args[0].args[1]
                if not (e.op == 'idx' and e.args[0].op == 'app' and e.args[0].args[0] == 'cl_values' and e.args[1] is Int(i)): return False
                if level(e.args[0].args[1], F) is not subs.get(sub) or string(e.args[0].args[2]) != 'bank_addrs': return False
        return True

    def sub_of(F):
        r = {x for x in (chosen(f) for f in F) if x}
        return r.pop() if len(r) == 1 else None

    count = {}

    def one(sub, n, ok, what, msg):
        ck.req(ok, 'subcommand', '%s %s' % (sub, what), n, msg)

    def conv(n, sub):
        c = rn.closure(n)
        if c is None: return False
        I2, R2 = ck.analyse(c[0], opaque=lambda k: k in rn.op)
        env = R2.args[0]

        def cap(t):
            t = fin(t)
            if t.op == 'fld' and t.args[0] is fin(env): return c[1][t.args[2]]
            return t
        cs = R2.events('call', lambda x: x.data[0] == rn.k['from_midi'])
        if not cs: return False
        for x in cs:
            bs = [cap(a) for a in x.data[2] if bool_like(a)]
            if len(bs) != 2 or not optim(n.facts, fin_keep(bs[0])) or not verbose(n.facts, fin_keep(bs[1])): return False
        for x in R2.events('call', lambda x: x.data[0] == rn.k['read']):
            bs = [cap(a) for a in x.data[2] if bool_like(a)]
            if len(bs) != 1 or not verbose(n.facts, fin_keep(bs[0])): return False
        return True

    for n in rn.calls('write'):
        sub = sub_of(n.facts)
        count.setdefault(sub, []).append(n)
        a = [x for x in n.data[2]]
        if sub not in ('build_rom', 'all_overworld', 'file_select'):
            one(sub, n, False, 'writes', 'a ROM is written by the subcommand %s' % sub)
            continue
        m = fin_keep(a[0])
        if sub == 'build_rom':
            ok = m.op == 'fld' and m.args[1] == 0 and m.args[0].op in ('app', 'res') and (m.args[0].args[0] if m.args[0].op == 'app' else m.args[0].args[1]) == rn.k['load'] and \
                path(n.facts, (m.args[0].args[1] if m.args[0].op == 'app' else m.args[0].args[3][0]), sub, 'MANIFEST')
            one(sub, n, ok, 'manifest', 'the ROM is built from %s' % show(m)[:120])
        else:
            bs = manifest_banks(ck, m)
            ins_ = set()
            for b in bs or ():
                c = collected(I, R, b, n.facts) if b is not None else None
                for i in range(c[0] or 0) if c else ():
                    for x, fs in c[1](i):
                        if x.op == 'adt' and is_some(x.args[3][ck.field('manifest::Song', 'input')]): ins_.add((fin(payload(x.args[3][ck.field('manifest::Song', 'input')])), ) + ((b is bs[0] and i),))
            one(sub, n, bool(ins_) and all(path(n.facts, x[0], sub, 'INPUT') for x in ins_), 'input', 'the song comes from %s' % [show(x[0])[:80] for x in ins_][:2])
            want = 34 if sub == 'all_overworld' else 1
            tot = sum(1 for b in bs or () for c in [collected(I, R, b, n.facts)] if c for i in range(c[0] or 0) if all(x.op == 'adt' and is_some(x.args[3][ck.field('manifest::Song', 'input')]) for x, fs in c[1](i)))
            one(sub, n, tot == want, 'slots', 'the song is put in %d slots instead of %d' % (tot, want))
        one(sub, n, path(n.facts, a[1], sub, 'ROM'), 'ROM', 'the ROM that is written is %s' % show(a[1])[:100])
        one(sub, n, addrs(n, fin_keep(a[2]), sub), 'bank addresses', 'the bank addresses are %s' % show(a[2])[:200])
        one(sub, n, conv(n, sub), 'optimisation and verbosity', 'the converter does not get the optimisation and verbosity flags')
        one(sub, n, verbose(n.facts, fin_keep(a[-1])), 'verbosity', 'the verbosity is %s' % show(a[-1])[:100])
    for n in rn.calls('fake'):
        sub = sub_of(n.facts)
        count.setdefault(sub, []).append(n)
        a = n.data[2]
        one(sub, n, sub == 'gen_fake_rom', 'writes', 'a dummy ROM is written by the subcommand %s' % sub)
        one(sub, n, path(n.facts, a[0], sub, 'INPUT') and path(n.facts, a[1], sub, 'OUTPUT'), 'files', 'the dummy ROM is made from %s into %s' % (show(a[0])[:80], show(a[1])[:80]))
        one(sub, n, addrs(n, fin_keep(a[2]), sub), 'bank addresses', 'the bank addresses are %s' % show(a[2])[:200])
    for n in rn.calls('read'):
        sub = sub_of(n.facts)
        a = n.data[2]
        count.setdefault(sub, []).append(n)
        one(sub, n, sub in ('dump_midi', 'midi2json') and path(n.facts, a[1], sub, 'INPUT') and fresh(ck, a[0]), 'reads', 'a MIDI file is read from %s' % show(a[1])[:100])
        one(sub, n, verbose(n.facts, fin_keep(a[2])), 'verbosity', 'the verbosity is %s' % show(a[2])[:100])
    for n in rn.calls('from_midi'):
        sub = sub_of(n.facts)
        a = n.data[2]
        count.setdefault((sub, 'convert'), []).append(n)
        bs = [x for x in a[1:] if bool_like(x)]
        one(sub, n, sub == 'midi2json' and reader_of(rn, fin_keep(a[0])) is not None and len(bs) == 2 and optim(n.facts, fin_keep(bs[0])) and verbose(n.facts, fin_keep(bs[1])), 'optimisation and verbosity', 'a song is converted with %s' % [show(x)[:80] for x in a[1:]])
        one(sub, n, any(x.op == 'float' and abs(x.args[0] - DEFAULT_TEMPO) < 1e-6 for x in a), 'tempo', 'a song is not converted with the default tempo factor')
    for n in rn.calls('to_json'):
        sub = sub_of(n.facts)
        a = n.data[2]
        count.setdefault((sub, 'write'), []).append(n)
        s = fin_keep(a[0])
        ok = s.op == 'fld' and s.args[1] == 0 and (s.args[0].args[0] if s.args[0].op == 'app' else s.args[0].args[1] if s.args[0].op == 'res' else '') == rn.k['from_midi']
        one(sub, n, sub == 'midi2json' and ok and path(n.facts, a[1], sub, 'OUTPUT'), 'writes', '%s is written to %s' % (show(s)[:60], show(a[1])[:80]))
    # every declared subcommand is carried out on every way to success
    main_call = {'build_rom': 'write', 'all_overworld': 'write', 'file_select': 'write', 'dump_midi': 'read', 'midi2json': 'to_json', 'gen_fake_rom': 'fake'}
    for d in top.subs:
        ck.req(d.name in main_call and (d.name in count), 'subcommand', 'handled ' + str(d.name), (rn.key, ''), 'the declared subcommand %s is not handled' % d.name)
    for x in main_call: ck.req(x in subs, 'subcommand', 'declared ' + x, (rn.key, ''), 'the subcommand %s is not declared' % x)
    for s, v in R.rets:
        if is_err(v): continue
        memo = {}
        start = {n.id for n in R.nodes if n.kind == 'start'}
        for q in back_paths(s.trace, start, lambda x: x.kind == 'call' and x.data[0] in rn.op or x.kind == 'br', memo, cap=20000):
            F = set(s.facts).union(*[x.facts for x in q])
            if any(Not(f) in F or f.op == 'var' and any(g.op == 'var' and g.args[0] is f.args[0] and g.args[1] != f.args[1] for g in F) for f in F): continue
            if any(chosen(f) and f.op == 'eq' for f in F) and any(f.op == 'var' and f.args[1] == 0 and f.args[0].op == 'app' and f.args[0].args[0] == 'cl_matches' for f in F): continue
            calls = [x for x in q if x.kind == 'call']
            if not calls:
                # none of the subcommands was selected
                sel = sub_of(F)
                ck.req(sel is None, 'subcommand', 'carried out', s.trace, 'the subcommand %s can end without doing anything' % sel)
                for d in top.subs:
                    ck.req(refuted(I, F, rn, d.name), 'subcommand', 'carried out ' + d.name, s.trace, 'the subcommand %s can end without doing anything' % d.name)
                continue
            for c in calls:
                sub = sub_of(c.facts)
                ck.req(sub in main_call and any(x.data[0] == rn.k[main_call[sub]] for x in calls), 'subcommand', 'completed %s' % sub, c, 'the subcommand %s can end well without %s' % (sub, main_call.get(sub)))


def refuted(I, F, rn, name):
    """do the facts say that the subcommand was not selected?"""
    no = lambda t: any(f.op == 'var' and f.args[0] is t and f.args[1] == 0 for f in F) or Not(mk('var', t, 1)) in F
    for f in F:
        for t in subterms(f):
            if t.op == 'app' and t.args[0] == 'cl_subcommand_matches' and string(t.args[2]) == name and no(t): return True
            if t.op == 'app' and t.args[0] in ('cl_name', 'cl_subcommand_name'):
                if any(g.op == 'not' and g.args[0].op == 'eq' and any(string(x) == name for x in g.args[0].args) for g in F): return True
                if no(t): return True
            if t.op == 'app' and t.args[0] == 'cl_matches' and no(t): return True
    return False


def bool_like(t):
    return t in (TRUE, FALSE) or t.ty == 'bool' or t.op == 'not'


DEFAULTS = [0x914, 0x926, 0x932]

RULES = {'P24': p24, 'P25': p25, 'P26': p26}
