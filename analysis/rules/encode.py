"""P10, P11, P12: the byte encoding of commands and tracks."""
from .base import *

PC = 'nspc::command::ParameterizedCommand'
CMD = 'nspc::command::Command'
CUR = 'core::io::cursor::Cursor'
CUR_T = '&mut core::io::cursor::Cursor<alloc::vec::Vec<u8>>'
CLR = '&mut alloc::vec::Vec<nspc::CallLoopRef>'

# the N-SPC command set (Zelda 3 sound driver): opcode and number of operand bytes
OPCODES = {
    'Tie': (0xc8, 0), 'Rest': (0xc9, 0), 'SetInstrument': (0xe0, 1), 'Pan': (0xe1, 1), 'PanFade': (0xe2, 2), 'Vibrato': (0xe3, 3),
    'VibratoOff': (0xe4, 0), 'MasterVolume': (0xe5, 1), 'MasterVolumeFade': (0xe6, 2), 'Tempo': (0xe7, 1), 'TempoFade': (0xe8, 2),
    'GlobalTranspose': (0xe9, 1), 'ChannelTranspose': (0xea, 1), 'Tremolo': (0xeb, 3), 'TremoloOff': (0xec, 0), 'ChannelVolume': (0xed, 1),
    'ChannelVolumeFade': (0xee, 1), 'CallLoop': (0xef, 3), 'VibratoFade': (0xf0, 1), 'PitchEnvelopeTo': (0xf1, 3), 'PitchEnvelopeFrom': (0xf2, 3),
    'PitchEnvelopeOff': (0xf3, 0), 'Tuning': (0xf4, 1), 'EchoVolume': (0xf5, 3), 'EchoOff': (0xf6, 0), 'EchoParams': (0xf7, 3),
    'EchoVolumeFade': (0xf8, 3), 'PitchSlide': (0xf9, 3), 'PercussionPatchBase': (0xfa, 1),
}


def command(ck, k):
    """(variant name, its operands, a Command value of variant k with symbolic operands)"""
    va = ck.adt(CMD)['variants'][k]
    ps = [Sym('p%d' % (i + 1), t) for i, (n, t) in enumerate(va['fields'])]
    return va['name'], ps, Adt(CMD, k, va['name'], ps)


def pc_write(ck):
    return ck.fn(PC + '::write', (('&' + PC, CUR_T, 'u8', 'core::option::Option<u8>', CLR), None))


def pc_value(ck, cmd, dur=None, vel=None, sus=None):
    o = 'core::option::Option<u8>'
    vals = {'duration': dur or Sym('duration', o), 'velocity': vel or Sym('velocity', o), 'sustain': sus or Sym('sustain', o), 'command': cmd}
    fs = ck.adt(PC)['variants'][0]['fields']
    for n, t in fs:
        if n not in vals: raise Missing('unexpected field %s of %s' % (n, PC))
    return Adt(PC, 0, 'ParameterizedCommand', [vals[n] for n, t in fs])


def written(v0, v1):
    """bytes a cursor received: (position term, bytes) or None if it cannot be told"""
    if v1 is v0: return ()
    c0, p0 = field(v0, None, 0, 'inner', None), field(v0, None, 1, 'pos', 'u64')
    c1, p1 = field(v1, None, 0, 'inner', None), field(v1, None, 1, 'pos', 'u64')
    out = ()
    while c1 is not c0:
        if c1.op != 'wr': return None
        if addc(c1.args[1], len(c1.args[2])) is not p1: return None
        out = c1.args[2] + out
        p1 = c1.args[1]
        c1 = c1.args[0]
    return out if p1 is p0 else None


def command_paths(ck):
    """every path of the encoder for every command variant:
    yields (variant name, operands, facts, bytes, duration out, velocity out, call loops pushed, position, node, I)"""
    key = pc_write(ck)
    f = ck.prog.fns[key]
    names = {}
    for k in range(len(ck.adt(CMD)['variants'])):
        name, ps, cmd = command(ck, k)
        selfv = ref_to(pc_value(ck, cmd))
        I, R = ck.analyse(key, args=[selfv], cap=5000, unroll=8)
        out, loops = R.args[1], R.args[4]
        v0 = mk('deref', out, ty=deref_ty(out.ty))
        l0 = mk('deref', loops, ty=deref_ty(loops.ty))
        for s, v in R.rets:
            n = s.trace
            if is_err(v): continue
            v1 = s.store.get(('H', out), v0)
            l1 = s.store.get(('H', loops), l0)
            by = written(v0, v1)
            pushed = ()
            while l1 is not l0 and l1.op == 'push':
                pushed = (l1.args[1],) + pushed
                l1 = l1.args[0]
            if l1 is not l0: pushed = None
            d = vv = None
            if is_ok(v) and payload(v).op == 'adt' and len(payload(v).args[3]) == 2:
                d, vv = payload(v).args[3]
            yield name, ps, cmd, I, s, by, d, vv, pushed, field(v0, None, 1, 'pos', 'u64'), R.args


def ref_to(v):
    return X.ref_to(v)


def p10(ck):
    """path-sensitive abstract interpretation of the MIR of the command encoder; written byte sequences compared with the opcode table ::
    For every command variant with symbolic operands, on every path through the encoder and everything it calls, the bytes
    emitted to the output are the opcode and all operands in order, after at most a duration and a velocity byte; a call loop
    reports its target and the position of its address bytes, no other command reports one."""
    names = [v['name'] for v in ck.adt(CMD)['variants']]
    for n in list(OPCODES) + ['Note']:
        ck.req(n in names, 'variants', n, None, 'song command %s no longer exists' % n)
    paths = {}
    for name, ps, cmd, I, s, by, d, vv, pushed, pos, args in command_paths(ck):
        w = s.trace
        w = (pc_write(ck), 'command ' + name)
        paths[name] = paths.get(name, 0) + 1
        if name == 'Note':
            want = (ps[0],)
        elif name in OPCODES:
            op, n = OPCODES[name]
            if name == 'CallLoop':
                want = (Int(op), None, None, ps[1])
            else:
                want = (Int(op),) + tuple(ps)
                ck.req(len(ps) == n, 'operand count', name, w, '%s takes %d operand bytes, the command has %d fields' % (name, n, len(ps)))
        else:
            ck.bad('variants', name, w, 'command %s has no N-SPC encoding in the table' % name)
            continue
        if by is None:
            ck.req(False, 'bytes', name, w, 'the bytes written for %s are not a fixed sequence at the current position' % name)
            continue
        tail = by[len(by) - len(want):] if len(by) >= len(want) else None
        good = tail is not None and len(by) - len(want) <= 2 and all(x is None or same_byte(I, s, x, y) for x, y in zip(want, tail))
        ck.req(good, 'bytes', name, w, '%s is written as [%s], expected %s after at most a duration and a velocity byte' %
               (name, ', '.join(show(b) for b in by), [show(x) if x is not None else 'addr' for x in want]))
        # the bytes in front are the duration / velocity bytes, never something else
        if pushed is None:
            ck.req(False, 'call loop reference', name, w, 'call-loop references of %s cannot be told' % name)
        elif name == 'CallLoop':
            okp = len(pushed) == 1 and pushed[0].op == 'adt'
            if okp:
                ft = ck.field('nspc::CallLoopRef', 'target_track')
                fp = ck.field('nspc::CallLoopRef', 'ref_pos')
                okp = pushed[0].args[3][ft] is ps[0] and tail is not None and pushed[0].args[3][fp] is addc(pos, len(by) - 3)
            ck.req(okp, 'call loop reference', name, w, 'the call loop must report its target track and the position of its two address bytes, got %s' % show(pushed))
        else:
            ck.req(len(pushed) == 0, 'call loop reference', name, w, '%s reports a call-loop reference' % name)
    ck.floor(len(paths), 30, 'variants', 'command variants with a successful path')


def same_byte(I, s, want, got):
    if want is got: return True
    return I.prove(s, int_eq(want, got)) if (want.op == 'int' or want.ty) and got.op != 'adt' else False


def p11(ck):
    """path-sensitive abstract interpretation of the encoder as a transformer of the driver state; bit-provenance of the velocity byte; value-flow of the state between commands ::
    For every command, every combination of requested, zero and absent duration, velocity and sustain and of known and unknown
    current velocity, on every path: the bytes in front of the command leave the driver with what was asked for, nothing
    unchanged is repeated, and the recorded state is the driver's; in the track writer the state handed to each command is the
    one its predecessor returned, or after a call loop the one the called track leaves (or none)."""
    o = 'core::option::Option<u8>'
    key = pc_write(ck)
    w7 = lambda n, m: binop('BitAnd', Sym(n, 'u8'), Int(m), 'u8')
    dv, vv, sv, pv = w7('duration', 0x7f), w7('velocity', 15), w7('sustain', 7), w7('prev_vs', 0x7f)
    paths = 0
    for k in range(len(ck.adt(CMD)['variants'])):
        name, ps, cmd = command(ck, k)
        for dk in (None, 0, 1):
            for vk in (None, 0, 1):
                for sk in (None, 0, 1):
                    for known in (0, 1):
                        facts = [Not(eq0(t)) for t, q in ((dv, dk), (vv, vk), (sv, sk)) if q]
                        val = lambda t, q: NONE if q is None else Some(t if q else Int(0))
                        selfv = ref_to(pc_value(ck, cmd, val(dv, dk), val(vv, vk), val(sv, sk)))
                        prevv = Some(pv) if known else NONE
                        I, R = ck.analyse(key, args=[selfv, None, None, prevv, None], cap=5000, facts=facts, unroll=8)
                        out = R.args[1]
                        v0 = mk('deref', out, ty=deref_ty(out.ty))
                        for s, v in R.rets:
                            if is_err(v): continue
                            paths += 1
                            w = (key, 'command ' + name)
                            inst = '%s duration=%s velocity=%s sustain=%s state=%s' % (name, *('-' if q is None else '0' if not q else 'x' for q in (dk, vk, sk)), 'known' if known else 'unknown')
                            by = written(v0, s.store.get(('H', out), v0))
                            if by is None or not (is_ok(v) and payload(v).op == 'adt' and len(payload(v).args[3]) == 2):
                                ck.req(False, 'state', inst, w, 'the written bytes or the returned state cannot be told')
                                continue
                            d, v1 = payload(v).args[3]
                            n = {'CallLoop': 4, 'Note': 1}.get(name, 1 + len(ps))
                            pre = by[:len(by) - n]
                            if not ck.req(len(by) >= n and len(pre) <= 2, 'framing', inst, w, 'unexpected bytes [%s]' % ', '.join(show(x) for x in by)): continue
                            case11(ck, I, s.facts, name, inst, w, pre, R.args[2], pv, d, v1, dv if dk else None, vv if vk else None, sv if sk else None, known)
    ck.floor(paths, 1600, 'state', 'encoder paths')
    p11_track(ck)


def case11(ck, I, f, name, inst, w, pre, prev, pv, d, v, askd, askv, asks, known):
    ent = lambda c: I.entails(f, c)
    same = lambda a, b: a is b or ent(int_eq(a, b))
    newd = pre[0] if pre else prev
    if askd is not None:
        ck.req(same(newd, askd), 'duration', inst, w, 'the command asks for duration %s but the driver is left at %s' % (show(askd), show(newd)))
        if len(pre) == 1:
            ck.req(ent(Not(int_eq(askd, prev))), 'no repetition', inst, w, 'an unchanged duration is written again')
    elif pre:
        ck.req(same(pre[0], prev), 'duration', inst, w, 'a duration byte %s that was not asked for and is not the current one' % show(pre[0]))
        ck.req(len(pre) == 2, 'no repetition', inst, w, 'a duration byte is repeated without a velocity byte after it')
    # the recorded duration is the driver's (0 is never a real duration and forces the next one to be written)
    ck.req(same(d, newd) or (askd is None and ent(eq0(d))), 'duration state', inst, w, 'encoder records duration %s, driver has %s' % (show(d), show(newd)))
    got = pre[1] if len(pre) == 2 else None
    asked = askv is not None or asks is not None
    if got is not None:
        ck.req(is_some(v) and same(payload(v), got), 'velocity state', inst, w, 'velocity byte %s is written but the encoder records %s' % (show(got), show(v)))
        ck.req(not known or ent(Not(int_eq(got, pv))), 'no repetition', inst, w, 'an unchanged velocity/sustain byte is written again')
        ck.req(asked or (name == 'Note' and not known), 'no repetition', inst, w, 'velocity byte %s that was not asked for' % show(got))
    else:
        ck.req(is_some(v) and same(payload(v), pv) if known else is_none(v), 'velocity state', inst, w, 'no velocity byte is written but the encoder records %s' % show(v))
    cur = got if got is not None else (pv if known else None)
    if asked:
        base = pv if known else Int(0x7d)
        ck.req(cur is not None and vs_equal(f, cur, askv, asks, base), 'velocity', inst, w, 'velocity/sustain %s/%s asked for, driver is left at %s' %
               (show(askv) if askv else 'unchanged', show(asks) if asks else 'unchanged', show(cur) if cur else 'unknown'))
    elif name == 'Note':
        ck.req(cur is not None, 'velocity', inst, w, 'a note is written while the driver velocity is not known')


def vs_equal(f, cur, askv, asks, base):
    """low nibble = velocity asked for or the current one, bits 4-6 = sustain asked for or the current one"""
    alts = [cur]
    for fact in f:
        if fact.op == 'eq0':            # cur == other, established by a comparison on the path
            c, d = lin_parts(fact.args[0])
            if abs(d.get(cur, 0)) == 1:
                alts.append(sub(cur, scale(fact.args[0], d[cur])))
            elif cur.op == 'bin':
                e = sub(cur, fact.args[0])
                alts.append(e)
                alts.append(add(cur, fact.args[0]))
    return any(vs_bits(t, askv, asks, base) for t in alts)


def vs_bits(t, askv, asks, base):
    lo, hi = term_range(t)
    if lo is None or lo < 0: return False
    b, bb = vbits(t, 8), vbits(base, 8)
    vb = vbits(askv, 8) if askv is not None else None
    sb = vbits(asks, 8) if asks is not None else None
    want = [(vb[i] if vb else bb[i]) for i in range(4)] + [(sb[i] if sb else bb[i + 4]) for i in range(3)] + [0]
    return b is not None and list(b) == want


def vbits(t, n):
    """bit provenance; an OR of several sources gives the set of source bits"""
    if t.op == 'bin' and t.args[0] == 'BitOr':
        a, b = vbits(t.args[1], n), vbits(t.args[2], n)
        if a is None or b is None: return None
        out = []
        for x, y in zip(a, b):
            if x == 0: out.append(y)
            elif y == 0: out.append(x)
            elif x == 1 or y == 1: out.append(1)
            else: out.append((x if isinstance(x, frozenset) else frozenset([x])) | (y if isinstance(y, frozenset) else frozenset([y])))
        return out
    if t.op == 'bin' and t.args[2].op == 'int':
        name, a, c = t.args[0], t.args[1], t.args[2].args[0]
        if name == 'BitAnd':
            return [y if (c >> i) & 1 else 0 for i, y in enumerate(vbits(a, n))]
        if name == 'Shl': return ([0] * c + vbits(a, n))[:n]
        if name == 'Shr': return vbits(a, n + c)[c:]
    if t.op == 'lin':
        if t.args[0] < 0: return bits(t, n)
        acc = [(t.args[0] >> i) & 1 for i in range(n)]
        for u, k in t.args[1]:
            if k <= 0 or k & (k - 1): return bits(t, n)
            s = k.bit_length() - 1
            ub = ([0] * s + vbits(u, n))[:n]
            for i in range(n):
                if ub[i] != 0:
                    if acc[i] != 0: return bits(t, n)
                    acc[i] = ub[i]
        return acc
    return bits(t, n)


TRACK = 'nspc::track::Track'


def track_write(ck):
    return ck.fn(TRACK + '::write', (('&' + TRACK, CUR_T, '&[' + TRACK + ']', CLR), None))


def p11_track(ck):
    """the state is threaded from each command to the next, and re-established after a call loop"""
    pcw = pc_write(ck)
    tw = track_write(ck)
    I, R = ck.analyse(tw, opaque=lambda k: k == pcw)
    cl = ck.variant(CMD, 'CallLoop')
    fcmd = ck.field(PC, 'command')
    calls = R.events('call', lambda n: n.data[0] == pcw)
    ck.floor(len(calls), 1, 'threading', 'calls of the command encoder in the track writer')
    seen = 0
    for n in calls:
        args = n.data[1]
        d, v = args[2], args[3]
        for which, t in (('duration', d), ('velocity', v)):
            for val, facts, lid in resolve(I, t):
                seen += 1
                if facts is None: facts = n.facts
                inst = which
                if lid is None:
                    if which == 'duration':
                        ok = val.op == 'int' and not 1 <= val.args[0] <= 0x7f
                    else:
                        ok = is_none(val)
                    ck.req(ok, 'threading', inst + ' at the start', n, 'a track starts with %s %s, as if the driver had one already' % (which, show(val)))
                    continue
                src = origin(val)
                cmds = [m for m in calls if src is not None and m.data[3] is src]
                # the command just written: the one the state was returned for
                iscl = None
                for f in facts:
                    if f.op == 'var' and f.args[1] == cl and f.args[0].op == 'fld' and f.args[0].args[2] == fcmd: iscl = True
                    if f.op == 'not' and f.args[0].op == 'var' and f.args[0].args[1] == cl and f.args[0].args[0].op == 'fld': iscl = False
                    if f.op == 'var' and f.args[1] != cl and f.args[0].op == 'fld' and f.args[0].args[2] == fcmd: iscl = False
                unknown = (val.op == 'int' and not 1 <= val.args[0] <= 0x7f) if which == 'duration' else is_none(val)
                if cmds:
                    ck.req(iscl is False, 'threading', inst + ' after a command', n, 'the %s recorded before a call loop is still used after it returns' % which)
                    ck.req(is_part(val, src, 0 if which == 'duration' else 1), 'threading', inst + ' after a command', n, 'the next %s is %s, not the one the encoder returned' % (which, show(val)))
                elif unknown:
                    # forgetting the state is always safe
                    ck.req(True, 'threading', inst + ' forgotten', n, '')
                elif src is not None and src.op == 'res' and src.args[1] == tw and iscl:
                    # what the called track leaves behind
                    callee = src.args[3][0]
                    tracks = mk('deref', R.args[2], ty=deref_ty(R.args[2].ty)) if len(R.args) > 2 else None
                    tgt = [f.args[0] for f in facts if f.op == 'var' and f.args[1] == cl and f.args[0].op == 'fld' and f.args[0].args[2] == fcmd]
                    ok = callee.op == 'idx' and any(callee.args[1] is field(c, cl, 0, '0', 'usize') for c in tgt)
                    ck.req(ok, 'threading', inst + ' after a call loop', n, 'the state after a call loop is taken from %s, not from the called track' % show(callee))
                    ck.req(is_part(val, src, 0 if which == 'duration' else 1), 'threading', inst + ' after a call loop', n, 'the next %s is %s' % (which, show(val)))
                else:
                    ck.req(False, 'threading', inst, n, 'the next %s comes from %s, which does not describe the driver' % (which, show(val)))
    ck.floor(seen, 6, 'threading', 'state flows')
    # what a track leaves behind: the state after its last command
    for s, v in R.rets:
        if not is_ok(v): continue
        pair = payload(v)
        if pair.op == 'adt' and len(pair.args[3]) != 2 or pair.op == 'adt' and pair.args[0] != '()' or pair.op != 'adt' and not (pair.ty or '').startswith('('): continue
        for i, t in enumerate(pair.args[3] if pair.op == 'adt' else [field(pair, None, 0, '', 'u8'), field(pair, None, 1, '', 'core::option::Option<u8>')]):
            good = set(x for n in calls for x, f, l in resolve(I, n.data[1][2 + i]))
            vals = [x for x, f, l in resolve(I, t)]
            ck.req(all(x in good for x in vals), 'threading', 'result', s.trace, 'a track reports %s as left behind' % show(t))


def origin(v):
    """the call result a projected value comes from"""
    while v.op == 'fld': v = v.args[0]
    return v if v.op in ('res', 'app') else None


def is_part(v, src, i):
    """component i of the pair in src's Ok"""
    return v.op == 'fld' and v.args[2] == i and v.args[1] is None and v.args[0].op == 'fld' and v.args[0].args[1] == 0 and v.args[0].args[0] is src


P0 = (0xfa, 0x19, 0xe5, 0xc8, 0xed, 0xc8)
P1 = (0xed, 0xc8)


def p12(ck):
    """event-sequence (typestate) analysis over the MIR of the track writer ::
    Every path to a successful return writes preamble, command loop over all commands, one 0x00, or nothing exactly for
    an empty track; each iteration writes one command; the preamble on each path matches the membership facts (first of
    a part, in a part, in none) that hold there."""
    pcw = pc_write(ck)
    key = ck.fn('nspc::Song::write_track', (('&nspc::Song', CUR_T, 'usize', CLR), None))
    I, R = ck.analyse(key, opaque=lambda k: k == pcw)
    selfv, out, idx = R.args[0], R.args[1], R.args[2]
    song = mk('deref', selfv, ty=deref_ty(selfv.ty))
    fp, ft = ck.field('nspc::Song', 'parts'), ck.field('nspc::Song', 'tracks')
    parts = field(song, None, fp, 'parts', ck.adt('nspc::Song')['variants'][0]['fields'][fp][1])
    tracks = field(song, None, ft, 'tracks', ck.adt('nspc::Song')['variants'][0]['fields'][ft][1])
    track = I.index(None, tracks, idx)
    fc = ck.field(TRACK, 'commands')
    cmds = field(track, None, fc, 'commands', ck.adt(TRACK)['variants'][0]['fields'][fc][1])
    pt = ck.field('nspc::Part', 'tracks')
    oroot = ('H', out)

    def sym(n):
        if n.kind == 'emit' and n.data[0] == oroot:
            if not isinstance(n.data[3], tuple): return ('?', show(n.data[3]))
            return tuple(b.args[0] if b.op == 'int' else show(b) for b in n.data[3]) or None
        if n.kind == 'call' and n.data[0] == pcw and n.data[1][1] is out: return 'C'
        if n.kind in ('seek',) and n.data[0] == oroot: return 'seek'
        if n.kind in ('call', 'lib') and n.data[0] != pcw and out in n.data[1]: return ('call', n.data[0])
        return None
    nret = 0
    empty = eq0(I.length(cmds))
    loop = ('*', frozenset(['C']))
    for s, v in R.rets:
        if is_err(v): continue
        n = s.trace
        nret += 1
        for q in sequences(n, sym):
            q = join_bytes(q)
            if not q:
                ck.req(I.entails(s.facts, empty), 'framing', 'empty track', n, 'a track that may have commands is written as nothing')
                continue
            core = [x for x in q]
            ok = core[-1] == (0,) and loop in core and core.index(loop) == len(core) - 2 and core[:-2] in ([], [P0], [P1])
            ck.req(ok, 'framing', 'sequence', n, 'a track is written as %s; expected preamble, commands, one terminator' % (show_seq(q),))
            ck.req(I.entails(s.facts, Not(empty)), 'framing', 'empty track', n, 'an empty track is written as %s' % (show_seq(q),))
    ck.floor(nret, 2, 'framing', 'successful returns')
    # every command, once, in order
    heads = {}
    ncall = 0
    for n in R.events('call', lambda n: n.data[0] == pcw and n.data[1][1] is out):
        ncall += 1
        c = n.data[2][0]
        ok = c.op == 'idx' and c.args[0] is cmds and c.args[1].op == 'kap'
        ck.req(ok, 'commands', 'element', n, 'the command written is %s, not the next command of the track' % show(c))
        if ok:
            heads.setdefault(c.args[1].args[1], c.args[1])
    ck.floor(ncall, 1, 'commands', 'calls of the command encoder')
    for lid, k in heads.items():
        hs = [n for n in R.nodes if n.kind == 'loop' and n.data[0] == lid]
        for h in hs:
            for tr, b, hn in h.backs:
                c = counts(tr, hs, lambda n: n.kind == 'call' and n.data[0] == pcw and n.data[1][1] is out)
                ck.req(c == (1, 1), 'commands', 'once per step', tr, 'a command is written %s times in one step' % (c,))
        for n in R.nodes:
            if n.kind == 'emit' and n.data[0] == oroot and isinstance(n.data[3], tuple) and any(h.id in reach_back(n) for h in hs):
                ck.req(I.entails(n.facts, le(I.length(cmds), k)), 'commands', 'all before the terminator', n, 'the terminator can be written before the last command')
        # which preamble
        lead = [h for h in hs if h.preds]
        ck.floor(len(lead), 1, 'preamble', 'entries of the command loop')
        for h in lead:
            qs = set()
            for p in h.preds: qs |= {join_bytes(q) for q in sequences(p, sym)}
            for q in qs:
                first = first_of_part(I, h.facts, parts, pt, idx)
                other = in_part(I, h.facts, parts, pt, idx)
                notfirst = no_part(I, R, h, parts, lambda f, p: I.entails(f, Not(int_eq(I.index(None, tr_of(p, pt), Int(0)), idx))))
                notin = no_part(I, R, h, parts, lambda f, p: Not(mk('contains', tr_of(p, pt), idx)) in f or
                                no_elem(I, R, f, tr_of(p, pt), idx))
                for lid2, k2, said in flags_of(R, h):
                    # what a flag says that was set in a loop over the parts
                    p2 = I.index(None, parts, k2)
                    over = I.entails(h.facts, le(I.length(parts), k2))
                    c1 = int_eq(I.index(None, tr_of(p2, pt), Int(0)), idx)
                    c2 = mk('contains', tr_of(p2, pt), idx)
                    for c in (c1, c2):
                        if not flag_means(I, R, lid2, said[0], c, said[1]): continue
                        if said[1]:
                            first = first or c is c1
                            other = True
                        elif over:
                            notfirst = True
                            notin = notin or c is c2
                if q == (P0,): ok, what = first, 'first track of a part'
                elif q == (P1,): ok, what = (other and notfirst), 'other track of a part'
                elif q == (): ok, what = (notin and notfirst) or notin, 'call-loop track'
                else: continue
                ck.req(ok, 'preamble', what, h, 'the preamble %s is written for tracks that are not known to be a %s' % (show_seq(q), what))


def flags_of(R, h):
    """flags set in loops that have ended before h, about which something is known: (loop, its counter, (where the flag is kept, set?))"""
    said = set()
    for f in h.facts:
        v, yes = (f.args[0], False) if f.op == 'not' else (f, True)
        if v.op != 'phi': continue
        for n in R.nodes:
            if n.kind == 'loop' and n.data[0] == v.args[1]:
                said |= {(n.data[0], r, yes) for r, x in n.store.items() if x is v}
    # a loop with a head of its own for each value of the flag: the heads from which it was left on the way here
    left, st, seen = {}, list(h.preds), set()
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.kind == 'loop' and x.data[0] != h.data[0]:
            left.setdefault(x.data[0], []).append(x)
            continue
        st.extend(ins(x))
    for lid, hs in left.items():
        for r in set.intersection(*[set(x.store) for x in hs]):
            vs = {x.store[r] for x in hs}
            if vs <= {TRUE} or vs <= {FALSE}: said.add((lid, r, vs == {TRUE}))
    for lid, r, yes in said:
        ks = set()
        for n in R.nodes:
            if n.kind == 'loop' and n.data[0] == lid:
                ks |= {t for tr, b, hn in n.backs or () for g in b.facts for t in subterms(g) if t.op == 'kap' and t.args[1] == lid}
        for k in ks: yield lid, k, (r, yes)


def flag_means(I, R, lid, r, c, yes):
    """does the flag kept in r, when set after loop lid, mean that c held in an iteration (yes), or when unset that it did in none?"""
    n = 0
    for h in R.nodes:
        if h.kind != 'loop' or h.data[0] != lid: continue
        for e in h.ents or ():
            if yes and e.store.get(r) is not FALSE: return False
        for tr, b, hn in h.backs or ():
            x, v = b.store.get(r), hn.store.get(r)
            if x is None or v is None: return False
            n += 1
            for y, G in joined_values(I, x, b.facts):
                if yes:
                    if v is TRUE: continue
                    for z in (y.args if y.op == 'or' else (y,)):
                        if z is FALSE or z is v or z is c: continue
                        if not (I.entails(G, c) or I.entails(G | {z}, c) or I.entails(G, Not(z)) or I.entails(G, v)): return False
                else:
                    if y is TRUE or I.entails(G, y): continue
                    zs = set(y.args if y.op == 'or' else (y,))
                    H = G | {Not(z) for z in zs if z is not FALSE}
                    if not ((c in zs or I.entails(H, Not(c))) and (v in zs or v is FALSE or I.entails(H, Not(v)))): return False
    return n > 0


def joined_values(I, v, facts):
    """the values v can have, with what is known then"""
    if v.op == 'phi' and any(isinstance(a, tuple) and a[0] == 'j' for a in v.args) and v in I.phi_in:
        return [(x, (f or frozenset()) | facts) for x, f, l in I.phi_in[v]]
    return [(v, facts)]


def join_bytes(q):
    out = []
    for x in q:
        if out and isinstance(x, tuple) and isinstance(out[-1], tuple) and x and out[-1] and all(isinstance(y, int) for y in x + out[-1]):
            out[-1] = out[-1] + x
        else:
            out.append(x)
    return tuple(out)


def show_seq(q):
    return ' '.join('commands' if x == ('*', frozenset(['C'])) else str(x) for x in q) or 'nothing'


def tr_of(p, pt):
    return field(p, None, pt, 'tracks', 'alloc::vec::Vec<usize>')


def first_of_part(I, facts, parts, pt, idx):
    for f in facts:
        if f.op == 'eq0':
            for t in subterms(f):
                if t.op == 'idx' and t.args[0] is parts and I.entails(facts, int_eq(I.index(None, tr_of(t, pt), Int(0)), idx)): return True
    return False


def in_part(I, facts, parts, pt, idx):
    for f in facts:
        for t in subterms(f):
            if t.op == 'idx' and t.args[0] is parts:
                if mk('contains', tr_of(t, pt), idx) in facts: return True
                for u in subterms(f):
                    if u.op == 'idx' and u.args[0] is tr_of(t, pt) and I.entails(facts, int_eq(u, idx)): return True
    return False


def no_part(I, R, at, parts, test):
    """a loop over all parts has run to the end, and no part passed in it satisfies the negation of `test`"""
    return no_elem_by(I, R, at.facts, parts, test)


def no_elem(I, R, facts, seq, x):
    return no_elem_by(I, R, facts, seq, lambda f, e: I.entails(f, Not(int_eq(e, x))))


def no_elem_by(I, R, facts, seq, test):
    for k in exhausted(I, facts, seq):
        hs = [n for n in R.nodes if n.kind == 'loop' and n.data[0] == k.args[1]]
        backs = [(tr, b) for h in hs for tr, b, hn in h.backs]
        if backs and all(test(b.facts, I.index(None, seq, k)) for tr, b in backs): return True
    return False


RULES = {'P10': p10, 'P11': p11, 'P12': p12}
