// Shared by the demonstrations: MIDI files, synthetic ROMs, a reader for both, an N-SPC interpreter.
#![allow(dead_code, unused_imports)]
use midi2spc::manifest::{Bank, Manifest};
use midi2spc::midi::MidiHandler;
use midi2spc::nspc::Song;
use std::fs;
use std::fs::File;
use std::io::{Cursor, Read, Write};
use std::path::{Path, PathBuf};

pub fn tmp(name: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("DEMO_TMP").expect("DEMO_TMP"));
    d.join(name)
}

// ------------------------------------------------------------------ MIDI
pub fn vlq(mut v: u32) -> Vec<u8> {
    let mut o = vec![(v & 0x7f) as u8];
    v >>= 7;
    while v > 0 {
        o.insert(0, (v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    o
}

pub fn smf_tracks(name: &str, tpb: u16, tracks: &[Vec<(u32, Vec<u8>)>]) -> PathBuf {
    let p = tmp(&format!("{}.mid", name));
    let mut f = File::create(&p).unwrap();
    f.write_all(b"MThd\0\0\0\x06\0\x01").unwrap();
    f.write_all(&[0, tracks.len() as u8, (tpb >> 8) as u8, tpb as u8]).unwrap();
    for evs in tracks {
        let mut t = vec![];
        let mut last = 0;
        for &(at, ref b) in evs {
            t.extend(vlq(at - last));
            last = at;
            t.extend(b.iter().cloned());
        }
        t.extend(vec![0, 0xff, 0x2f, 0]);
        let l = t.len() as u32;
        f.write_all(b"MTrk").unwrap();
        f.write_all(&[(l >> 24) as u8, (l >> 16) as u8, (l >> 8) as u8, l as u8]).unwrap();
        f.write_all(&t).unwrap();
    }
    p
}

pub fn smf(name: &str, tpb: u16, evs: &[(u32, Vec<u8>)]) -> PathBuf {
    smf_tracks(name, tpb, &[evs.to_vec()])
}

pub fn on(c: u8, n: u8, v: u8) -> Vec<u8> {
    vec![0x90 | c, n, v]
}
pub fn off(c: u8, n: u8) -> Vec<u8> {
    vec![0x80 | c, n, 0]
}
pub fn prog(c: u8, p: u8) -> Vec<u8> {
    vec![0xc0 | c, p]
}
pub fn ctrl(c: u8, k: u8, v: u8) -> Vec<u8> {
    vec![0xb0 | c, k, v]
}

// notes of 24 ticks each on channel 0
pub fn melody(notes: &[u8]) -> Vec<(u32, Vec<u8>)> {
    let mut v = vec![];
    let mut t = 0;
    for &n in notes {
        v.push((t, on(0, n, 80)));
        t += 24;
        v.push((t, off(0, n)));
    }
    v
}

// ------------------------------------------------------------------ songs
pub fn song(p: &Path, opt: bool) -> Song {
    let mut m = MidiHandler::new();
    m.read(p, false).unwrap();
    Song::from_midi(&m, 0.2, opt, false).unwrap()
}

pub fn json_song(name: &str, json: &str) -> PathBuf {
    let p = tmp(&format!("{}.json", name));
    File::create(&p).unwrap().write_all(json.as_bytes()).unwrap();
    p
}

// the tracks' bytes; call loops point at 0xcc00 + track number
pub fn track_bytes(s: &Song) -> Vec<Vec<u8>> {
    (0..s.get_num_tracks())
        .map(|i| {
            let mut c = Cursor::new(vec![]);
            let mut cl = vec![];
            s.write_track(&mut c, i, &mut cl).unwrap();
            let mut b = c.into_inner();
            for l in cl {
                b[l.ref_pos as usize] = l.target_track as u8;
                b[l.ref_pos as usize + 1] = 0xcc;
            }
            b
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub dur: u8,
    pub vel: u8,
    pub bytes: Vec<u8>,
}

pub fn operands(op: u8) -> usize {
    [1, 1, 2, 3, 0, 1, 2, 1, 2, 1, 1, 3, 0, 1, 2, 3, 1, 3, 3, 0, 1, 3, 0, 3, 3, 3, 1][(op - 0xe0) as usize]
}

// what the sound driver does with a track: notes, ties and rests with the duration and velocity
// they play with, other commands with their operands
pub fn interpret(get: &dyn Fn(usize) -> u8, at: usize, ptr: &dyn Fn(usize) -> usize, st: &mut (u8, u8), out: &mut Vec<Op>, depth: usize) {
    assert!(depth < 3, "call loops nest");
    let mut p = at;
    loop {
        let b = get(p);
        p += 1;
        if b == 0 {
            return;
        }
        if b < 0x80 {
            st.0 = b;
            if get(p) < 0x80 && get(p) > 0 {
                st.1 = get(p);
                p += 1;
            }
            continue;
        }
        if b < 0xe0 {
            out.push(Op { dur: st.0, vel: st.1, bytes: vec![b] });
            continue;
        }
        if b == 0xef {
            let target = ptr(get(p) as usize | (get(p + 1) as usize) << 8);
            let n = get(p + 2);
            p += 3;
            for _ in 0..n {
                interpret(get, target, ptr, st, out, depth + 1);
            }
            continue;
        }
        let n = operands(b);
        let mut v = vec![b];
        for i in 0..n {
            v.push(get(p + i));
        }
        out.push(Op { dur: 0, vel: 0, bytes: v });
        p += n;
    }
}

// all tracks of a song as played
pub fn play(s: &Song) -> Vec<Vec<Op>> {
    let ts = track_bytes(s);
    let mut flat = vec![];
    let mut base = vec![];
    for t in &ts {
        base.push(flat.len());
        flat.extend(t.iter().cloned());
    }
    s.get_part_tracks(0)
        .iter()
        .map(|&i| {
            let mut out = vec![];
            interpret(&|p| flat[p], base[i], &|w| base[w & 0xff], &mut (0, 0), &mut out, 0);
            out
        })
        .collect()
}

pub fn ticks(ops: &[Op]) -> u32 {
    ops.iter().map(|o| o.dur as u32).sum()
}

// ------------------------------------------------------------------ ROM
pub const BASES: [u32; 3] = [0x914, 0x926, 0x932];
pub const FIRST: [usize; 3] = [0x36, 0x46, 0x46];
pub const SONGS: [usize; 3] = [15, 16, 3];

pub struct RomBank {
    pub d000: usize, // data position of the first chunk
    pub len: usize,
    pub over: usize,
    pub over_len: usize,
    pub over_aram: usize,
}

// 256K image of 0xAA; each bank has a leading chunk, the 0xD000 chunk, the overflow chunk, a terminator
pub fn build_rom(name: &str, lens: [(usize, usize); 3]) -> (PathBuf, Vec<u8>, Vec<RomBank>) {
    let mut d = vec![0xaau8; 0x40000];
    let mut at = 0x18000;
    let mut banks = vec![];
    for b in 0..3 {
        let (len, over_len) = lens[b];
        // LoROM address of `at`
        let snes = ((at & 0x38000) << 1) | (at & 0x7fff) | 0x8000;
        d[BASES[b] as usize] = snes as u8;
        d[BASES[b] as usize + 4] = (snes >> 8) as u8;
        d[BASES[b] as usize + 8] = (snes >> 16) as u8;
        let header = |d: &mut Vec<u8>, at: usize, len: usize, aram: usize| {
            d[at] = len as u8;
            d[at + 1] = (len >> 8) as u8;
            d[at + 2] = aram as u8;
            d[at + 3] = (aram >> 8) as u8;
        };
        header(&mut d, at, 0x10, 0x3c00);
        at += 0x14;
        header(&mut d, at, len, 0xd000);
        let d000 = at + 4;
        at += 4 + len;
        header(&mut d, at, over_len, 0x2b00);
        let over = at + 4;
        at += 4 + over_len;
        header(&mut d, at, 0, 0x0800);
        at += 4;
        banks.push(RomBank { d000: d000, len: len, over: over, over_len: over_len, over_aram: 0x2b00 });
    }
    let p = tmp(&format!("{}.smc", name));
    File::create(&p).unwrap().write_all(&d).unwrap();
    (p, d, banks)
}

pub fn read_file(p: &Path) -> Vec<u8> {
    let mut v = vec![];
    File::open(p).unwrap().read_to_end(&mut v).unwrap();
    v
}

impl RomBank {
    // ROM position of a sound RAM address
    pub fn pos(&self, aram: usize) -> usize {
        if aram >= 0xd000 {
            assert!(aram - 0xd000 < self.len, "address {:x} outside the first chunk", aram);
            self.d000 + aram - 0xd000
        } else {
            assert!(aram >= self.over_aram && aram - self.over_aram < self.over_len, "address {:x} outside the chunks", aram);
            self.over + aram - self.over_aram
        }
    }
}

pub fn word(d: &[u8], p: usize) -> usize {
    d[p] as usize | (d[p + 1] as usize) << 8
}

pub struct RomSong {
    pub header: usize,
    pub loops: bool,
    pub slots: Vec<usize>,
    pub played: Vec<Vec<Op>>,
}

// the songs of a bank as the game sees them
pub fn read_song(d: &[u8], bank: &RomBank, slot: usize) -> RomSong {
    let aram = word(d, bank.d000 + slot * 2);
    let header = bank.pos(aram);
    let part = bank.pos(word(d, header));
    let loops = word(d, header + 2) == 0xff;
    if loops {
        assert_eq!(aram, word(d, header + 4), "loop target");
        assert_eq!(0, word(d, header + 6), "header terminator");
        assert_eq!(header + 8, part);
    } else {
        assert_eq!(0, word(d, header + 2), "header terminator");
        assert_eq!(header + 4, part);
    }
    let slots = (0..8).map(|i| word(d, part + 2 * i)).collect::<Vec<_>>();
    let mut played = vec![];
    for &s in &slots {
        if s != 0 {
            let mut out = vec![];
            interpret(&|p| d[p], bank.pos(s), &|w| bank.pos(w), &mut (0, 0), &mut out, 0);
            played.push(out);
        }
    }
    RomSong { header: header, loops: loops, slots: slots, played: played }
}

pub fn entry(input: Option<&Path>, loops: bool) -> midi2spc::manifest::Song {
    midi2spc::manifest::Song { input: input.map(|p| p.to_path_buf()), tempo_factor: 0.2, loops: loops }
}

// a manifest whose songs are all empty
pub fn manifest() -> Manifest {
    let bank = |name, n| Bank { name: name, songs: (0..n).map(|_| entry(None, false)).collect() };
    Manifest { banks: [bank("overworld", 15), bank("indoor", 16), bank("ending", 3)] }
}

pub fn convert(p: &Path, f: f32, opt: bool) -> Song {
    let mut m = MidiHandler::new();
    m.read(p, false).unwrap();
    Song::from_midi(&m, f, opt, false).unwrap()
}

// what the conversion of an input plays like, before it is put into a ROM
pub fn expected(p: &Path) -> Vec<Vec<Op>> {
    if p.extension().map_or(false, |e| e == "mid") {
        play(&convert(p, 0.2, true))
    } else {
        play(&Song::from_json(p).unwrap())
    }
}

pub fn write_rom(m: &Manifest, rom: &Path) -> Result<(), String> {
    let conv = |p: &Path, f: f32| {
        if p.extension().map_or(false, |e| e == "mid") {
            let mut m = MidiHandler::new();
            m.read(p, false)?;
            Song::from_midi(&m, f, true, false)
        } else {
            Song::from_json(p)
        }
    };
    midi2spc::rom::write(m, rom, BASES, &conv, false).map_err(|e| format!("{}", e))
}

// every song of the manifest is in the ROM, plays as it should, and nothing else changed
pub fn check_rom(m: &Manifest, before: &[u8], after: &[u8], banks: &[RomBank]) {
    assert_eq!(before.len(), after.len(), "image size");
    let mut first = 0;
    for b in 0..3 {
        for (i, s) in m.banks[b].songs.iter().enumerate() {
            let r = read_song(after, &banks[b], first + i);
            assert_eq!(s.loops, r.loops);
            let want = match s.input {
                Some(ref p) => expected(p),
                None => vec![],
            };
            assert_eq!(want, r.played, "bank {} song {}", b, i);
            for k in want.len()..8 {
                assert_eq!(0, r.slots[k], "unused part table slot");
            }
        }
        first += m.banks[b].songs.len();
        let mut p = banks[b].d000 + first * 2;
        while p < banks[b].d000 + FIRST[b] {
            assert_eq!(0, after[p], "unused song table entry");
            p += 1;
        }
    }
    for i in 0..before.len() {
        let inside = banks.iter().any(|b| (i >= b.d000 && i < b.d000 + b.len) || (i >= b.over && i < b.over + b.over_len));
        assert!(inside || before[i] == after[i], "byte {:x} outside the chunks changed", i);
    }
}
