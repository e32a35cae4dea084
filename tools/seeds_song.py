T = 'src/nspc/track.rs'
C = 'src/nspc/command.rs'
N = 'src/nspc/mod.rs'
Q = 'src/nspc/seqtree.rs'
S = {}
JS = '''
fn cmd(d: &str, c: &str) -> String {
    format!("{{\\"duration\\":{},\\"velocity\\":null,\\"sustain\\":null,\\"command\\":{}}}", d, c)
}
fn json(parts: &str, tracks: &[Vec<String>]) -> String {
    let t = tracks.iter().map(|t| format!("{{\\"commands\\":[{}]}}", t.join(","))).collect::<Vec<_>>().join(",");
    format!("{{\\"parts\\":[{}],\\"tracks\\":[{}]}}", parts, t)
}
'''
S['P10-tempo-fade-operands'] = dict(
    prop='P10', edits=[(C, '''                out.write_u8(0xe8)?;
                out.write_u8(p1)?;
                out.write_u8(p2)?;''', '''                out.write_u8(0xe8)?;
                out.write_u8(p2)?;
                out.write_u8(p1)?;''')],
    needs='a JSON song with a tempo fade (MIDI input never produces one)', breaks='the operands of a tempo fade are written in the wrong order',
    demo=JS + '''
#[test]
fn tempo_fade() {
    let p = json_song("a", &json("{\\"tracks\\":[0]}", &[vec![cmd("null", "{\\"TempoFade\\":[3,77]}"), cmd("12", "{\\"Note\\":144}")]]));
    let s = midi2spc::nspc::Song::from_json(&p).unwrap();
    assert!(play(&s)[0].iter().any(|o| o.bytes == vec![0xe8, 3, 77]));
}
''')
S['P11-sustain-change-missed'] = dict(
    prop='P11', edits=[(C, 'if prev_velocity_sustain.is_none() || prev_velocity_sustain.unwrap() != velocity_sustain', 'if prev_velocity_sustain.map_or(true, |prev| prev & 0x8f != velocity_sustain & 0x8f)')],
    needs='two notes of the same velocity and different sustain', breaks='a change of only the sustain is not written; the note plays with the sustain of the one before',
    demo='''
#[test]
fn sustain_follows() {
    let f = |v: u8, s: u8| format!("{{\\"duration\\":12,\\"velocity\\":{},\\"sustain\\":{},\\"command\\":{{\\"Note\\":144}}}}", v, s);
    let p = json_song("a", &format!("{{\\"parts\\":[{{\\"tracks\\":[0]}}],\\"tracks\\":[{{\\"commands\\":[{},{},{}]}}]}}", f(9, 7), f(9, 3), f(4, 3)));
    let s = midi2spc::nspc::Song::from_json(&p).unwrap();
    let n: Vec<u8> = play(&s)[0].iter().filter(|o| o.dur > 0).map(|o| o.vel).collect();
    assert_eq!(vec![0x79, 0x39, 0x34], n);
}
''')
S['P12-preamble-of-first-part'] = dict(
    prop='P12', edits=[(N, 'if self.parts.iter().any(|part| part.tracks[0] == track_idx) {', 'if self.parts[0].tracks[0] == track_idx {')],
    needs='a JSON song with a second part that starts with a track of its own', breaks='the first track of any part but the first lacks percussion base and global volume',
    demo=JS + '''
#[test]
fn second_part() {
    let n = || vec![cmd("12", "{\\"Note\\":144}")];
    let p = json_song("a", &json("{\\"tracks\\":[0]},{\\"tracks\\":[1,2]}", &[n(), n(), n()]));
    let b = track_bytes(&midi2spc::nspc::Song::from_json(&p).unwrap());
    assert_eq!([0xfa, 0x19, 0xe5, 0xc8, 0xed, 0xc8], b[0][..6]);
    assert_eq!([0xfa, 0x19, 0xe5, 0xc8, 0xed, 0xc8], b[1][..6]);
    assert_eq!([0xed, 0xc8], b[2][..2]);
}
''')
S['P13-slide-longer-than-note'] = dict(
    prop='P13', edits=[(C, 'command: Command::PitchSlide(duration - slide_time.min(duration), slide_time, target_note),', 'command: Command::PitchSlide(duration.wrapping_sub(slide_time), slide_time, target_note),')],
    needs='portamento with a time longer than the note it starts from', breaks='the delay of a pitch slide wraps around to a large value',
    demo='''
#[test]
fn slide_delay() {
    let mut e = vec![(0, ctrl(0, 37, 100)), (0, ctrl(0, 65, 127))];
    e.extend(vec![(0, on(0, 60, 80)), (24, off(0, 60)), (24, on(0, 64, 80)), (48, off(0, 64))]);
    let s = song(&smf("a", 24, &e), false);
    let sl: Vec<_> = play(&s)[0].iter().filter(|o| o.bytes[0] == 0xf9).cloned().collect();
    assert_eq!(1, sl.len());
    assert!(sl[0].bytes[1] < 0x80, "{:?}", sl);
}
''')
S['P17-very-long-rest'] = dict(
    prop='P17', edits=[(T, 'for _ in 0..duration.overflow_count {', 'for _ in 0..duration.overflow_count as u8 {')],
    needs='a rest of more than 255 times 127 units (over 1300 beats)', breaks='very long rests lose most of their length, and all that follows comes too early',
    demo='''
#[test]
fn long_rest() {
    let t = 24 * 1500;
    let s = song(&smf("a", 24, &[(0, on(0, 60, 80)), (24, off(0, 60)), (t, on(0, 60, 80)), (t + 24, off(0, 60))]), false);
    assert_eq!(t + 24, ticks(&play(&s)[0]));
}
''')
S['P18-portamento-low-byte'] = dict(
    prop='P18', edits=[(T, 'port_time = ((data as u16) << 8) | (port_time & 0xFF);', 'port_time = (data as u16) << 8;')],
    needs='the low byte of the portamento time sent before the high byte', breaks='the high byte of the portamento time clears the low byte',
    demo='''
#[test]
fn low_then_high() {
    let f = |name, c: &[Vec<u8>]| {
        let mut e: Vec<(u32, Vec<u8>)> = c.iter().map(|x| (0, x.clone())).collect();
        e.push((0, ctrl(0, 65, 127)));
        e.extend(vec![(0, on(0, 60, 80)), (24, off(0, 60)), (24, on(0, 64, 80)), (48, off(0, 64))]);
        let s = song(&smf(name, 24, &e), false);
        play(&s)[0].iter().filter(|o| o.bytes[0] == 0xf9).cloned().collect::<Vec<_>>()
    };
    assert_eq!(f("a", &[ctrl(0, 37, 9)]), f("b", &[ctrl(0, 37, 9), ctrl(0, 5, 0)]));
}
''')
S['P18-tempo-wraps'] = dict(
    prop='P18', edits=[(T, 'Command::Tempo((bpm * tempo_factor) as u8),', 'Command::Tempo((bpm * tempo_factor) as u32 as u8),')],
    needs='a fast song with a large tempo factor: scaled tempo above 255', breaks='tempos that do not fit in a byte wrap around instead of saturating',
    demo='''
#[test]
fn fast_tempo() {
    let mut e = vec![(0, vec![0xff, 0x51, 3, 0x01, 0x86, 0xa0])]; // 600 beats per minute
    e.extend(melody(&[60, 62]));
    let s = convert(&smf("a", 24, &e), 0.5, false);
    assert!(play(&s)[0].iter().any(|o| o.bytes == vec![0xe7, 255]), "{:?}", play(&s)[0]);
}
''')
S['P14-last-command'] = dict(
    prop='P14', edits=[(N, 'if last_index.is_none() || last_index.unwrap() < track.commands.len() {', 'if last_index.map_or(true, |idx| idx + 1 < track.commands.len()) {')],
    needs='a track with exactly one command behind its last call loop', breaks='the single command behind the last occurrence is dropped',
    demo='''
#[test]
fn one_command_left() {
    for extra in 0..4 {
        let mut n = vec![60, 62, 64, 65, 67, 60, 62, 64, 65, 67];
        for i in 0..extra {
            n.push(70 + i);
        }
        let p = smf(&format!("a{}", extra), 24, &melody(&n));
        assert!(play(&song(&p, false)) == play(&song(&p, true)), "{} notes behind", extra);
    }
}
''')
S['P15-merge-across-tracks'] = dict(
    prop='P15', edits=[(Q, '''                loc.track_idx == location.track_idx
                    && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx''', '''                loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx''')],
    needs='a sequence at the end of its occurrence in one voice and exactly there in the next voice', breaks='an occurrence in another track is counted as a repeat of the one before it in the list',
    demo='''
#[test]
fn occurrences_in_two_voices() {
    // voice 1: the sequence from its first command; voice 2: the sequence from its fifth command
    for shift in 1..9 {
        let mut e = vec![];
        let mut t = 0;
        let a = [60, 62, 64, 65, 71, 72, 74];
        let mut b = vec![];
        for i in 0..shift {
            b.push(40 + i * 2);
        }
        b.extend_from_slice(&[60, 62, 64, 65, 50]);
        for i in 0..14 {
            if i < a.len() {
                e.push((t, on(0, a[i], 80)));
            }
            if i < b.len() {
                e.push((t, on(1, b[i], 80)));
            }
            t += 24;
            if i < a.len() {
                e.push((t, off(0, a[i])));
            }
            if i < b.len() {
                e.push((t, off(1, b[i])));
            }
        }
        let p = smf(&format!("a{}", shift), 24, &e);
        assert!(play(&song(&p, false)) == play(&song(&p, true)), "shift {}", shift);
    }
}
''')
S['P16-tie-first'] = dict(
    prop='P16', edits=[(C, """            Command::Tie => false,
            _ => true,""", """            Command::Tie => self.duration == Some(0x7f),
            _ => true,""")],
    needs='several notes of different pitch that last longer than four times 127 units', breaks='a call loop starts with a tie that belongs to a note outside',
    demo='''
#[test]
fn ties_stay_with_their_notes() {
    let mut e = vec![];
    for i in 0..4u32 {
        e.push((i * 1500, on(0, 60 + i as u8, 80)));
        e.push((i * 1500 + 1300, off(0, 60 + i as u8)));
    }
    let s = song(&smf("a", 24, &e), true);
    let parts = s.get_part_tracks(0).len();
    for t in &track_bytes(&s)[parts..] {
        let first = t.iter().find(|&&b| b >= 0x80).unwrap();
        assert!(*first != 0xc8, "call loop starts with a tie: {:?}", t);
    }
}
''')
S['P27-sustain-not-read'] = dict(
    prop='P27', edits=[(C, '''    sustain: Option<u8>,
    command: Command,
}

impl ParameterizedCommand {''', '''    #[serde(skip_deserializing)]
    sustain: Option<u8>,
    command: Command,
}

impl ParameterizedCommand {''')],
    needs='a song that goes through JSON', breaks='the sustain of notes is written to JSON but not read back',
    demo='''
#[test]
fn round_trip() {
    let s = song(&smf("a", 24, &[(0, on(0, 60, 80)), (12, off(0, 60)), (24, on(0, 62, 80)), (48, off(0, 62))]), false);
    let p = tmp("a.json");
    s.write_to_json(&p).unwrap();
    assert_eq!(play(&s), play(&midi2spc::nspc::Song::from_json(&p).unwrap()));
}
''')
S['P33-end-while-held'] = dict(
    prop='P33', edits=[('src/midi/mod.rs', 'if abs_time > self.max_time {', 'if active_voices == 0 && abs_time > self.max_time {')],
    needs='a file that ends with events of a channel whose note is never released', breaks='the end of the song is taken to be earlier than the last event',
    demo='''
#[test]
fn held_note_at_the_end() {
    let mut e = melody(&[60, 62]);
    e.push((96, on(1, 64, 80)));
    e.push((240, ctrl(1, 7, 50)));
    let s = song(&smf("a", 24, &e), false);
    assert_eq!(240, ticks(&play(&s)[0]));
}
''')
