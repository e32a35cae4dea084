C = 'src/nspc/command.rs'
F = 'src/midi/mod.rs'
R = 'src/rom/mod.rs'
N = 'src/nspc/mod.rs'
S = {}
S['P01-failed-bank-skipped'] = dict(
    prop='P01', edits=[(R, 'first_song_result.and_then(|first_song| {', 'first_song_result.or_else(|_| Ok(0)).and_then(|first_song: usize| {')],
    needs='a bank other than the last that does not fit into its chunks', breaks='the failure of a bank is forgotten when there is another bank to write, and the ROM file is written',
    demo='''
#[test]
fn failure_leaves_the_file_alone() {
    let p = smf("s", 24, &melody(&[60, 62, 64, 65, 67, 69, 71, 72, 60, 64]));
    let mut m = manifest();
    m.banks[0].songs[14].input = Some(p);
    let (rom, before, _) = build_rom("r", [(0x40, 0x40), (0x800, 0x400), (0x800, 0x400)]);
    assert!(write_rom(&m, &rom).is_err());
    assert!(before == read_file(&rom));
}
''')
S['P02-part-table-of-twenty'] = dict(
    prop='P02', edits=[(R, 'for i in 0..16 {', 'for i in 0..20 {')],
    needs='a song whose part table ends within four bytes of the end of its chunk, with its tracks in the other chunk',
    breaks='four bytes behind the part table are cleared, possibly the header of the chunk that follows',
    demo='''
#[test]
fn only_chunks_change() {
    let p = smf("s", 24, &melody(&[60, 62, 64, 65, 67, 69, 71, 72, 60, 64]));
    let mut m = manifest();
    m.banks[0].songs[14].input = Some(p);
    let mut written = 0;
    for len in 0x140..0x1e0 {
        let (rom, before, banks) = build_rom(&format!("r{}", len), [(len, 0x3fd), (0x400, 0x400), (0x400, 0x400)]);
        if write_rom(&m, &rom).is_ok() {
            written += 1;
            check_rom(&m, &before, &read_file(&rom), &banks);
        }
    }
    assert!(written > 0);
}
''')
S['P04-loops-of-the-track-before'] = dict(
    prop='P04', edits=[(R, """        for i in 0..song_data.get_num_tracks() {
            let track_data = Vec::<u8>::new();
            let mut track_call_loops = Vec::<CallLoopRef>::new();""", """        let mut track_call_loops = Vec::<CallLoopRef>::new();
        for i in 0..song_data.get_num_tracks() {
            let track_data = Vec::<u8>::new();""")],
    needs='a song in which a track with call loops is followed by another track', breaks='the call loops of a track are recorded again for the tracks behind it, and addresses are written over their commands',
    demo='''
#[test]
fn loops_stay_with_their_track() {
    let mut notes = vec![];
    for k in 0..3 {
        notes.extend_from_slice(&[60, 62, 64, 65, 67, 69, 71]);
        notes.push(72 + k);
    }
    let mut other: Vec<(u32, Vec<u8>)> = vec![];
    for (i, n) in notes.iter().enumerate() {
        let i = i as u32;
        other.push((i * 24, on(1, n - 12, 80)));
        other.push((i * 24 + 24, off(1, n - 12)));
    }
    let p = smf_tracks("s", 24, &[melody(&notes), other]);
    let mut m = manifest();
    m.banks[0].songs[14].input = Some(p);
    let (rom, before, banks) = build_rom("r", [(0x800, 0x400); 3]);
    write_rom(&m, &rom).unwrap();
    check_rom(&m, &before, &read_file(&rom), &banks);
}
''')
S['P19-channel-with-one-event'] = dict(
    prop='P19', edits=[(F, '.filter(|channel| channel.messages.is_empty())', '.filter(|channel| channel.messages.len() <= 1)')],
    needs='two channels with a single event each', breaks='a channel with one event is counted as exhausted twice, and the last events of the song are lost',
    demo='''
#[test]
fn every_event_is_delivered() {
    let mut e = vec![(0, ctrl(3, 7, 100)), (0, ctrl(4, 7, 100))];
    e.extend((0..4).flat_map(|i| vec![(i * 24, on(0, 60, 80)), (i * 24 + 24, off(0, 60))]));
    e.extend((0..9).flat_map(|i| vec![(i * 24, on(1, 64, 80)), (i * 24 + 24, off(1, 64))]));
    e.sort_by_key(|x| x.0);
    let mut m = midi2spc::midi::MidiHandler::new();
    m.read(&smf("a", 24, &e), false).unwrap();
    let n = (0..8).map(|v| m.events_for_voice(v).iter().filter(|e| format!("{:?}", e).contains("NoteOn")).count()).sum::<usize>();
    assert_eq!(13, n);
    let n = (0..8).map(|v| m.events_for_voice(v).iter().filter(|e| format!("{:?}", e).contains("NoteOff")).count()).sum::<usize>();
    assert_eq!(13, n);
}
''')
S['P21-last-voice-unused'] = dict(
    prop='P21', edits=[(F, 'for possible_voice in 0..self.voices.len() {', 'for possible_voice in 0..self.voices.len() - 1 {')],
    needs='a moment at which all eight voices sound', breaks='the eighth voice is never tried, and songs that fit are refused',
    demo='''
#[test]
fn eight_voices() {
    let mut e: Vec<(u32, Vec<u8>)> = (0..8).map(|i| (0, on(0, 60 + i, 80))).collect();
    e.extend((0..8).map(|i| (24, off(0, 60 + i))));
    let mut m = midi2spc::midi::MidiHandler::new();
    m.read(&smf("a", 24, &e), false).unwrap();
}
''')
T = 'src/nspc/track.rs'
FX = "            romdata[call_loop_addr + 1] = track_bytes.0;\n            romdata[call_loop_addr] = track_bytes.1;\n"
S['P04-earlier-tracks-not-patched'] = dict(
    prop='P04', edits=[(R, FX, "            if call_loop.chunk_base >= rom_addr {\n" + FX.replace("            rom", "                rom") + "            }\n")],
    needs='a song with call loops whose tracks are split across the two chunks', breaks='call loops in tracks placed before the switch to the overflow chunk keep address 0',
    demo='''
#[test]
fn call_loops_of_split_songs() {
    let mut notes = vec![];
    for k in 0..6 {
        notes.extend_from_slice(&[60, 62, 64, 65, 67, 69, 71]);
        notes.push(72 + k);
    }
    let p = smf("s", 24, &melody(&notes));
    let mut m = manifest();
    m.banks[0].songs[14].input = Some(p.clone());
    m.banks[0].songs[14].loops = true;
    for len in 0x140..0x320 {
        let (rom, before, banks) = build_rom(&format!("r{}", len), [(len, 0x3fd), (0x400, 0x400), (0x400, 0x400)]);
        if write_rom(&m, &rom).is_ok() {
            check_rom(&m, &before, &read_file(&rom), &banks);
        }
    }
}
''')
S['P18-volume-while-a-note-sounds'] = dict(
    prop='P18', edits=[(T, '                                7 => {', '                                7 if note_start.is_none() => {')],
    needs='a volume controller between the press and the release of a note', breaks='a volume change while a note sounds is dropped',
    demo='''
#[test]
fn every_volume_change() {
    let f = |name, at| {
        let mut e = vec![(0, on(0, 60, 80)), (24, off(0, 60)), (48, on(0, 64, 80)), (72, off(0, 64)), (at, ctrl(0, 7, 50))];
        e.sort_by_key(|x: &(u32, Vec<u8>)| x.0);
        let s = song(&smf(name, 24, &e), false);
        play(&s)[0].iter().filter(|o| o.bytes[0] == 0xed).count()
    };
    assert_eq!((2, 2), (f("a", 36), f("b", 60)));
}
''')
S['P17-top-notes'] = dict(
    prop='P17', edits=[(T, 'MidiEvent::NoteOff { note, .. } => {', 'MidiEvent::NoteOff { note, .. } if note < 127 => {')],
    needs='the highest MIDI note', breaks='the release of the highest note is ignored, so that the note is never written',
    demo='''
#[test]
fn every_note_is_written() {
    let f = |name, n| {
        let s = song(&smf(name, 24, &[(0, on(0, n, 80)), (24, off(0, n))]), false);
        ticks(&play(&s)[0])
    };
    assert_eq!((24, 24), (f("a", 126), f("b", 127)));
}
''')
S['P35-slide-not-tied-to-after-the-switch'] = dict(
    prop='P35', edits=[(T, 'commands.last().map_or(false, |cmd| cmd.is_slide());', 'portamento && commands.last().map_or(false, |cmd| cmd.is_slide());')],
    needs='portamento switched off between the press and the release of a note', breaks='a note that a pitch slide leads into is struck again',
    demo='''
#[test]
fn slides_are_tied() {
    let f = |name, at| {
        let mut e = vec![(0, on(0, 60, 80)), (0, ctrl(0, 65, 127)), (24, off(0, 60)), (24, on(0, 64, 80)), (48, off(0, 64)), (at, ctrl(0, 65, 0))];
        e.sort_by_key(|x: &(u32, Vec<u8>)| x.0);
        let s = song(&smf(name, 24, &e), false);
        let t = play(&s);
        let k: Vec<u8> = t[0].iter().map(|o| o.bytes[0]).filter(|&b| b == 0xc8 || b == 0xf9 || (b >= 0x80 && b < 0xc8)).collect();
        k
    };
    let a = f("a", 60);
    assert_eq!(3, a.len());
    assert_eq!((0xf9, 0xc8), (a[1], a[2]));
    assert_eq!(a, f("b", 36));
}
''')
S['P35-no-slide-from-a-long-note'] = dict(
    prop='P35', edits=[(C, '            Command::Rest => None,\n            _ => self.duration', '            Command::Rest | Command::Tie => None,\n            _ => self.duration')],
    needs='portamento after a note of more than 127 units', breaks='no pitch slide leads from a note that was continued with a tie',
    demo='''
#[test]
fn slides_from_long_notes() {
    let f = |name, len| {
        let s = song(&smf(name, 24, &[(0, on(0, 60, 80)), (0, ctrl(0, 65, 127)), (len, off(0, 60)), (len, on(0, 64, 80)), (len + 24, off(0, 64))]), false);
        let t = play(&s);
        t[0].iter().filter(|o| o.bytes[0] == 0xf9).count()
    };
    assert_eq!((1, 1), (f("a", 100), f("b", 200)));
}
''')
S['P35-release-velocity'] = dict(
    prop='P35', edits=[(T, 'MidiEvent::NoteOff { note, .. } => {\n', 'MidiEvent::NoteOff { note, velocity, .. } => {\n                            if velocity > note_velocity {\n                                note_velocity = velocity;\n                            }\n')],
    needs='a release that is faster than its press', breaks='the velocity of a note is that of its release',
    demo='''
#[test]
fn velocity_of_the_press() {
    let f = |name, v| {
        let s = song(&smf(name, 24, &[(0, on(0, 60, 40)), (24, vec![0x80, 60, v])]), false);
        let t = play(&s);
        format!("{:?}", t[0])
    };
    assert_eq!(f("a", 0), f("b", 127));
}
''')
