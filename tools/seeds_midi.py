F = 'src/midi/mod.rs'
R = 'src/rom/mod.rs'
L = 'src/lib.rs'
M = 'src/manifest/mod.rs'
S = {}
H = '''
use midi2spc::midi::MidiHandler as MH;
fn voices(name: &str, tracks: &[Vec<(u32, Vec<u8>)>]) -> Vec<Vec<String>> {
    let mut m = MH::new();
    m.read(&smf_tracks(name, 24, tracks), false).unwrap();
    (0..8).map(|v| m.events_for_voice(v).iter().map(|e| format!("{:?}", e)).collect()).collect()
}
'''
S['P19-sysex-time'] = dict(
    prop='P19', edits=[(F, """                    Message::SysExEvent { delta_time, .. } => {
                        abs_time += delta_time;
                        self.channels[0]""", """                    Message::SysExEvent { delta_time, .. } => {
                        let abs_time = abs_time + delta_time;
                        self.channels[0]""")],
    needs='a system exclusive message with a delta time in front of it', breaks='everything behind a system exclusive message in its track comes too early',
    demo='''
#[test]
fn sysex_takes_its_time() {
    let s = song(&smf("a", 24, &[(0, on(0, 60, 80)), (24, off(0, 60)), (48, vec![0xf0, 2, 0x43, 0xf7]), (72, on(0, 62, 80)), (96, off(0, 62))]), false);
    assert_eq!(96, ticks(&play(&s)[0]));
}
''')
S['P20-release-of-silent-note'] = dict(
    prop='P20', edits=[(F, """                            } else {
                                self.voices[voice].messages.push(next_event.clone());
                            }
                        }
                    }
                    MidiEvent::NoteOn""", """                            } else {
                                self.voices[voice].messages.push(next_event.clone());
                            }
                        } else if !active_notes[ch].is_empty() && ch != 9 {
                            self.voices[self.channels[ch].base_voice].messages.push(next_event.clone());
                        }
                    }
                    MidiEvent::NoteOn""")],
    needs='a release of a note that is not sounding while another note of the channel sounds', breaks='the release of a silent note is delivered to the base voice and ends the note there',
    demo=H + '''
#[test]
fn silent_notes_have_no_release() {
    let v = voices("a", &[vec![(0, on(0, 60, 80)), (12, off(0, 64)), (24, off(0, 60))]]);
    for x in &v {
        let on = x.iter().filter(|s| s.contains("NoteOn")).count();
        let off = x.iter().filter(|s| s.contains("NoteOff")).count();
        assert_eq!(on, off);
    }
}
''')
S['P21-other-channels-overflow'] = dict(
    prop='P21', edits=[(F, '''                                        && !active_notes
                                            .iter()
                                            .flat_map(|active_note| active_note.values())
                                            .any(|&voice| voice == possible_voice)''', '''                                        && !active_notes
                                            .iter()
                                            .take(self.voices.len())
                                            .flat_map(|active_note| active_note.values())
                                            .any(|&voice| voice == possible_voice)''')],
    needs='two channels, one of them above the eighth, that both need a second voice at the same time', breaks='a second note is placed on a voice on which another channel\'s second note sounds',
    demo=H + '''
#[test]
fn one_note_per_voice() {
    let e = vec![(0, on(0, 60, 80)), (0, on(12, 50, 80)), (12, on(12, 54, 80)), (13, on(0, 64, 80)), (24, off(0, 60)), (24, off(12, 50)), (36, off(0, 64)), (37, off(12, 54))];
    for x in &voices("a", &[e]) {
        let mut n = 0;
        for s in x {
            if s.contains("NoteOn") {
                n += 1;
            } else if s.contains("NoteOff") {
                n -= 1;
            }
            assert!(n < 2, "two notes on one voice");
        }
    }
}
''')
S['P22-bend-while-sounding'] = dict(
    prop='P22', edits=[(F, '''                            self.voices[self.channels[ch].base_voice]
                                .messages
                                .push(next_event.clone());
                        }
                        last_pitch_bend_per_channel[ch] = Some(next_event.0.clone());''', '''                            self.voices[self.channels[ch].base_voice]
                                .messages
                                .push(next_event.clone());
                            last_pitch_bend_per_channel[ch] = Some(next_event.0.clone());
                        }''')],
    needs='a pitch bend while a note sounds, then a second simultaneous note', breaks='a bend that came while the base voice was sounding is not replayed on other voices',
    demo=H + '''
#[test]
fn bend_follows() {
    let e = vec![(0, on(0, 60, 80)), (12, vec![0xe0, 0x11, 0x22]), (24, on(0, 64, 80)), (36, off(0, 60)), (48, off(0, 64))];
    for x in voices("a", &[e]).iter().filter(|x| !x.is_empty()) {
        assert_eq!(1, x.iter().filter(|s| s.contains("PitchBendChange")).count(), "{:?}", x);
    }
}
''')
S['P23-snare-release'] = dict(
    prop='P23', edits=[(F, """event: MidiEvent::NoteOff {
                                        ch: ch as u8,
                                        note: if note == 38 || note == 40 {""", """event: MidiEvent::NoteOff {
                                        ch: ch as u8,
                                        note: if note == 38 {""")],
    needs='an electric snare (note 40) on the percussion channel', breaks='note 40 is pressed at the snare pitch but released, and so written, at its own',
    demo='''
#[test]
fn electric_snare() {
    let f = |n: u8| play(&song(&smf(&format!("a{}", n), 24, &[(0, on(9, n, 80)), (24, off(9, n))]), false));
    assert_eq!(f(38), f(40));
}
''')
S['P24-two-names-swapped'] = dict(
    prop='P24', edits=[(M, '''    "Kill Agahnim",
    "Ganon Room",''', '''    "Ganon Room",
    "Kill Agahnim",''')],
    needs='a manifest whose two songs differ', breaks='two indoor songs end up in each other\'s slot',
    demo='''
#[test]
fn order() {
    let ow = ["Title", "World Map", "Beginning", "Rabbit", "Forest", "Intro", "Town", "Warp", "Dark World", "Master Sword", "File Select", "Soldier", "Mountain", "Shop", "Fanfare"];
    let ind = ["Castle", "Palace", "Cave", "Clear", "Church", "Boss", "Dungeon", "Psychic", "Secret Way", "Rescue", "Crystal", "Fountain", "Pyramid", "Kill Agahnim", "Ganon Room", "Last Boss"];
    let end = ["Triforce", "Ending", "Staff"];
    let sec = |n: &[&str]| n.iter().map(|x| format!("\\"{}\\":{{\\"input\\":\\"{}.mid\\"}}", x, x)).collect::<Vec<_>>().join(",");
    let p = json_song("m", &format!("{{\\"overworld\\":{{{}}},\\"indoor\\":{{{}}},\\"ending\\":{{{}}}}}", sec(&ow), sec(&ind), sec(&end)));
    let m = Manifest::new(&p).unwrap();
    for (b, names) in [&ow[..], &ind[..], &end[..]].iter().enumerate() {
        for (i, n) in names.iter().enumerate() {
            assert!(m.banks[b].songs[i].input.as_ref().unwrap().ends_with(&format!("{}.mid", n)), "{}", n);
        }
    }
}
'''.replace('Manifest::', 'midi2spc::manifest::Manifest::'))
S['P25-tempo-of-first-use'] = dict(
    prop='P25', edits=[(R, 'Some(path) => converter(&path, song_def.tempo_factor)?,', '''Some(path) => {
                // the same input always gets the same tempo
                let same = bank.songs.iter().find(|song| song.input == song_def.input);
                converter(&path, same.map_or(song_def.tempo_factor, |song| song.tempo_factor))?
            }''')],
    needs='a manifest that uses one input twice in a bank with different tempo settings', breaks='the second use of an input is converted with the first one\'s tempo',
    demo='''
#[test]
fn own_tempo() {
    let p = smf("s", 24, &melody(&[60, 62]));
    let mut m = manifest();
    m.banks[0].songs[2].input = Some(p.clone());
    m.banks[0].songs[3].input = Some(p.clone());
    m.banks[0].songs[3].tempo_factor = 0.7;
    let (rom, _, _) = build_rom("r", [(0x800, 0x400); 3]);
    let seen = std::cell::RefCell::new(vec![]);
    let conv = |p: &Path, f: f32| {
        seen.borrow_mut().push(f);
        Ok(convert(p, f, false))
    };
    midi2spc::rom::write(&m, &rom, BASES, &conv, false).unwrap();
    assert_eq!(vec![0.2, 0.7], *seen.borrow());
}
'''.replace('&Path', '&std::path::Path'))
S['P26-bank-order'] = dict(
    prop='P26', edits=[(L, 'Ok(vec) => Ok([vec[0], vec[1], vec[2]]),', '''Ok(mut vec) => {
                    vec.sort();
                    Ok([vec[0], vec[1], vec[2]])
                }''')],
    needs='bank addresses given in another than ascending order', breaks='the three bank addresses are used in ascending order instead of the one they are given in',
    demo='''
#[test]
fn banks_in_order() {
    let p = smf("s", 24, &melody(&[60, 62]));
    let run = |addrs: &str| {
        let (rom, before, _) = build_rom("r", [(0x800, 0x400); 3]);
        // the command line takes SNES addresses that read as file offsets here
        let out = std::process::Command::new(env!("CARGO_BIN_EXE_midi2spc")).args(&["file_select", p.to_str().unwrap(), rom.to_str().unwrap(), "--bank_addrs", addrs]).output().unwrap();
        assert!(out.status.success(), "{:?}", out);
        let after = read_file(&rom);
        (0..before.len()).filter(|&i| before[i] != after[i]).collect::<Vec<_>>()
    };
    assert!(run("914,926,932") != run("932,926,914"));
}
''')
S['P28-truncated-midi'] = dict(
    prop='P28', edits=[(F, '''            midi_reader
                .read()
                .map_err(|err| format_err!("MIDI read error: {:?}", err))?;''', '''            if let Err(err) = midi_reader.read() {
                println!("MIDI read error: {:?}", err);
            }''')],
    needs='a MIDI file that is cut off in the middle of a track', breaks='a truncated MIDI file is converted as far as it goes, without an error',
    demo='''
#[test]
fn cut_off() {
    let p = smf("s", 24, &melody(&[60, 62, 64]));
    let b = read_file(&p);
    let q = tmp("cut.mid");
    for n in 30..b.len() - 4 {
        std::fs::write(&q, &b[..n]).unwrap();
        let mut m = midi2spc::midi::MidiHandler::new();
        assert!(m.read(&q, false).is_err(), "cut to {} bytes", n);
    }
}
''')
S['P29-neighbour-voice'] = dict(
    prop='P29', edits=[(F, 'for possible_voice in 0..self.voices.len() {', '''let near = active_notes[ch].values().next().cloned().unwrap_or(0);
                                for possible_voice in (0..near).rev().chain(near..self.voices.len()) {''')],
    needs='a channel that plays three notes at once', breaks='the voice of a third simultaneous note depends on the iteration order of a hash map',
    demo='''
#[test]
fn same_every_time() {
    let mut e = vec![];
    let mut r = 12345u32;
    let mut held = vec![];
    for i in 0..300u32 {
        r = r.wrapping_mul(1103515245).wrapping_add(12345);
        let n = 40 + (r >> 16) as u8 % 30;
        if held.contains(&n) {
            held.retain(|&x| x != n);
            e.push((i * 10, off(0, n)));
        } else if held.len() < 6 {
            held.push(n);
            e.push((i * 10, on(0, n, 80)));
        } else {
            e.push((i * 10, off(0, held.remove(0))));
        }
    }
    let p = smf("a", 24, &e);
    let first = track_bytes(&song(&p, false));
    for _ in 0..50 {
        assert!(first == track_bytes(&song(&p, false)));
    }
}
''')
S['P34-verbose-optimizes'] = dict(
    prop='P34', edits=[(F, '''                                        next_voice = Some(possible_voice);
                                        break;''', '''                                        next_voice = Some(possible_voice);
                                        if !verbose {
                                            break;
                                        }''')],
    needs='verbose mode and a note that needs a voice besides the base voice', breaks='in verbose mode all usable voices are listed, and the last one is taken instead of the first',
    demo='''
#[test]
fn verbose_changes_nothing() {
    let p = smf("a", 24, &[(0, on(0, 60, 80)), (12, on(0, 64, 80)), (24, off(0, 60)), (36, off(0, 64))]);
    let f = |v| {
        let mut m = midi2spc::midi::MidiHandler::new();
        m.read(&p, v).unwrap();
        (0..8).map(|i| m.events_for_voice(i).len()).collect::<Vec<_>>()
    };
    assert_eq!(f(false), f(true));
}
''')
