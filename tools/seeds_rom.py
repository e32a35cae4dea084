F = 'src/rom/mod.rs'
S = {}
S["P03-fit-off-by-one"] = dict(
    prop='P03', edits=[(F, 'if track_data_offset + track_data.len() > chunk_length {', 'if track_data_offset + track_data.len() > chunk_length + 1 {')],
    needs='a bank whose tracks end exactly one byte behind the end of the first chunk',
    breaks='the fit check lets a track run one byte past the end of the 0xD000 chunk, into the header of the next chunk',
    demo='''
#[test]
fn tracks_stay_in_their_chunk() {
    let p = smf("s", 24, &melody(&[60, 62, 64, 65, 67, 69, 71, 72, 60, 64]));
    let mut m = manifest();
    m.banks[0].songs[14].input = Some(p.clone());
    // every chunk length from too small to large enough for the last song's last track
    let mut written = 0;
    for len in 0x140..0x1e0 {
        let (rom, before, banks) = build_rom(&format!("r{}", len), [(len, 0x3fd), (0x400, 0x400), (0x400, 0x400)]);
        if write_rom(&m, &rom).is_ok() {
            written += 1;
            check_rom(&m, &before, &read_file(&rom), &banks);
        }
    }
    assert!(written > 0);
}
''')
S['P04-loop-pointer-split-song'] = dict(
    prop='P04', edits=[(F, 'chunk_base: rom_addr + track_data_offset,', 'chunk_base: part_data_rom_addr + track_data_offset - part_data_offset,')],
    needs='a song with call loops whose tracks are split across the two chunks',
    breaks='call-loop addresses of tracks placed in the overflow chunk are patched into the first chunk\'s range instead',
    demo='''
#[test]
fn call_loops_of_split_songs() {
    let mut notes = vec![];
    for k in 0..6 {
        notes.extend_from_slice(&[60, 62, 64, 65, 67, 69, 71]);
        notes.push(72 + k);
    }
    let p = smf("s", 24, &melody(&notes));
    let mut m = manifest();
    m.banks[0].songs[14].input = Some(p.clone());
    m.banks[0].songs[14].loops = true;
    for len in 0x140..0x320 {
        let (rom, before, banks) = build_rom(&format!("r{}", len), [(len, 0x3fd), (0x400, 0x400), (0x400, 0x400)]);
        if write_rom(&m, &rom).is_ok() {
            check_rom(&m, &before, &read_file(&rom), &banks);
        }
    }
}
''')
S['P07-empty-bank-numbering'] = dict(
    prop='P07', edits=[(F, 'Ok(first_song + bank.songs.len())', 'Ok(first_song + bank.songs.len().max(1))')],
    needs='a manifest with a bank that has no songs',
    breaks='the songs of the banks after an empty bank get a wrong number in the song table',
    demo='''
#[test]
fn empty_banks_take_no_number() {
    let p = smf("s", 24, &melody(&[60, 62, 64]));
    let mut m = manifest();
    m.banks[1].songs.clear();
    m.banks[2].songs[1].input = Some(p);
    let (rom, before, banks) = build_rom("r", [(0x800, 0x400); 3]);
    write_rom(&m, &rom).unwrap();
    check_rom(&m, &before, &read_file(&rom), &banks);
}
''')
S['P06-song-alignment'] = dict(
    prop='P06', edits=[(F, '        song_offset = track_data_offset;\n', '        song_offset = track_data_offset & !1;\n')],
    needs='a song whose data ends at an odd offset, followed by another song in the bank',
    breaks='the next song starts on the last byte (the terminator) of the previous song\'s last track',
    demo='''
#[test]
fn neighbours_do_not_damage_each_other() {
    let mut m = manifest();
    for k in 0..6usize {
        let notes = (0..k as u8 + 1).map(|i| 60 + i).collect::<Vec<_>>();
        let mut evs = melody(&notes);
        evs.insert(0, (0, prog(0, 40)));
        if k % 2 == 0 { evs.insert(0, (0, ctrl(0, 7, 100))); evs.push((24 * (k as u32 + 1), on(0, 90, 30))); evs.push((24 * (k as u32 + 3), off(0, 90))); }
        let p = smf(&format!("s{}", k), 24, &evs);
        m.banks[0].songs[k].input = Some(p);
        m.banks[0].songs[k].loops = true;
    }
    let (rom, before, banks) = build_rom("r", [(0x800, 0x400); 3]);
    write_rom(&m, &rom).unwrap();
    check_rom(&m, &before, &read_file(&rom), &banks);
}
''')
S['P05-partial-clear'] = dict(
    prop='P05', edits=[(F, 'for i in 0..16 {', 'for i in 0..15 {')],
    needs='a song of fewer than eight tracks placed where the ROM had a nonzero byte in the high half of the last slot',
    breaks='the high byte of the eighth part-table slot keeps what the ROM had there before',
    demo='''
#[test]
fn unused_slots_are_zero() {
    let p = smf("s", 24, &melody(&[60, 62, 64]));
    let mut m = manifest();
    m.banks[0].songs[2].input = Some(p);
    let (rom, before, banks) = build_rom("r", [(0x800, 0x400); 3]);
    write_rom(&m, &rom).unwrap();
    check_rom(&m, &before, &read_file(&rom), &banks);
}
''')
S['P08-high-banks'] = dict(
    prop='P08', edits=[(F, '((snes_addr / 2) & 0xFF8000)', '((snes_addr / 2) & 0x1F8000)')],
    needs='a chunk list in SNES bank 0x40 or above',
    breaks='SNES addresses of banks 0x40 and up are mapped into the first 2 MB of the image',
    demo='''
#[test]
fn chunk_lists_in_high_banks() {
    let (rom, mut before, mut banks) = build_rom("r", [(0x800, 0x400); 3]);
    // move the chunks of the first bank to SNES 46:8000 (image offset 0x230000)
    before.resize(0x240000, 0x55);
    for i in 0..0x1000 { before[0x230000 + i] = before[0x18000 + i]; }
    let shift = 0x230000 - 0x18000;
    before[BASES[0] as usize + 8] = 0x46;
    for i in 0x18000..0x18014 { before[i] = 0; }
    banks[0].d000 += shift;
    banks[0].over += shift;
    std::fs::write(&rom, &before).unwrap();
    let p = smf("s", 24, &melody(&[60, 62, 64]));
    let mut m = manifest();
    m.banks[0].songs[2].input = Some(p);
    write_rom(&m, &rom).unwrap();
    check_rom(&m, &before, &read_file(&rom), &banks);
}
''')
S['P01-early-write'] = dict(
    prop='P01', edits=[(F, '''                bank_pbs[i].finish_print(&format!("{} bank complete.", bank.name));
''', '''                bank_pbs[i].finish_print(&format!("{} bank complete.", bank.name));
                file.seek(SeekFrom::Start(0))?;
                file.write_all(&romdata)?;
''')],
    needs='a song of a later bank that cannot be converted, after an earlier bank succeeded',
    breaks='the ROM file is rewritten after each bank, so a failure in a later bank leaves a half-written ROM',
    demo='''
#[test]
fn failed_build_changes_nothing() {
    let p = smf("s", 24, &melody(&[60, 62, 64]));
    let mut m = manifest();
    m.banks[0].songs[2].input = Some(p);
    m.banks[2].songs[0].input = Some(tmp("missing.mid"));
    let (rom, before, _) = build_rom("r", [(0x800, 0x400); 3]);
    assert!(write_rom(&m, &rom).is_err());
    assert!(before == read_file(&rom), "the ROM changed");
}
''')
S['P09-header-too-wide'] = dict(
    prop='P09', edits=[(F, '        romdata[start_addr + 3] = ((self.aram_addr >> 8) & 0xff) as u8;', '        romdata[start_addr + 3] = (self.aram_addr >> 8 & 0x7f) as u8;')],
    needs='a chunk that is loaded to the upper half of sound RAM',
    breaks='chunk headers of addresses 0x8000 and above are not reproduced in the dummy ROM',
    demo='''
#[test]
fn dummy_rom_has_headers_and_nothing_else() {
    let (rom, before, banks) = build_rom("r", [(0x800, 0x400); 3]);
    let out = tmp("out.smc");
    midi2spc::rom::gen_fake_rom(&rom, &out, BASES).unwrap();
    let got = read_file(&out);
    let mut want = vec![0u8; before.len()];
    for b in 0..3 {
        for k in &[0usize, 4, 8] { let p = BASES[b] as usize + k; want[p] = before[p]; }
        for p in &[banks[b].d000 - 24, banks[b].d000 - 4, banks[b].over - 4, banks[b].over + banks[b].over_len] {
            for i in 0..4 { want[p + i] = before[p + i]; }
        }
    }
    for i in 0..want.len() { assert_eq!(want[i], got[i], "byte {:x}", i); }
}
''')
