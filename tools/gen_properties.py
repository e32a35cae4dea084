#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


ROM, LIB, MAN = "src/rom/mod.rs", "src/lib.rs", "src/manifest/mod.rs"
MIDI, NSPC, TRK, CMD, SEQ, INS = ("src/midi/mod.rs", "src/nspc/mod.rs", "src/nspc/track.rs",
                                  "src/nspc/command.rs", "src/nspc/seqtree.rs", "src/nspc/instruments.rs")

prop("P01", "A failed ROM build leaves the ROM file untouched",
     "Writing songs into a ROM either replaces the whole image after every song of every bank was converted and placed successfully, or reports an error and leaves the file's bytes exactly as they were. The ROM file is opened without being created or truncated, and the only modification is one complete write of the whole image from the start of the file, after the last bank has succeeded.",
     ["inputs", "fault_sequences"], "every manifest, ROM and song file, and every point at which reading, converting or placing a song can fail",
     "The integration tests only run three successful builds; no test makes a build fail and looks at the file.",
     [ROM, LIB], [("open without truncate/create, convert everything in memory, then one full write", "rom::write")], observe=["bytes of the ROM file after an error"])
prop("P02", "ROM edits stay inside the song chunks",
     "A ROM build changes bytes only inside the two song chunks of the banks it writes - the chunk that the game loads to sound RAM address 0xD000 and the chunk that directly follows it in the bank's chunk list - and never changes the size of the image. If either chunk cannot be found the build fails with an error.",
     ["inputs"], "every ROM layout, manifest and song",
     "Tests check only that a build returns Ok; no test compares the bytes outside the chunks.",
     [ROM], [("chunk scan and ensure! of both chunks", "rom::write_bank"), ("all stores are at chunk address + offset", "rom::write_bank")])
prop("P03", "Song data never runs past the end of a chunk",
     "Every song header with its part table, and every track, is written only after it is known to fit completely within the declared length of the chunk it is written to. What does not fit in the first chunk goes to the start of the overflow chunk, and what fits in neither makes the build fail with an error.",
     ["inputs"], "every combination of chunk lengths, song counts, loop settings and track sizes",
     "The sample songs exercise one fixed ROM with fixed chunk lengths; boundary sizes and overflow-chunk exhaustion are never sampled.",
     [ROM], [("capacity checks against chunk_length before each placement", "rom::write_bank")])
prop("P04", "Every pointer in the ROM leads to the object it names",
     "Every 16-bit pointer that a ROM build writes is little-endian and holds the sound-RAM address at which exactly the intended object was placed: song table to song header, song header to part table, loop target to the song's own header, part table to the song's tracks in order (0 for an empty track), and each call-loop instruction to the track it calls. This holds whichever of the two chunks an object ended up in, also when a song is split across them.",
     ["inputs"], "every song and every chunk split",
     "No test reads a pointer back from the ROM.",
     [ROM, NSPC], [("rom_addr/aram_base_addr/chunk_length switched together", "rom::write_bank"), ("call-loop fix-ups", "rom::write_bank")],
     state=[("rom_addr, aram_base_addr, chunk_length", "currently selected chunk: file position, sound-RAM base, size", "rom::write_bank")])
prop("P05", "Song headers follow the loop setting; part table fully defined",
     "A looping song's header is part pointer, 0x00FF, loop target, 0x0000 and a non-looping song's header is part pointer, 0x0000, each immediately followed by its 16-byte part table. Every song defines all eight part-table slots - unused ones are zero - and never writes more than eight.",
     ["inputs"], "every song, looping or not, with any number of tracks and call-loop tracks",
     "No test inspects headers; bytes that were in the ROM before would show through only on particular ROMs.",
     [ROM], [("header and part table stores", "rom::write_bank")])
prop("P06", "Placed song data never overlaps",
     "Within a bank, the headers, part tables and tracks of all songs occupy disjoint byte ranges: each piece starts at or after the end of the previous piece placed in the same chunk, and the first song starts behind the song table. Placing one song therefore never alters another.",
     ["inputs"], "every number, order and size of songs and tracks in a bank",
     "Tests never look at the produced bytes; overlap shows only for particular track sizes.",
     [ROM], [("song_offset / track_data_offset advance", "rom::write_bank")])
prop("P07", "The song table gives every song its global slot",
     "Songs are numbered across the three banks in order, and a bank's song table holds each song's address in the slot of its global number (two bytes per slot). All slots after the bank's last song up to the start of song data are zero.",
     ["inputs"], "every manifest and ROM",
     "No test reads the song table back.",
     [ROM], [("first_song accumulation", "rom::write"), ("song_table_addr", "rom::write_bank")])
prop("P08", "Bank and chunk addresses are decoded as the SNES maps them",
     "A bank's chunk list is located by reading low, high and bank byte at the given SNES address, +4 and +8, and every SNES address is mapped LoROM-style (15 bits within the bank, the bank number above them, bit 15 dropped). Chunk headers are read as little-endian length then little-endian sound-RAM address, and the next chunk starts length bytes after the 4-byte header.",
     ["inputs"], "every 24-bit address and every chunk list",
     "The tests use one dummy ROM, which is generated by the same code and so agrees with it.",
     [ROM], [("snes_to_pc_addr", "rom::snes_to_pc_addr"), ("Chunk::load", "rom::Chunk::load")])
prop("P09", "The generated dummy ROM contains only headers and pointers",
     "A generated dummy ROM has exactly the size of its source, reproduces the source's bank pointers and chunk headers at their positions, and is zero everywhere else - including when the output file existed before. No song or program byte of the source ROM is ever copied into it.",
     ["inputs"], "every source ROM and every prior content of the output file",
     "gen_fake_rom is not run by any test.",
     [ROM], [("gen_fake_rom", "rom::gen_fake_rom")])
prop("P10", "Every song command is encoded with its opcode and operands",
     "Each of the 30 song commands is written as its own N-SPC opcode (note value, C8 tie, C9 rest, E0-FA) followed by exactly its operands in order. A call loop is written as EF, two address bytes, repeat count, and reports the position of its address bytes and the track it targets so that the address can be filled in.",
     ["inputs"], "every command and operand value",
     "No test writes a command to bytes.",
     [CMD], [("Command::write", "nspc::command::Command::write")])
prop("P11", "Duration and velocity bytes are emitted exactly when needed",
     "Before each command the encoder emits a duration byte, and where needed a velocity/sustain byte after it, so that the sound driver's current duration and velocity/sustain equal what the command asks for; an unchanged value is not repeated, and a velocity/sustain byte never appears without a duration byte before it. After a call loop returns, both are taken to be what the called track leaves behind, or unknown.",
     ["inputs", "histories"], "every sequence of commands and parameter values",
     "No test encodes a command sequence; the state carried between commands makes the space unbounded.",
     [CMD, TRK], [("running duration / velocity state", "nspc::command::ParameterizedCommand::write"), ("state threaded through the track", "nspc::track::Track::write")])
prop("P12", "Tracks are framed with the right preamble and terminator",
     "Every non-empty track is written as preamble, commands, one 0x00 terminator: the first track of a part gets percussion base, global volume and channel volume, other part tracks get channel volume, and call-loop tracks get no preamble. An empty track is written as nothing at all.",
     ["inputs"], "every song structure",
     "No test looks at the written track bytes.",
     [NSPC], [("Song::write_track", "nspc::Song::write_track")])
prop("P13", "Commands made from MIDI stay in their N-SPC ranges",
     "For every MIDI input, notes are encoded as 0x80-0xC7 (pitches 24-95 one to one, others folded by whole octaves), written durations are 1-0x7F, and the velocity and sustain of a note are 1-15 and at most 7. No conversion step silently truncates a value or wraps around; tempos and volumes too large for their byte saturate.",
     ["inputs"], "every MIDI file, including pitches 0-127, any velocity, any note and rest length",
     "Tests sample a few durations only; no test covers extreme pitches, velocities or long notes.",
     [TRK, CMD], [("note, velocity and duration arithmetic", "nspc::track::Track::new"), ("merging a note and its rest", "nspc::command::ParameterizedCommand::set_sustain")])
prop("P14", "Call-loop extraction preserves every command",
     "Extracting a repeated sequence replaces each listed occurrence by one call loop that targets the new track holding exactly that sequence, with the occurrence's repeat count, and skips exactly sequence length times repeat count commands. All other commands are copied exactly once, in order, and all earlier call-loop tracks keep their position.",
     ["inputs"], "every song and every chosen sequence",
     "extract_sequence has no test; the integration tests do not compare optimised with unoptimised songs.",
     [NSPC], [("Song::extract_sequence", "nspc::Song::extract_sequence")])
prop("P15", "Each occurrence of a repeated sequence is counted once",
     "While repeats are searched, each occurrence of a sequence that is found is recorded exactly once under that sequence, with its track and start position. Back-to-back occurrences are merged into one with a repeat count of exactly their number, and occurrences handed on when a sequence is split keep all their repeats. Repeat counts and totals cannot overflow, so a call loop never plays a sequence more or fewer times than it occurs.",
     ["inputs"], "every song, any number of repeats",
     "Unit tests cover hand-made sequences of at most 21 commands; double counting and counts above 255 are not among them.",
     [SEQ], [("add_location / add_commands", "nspc::seqtree::SeqTree::add_commands"), ("consolidate_locations / best_sequence", "nspc::seqtree")])
prop("P16", "Call loops never nest and never cut a slide or tie",
     "A sequence that is moved into a call loop contains no call loop itself, does not end in a pitch slide that one of its occurrences continues, and a shared sequence does not start with a tie. Only sequences of more than three commands that occur more than once are extracted.",
     ["inputs"], "every song",
     "Unit tests cover six hand-made sequences.",
     [SEQ, CMD], [("eligibility predicates", "nspc::command::ParameterizedCommand"), ("prefix trimming", "nspc::seqtree::SeqTree::add_commands")])
prop("P17", "Note and rest lengths add up to the quantised time",
     "A span of time is converted to whole 1/24-beat units (rounded up for notes, down for rests) and written as commands whose durations add up to exactly that many units, however long the span; a rest that is folded into the note before it adds its length to the note's. The position from which the next span is measured advances by the quantised span in whole ticks, rounded down, so voices do not drift apart. Every pressed note sounds until its release, and is written unless that comes before the position its start was rounded to.",
     ["inputs", "histories"], "every sequence of note starts and ends, resolutions and lengths",
     "No test converts a track; long spans and short notes are not sampled.",
     [TRK], [("get_duration", "nspc::track::Track::get_duration"), ("insert_rest / last_note_end", "nspc::track::Track::new")])
prop("P18", "MIDI events map to the right song commands",
     "A tempo event yields the tempo of its 24-bit big-endian microseconds value scaled by the tempo factor, controller 7 yields a channel volume of twice its value, controllers 5/37 set the high/low portamento time and 65 switches portamento on at 64 or above, and a program change selects the mapped instrument (percussion programs unmapped), after the rest that leads up to its time. Values too large for a byte saturate, other controllers produce no command, and no event of the voice is passed over.",
     ["inputs"], "every event and data byte",
     "No test checks the commands produced from a MIDI event.",
     [TRK, INS], [("event match", "nspc::track::Track::new"), ("instrument table", "nspc::instruments")])
prop("P19", "Every event keeps its absolute time and order",
     "The absolute time of a MIDI event is the sum of all delta times up to it in its own track, whatever the kinds of the events in between; each channel event goes to its own channel, in time order. Of simultaneous events, note releases (including note-on with velocity 0) come before control events and those before note presses, and events of the same rank keep their order.",
     ["inputs"], "every multi-track MIDI file",
     "No test checks times or order of events.",
     [MIDI], [("tracks_to_channels", "midi::MidiHandler::tracks_to_channels"), ("priority", "midi::priority")])
prop("P20", "A note ends on the voice it started on",
     "A note release is delivered to exactly the voice on which that channel's note is sounding, and a release of a note that is not sounding is ignored. A repeated press of a sounding note first releases it on its voice.",
     ["inputs", "histories"], "every interleaving of presses and releases on 16 channels",
     "No test inspects voices.",
     [MIDI], [("active_notes", "midi::MidiHandler::channels_to_voices")])
prop("P21", "A voice never sounds two notes, and no note is dropped silently",
     "A note press is placed only on a voice on which no channel's note is sounding: the channel's own base voice or a voice that is no channel's base voice. If there is none, the conversion fails with an error instead of dropping or stealing a note.",
     ["inputs", "histories"], "every polyphonic MIDI input",
     "Tests convert files that fit; they never check exclusivity or the failure.",
     [MIDI], [("voice search", "midi::MidiHandler::channels_to_voices"), ("bail! on overlapping notes", "nspc::track::Track::new")])
prop("P22", "Channel state follows the notes to their voices",
     "Controller, program, pressure and pitch-bend events reach every voice on which the channel is sounding and the channel's base voice, each exactly once; a key pressure reaches the voice of its note, and a tempo change the first voice. When a voice starts a note of another channel than before, that channel's last volume, program and pitch bend are replayed on it before the note.",
     ["inputs", "histories"], "every interleaving of state events and notes",
     "No test inspects voices.",
     [MIDI], [("event broadcast", "midi::MidiHandler::channels_to_voices")])
prop("P23", "Percussion notes sound with their own instrument",
     "On MIDI channel 10, notes 38 and 40 play the snare instrument at the snare pitch and all other notes play the cymbal instrument at their own pitch. Every percussion note starts while its voice is set to that instrument, whatever played on the voice or the channel before.",
     ["inputs", "histories"], "every sequence of percussion notes and program changes over voices",
     "No test inspects voices.",
     [MIDI], [("percussion mapping", "midi::MidiHandler::channels_to_voices")])
prop("P24", "Manifest songs land in their game slots",
     "A manifest's songs are taken by name from its overworld, indoor and ending sections and placed in the game's fixed order (15, 16 and 3 songs), the same names that the manifest schema requires. The one-song modes use the same bank sizes: the all-music mode puts the song in all 34 slots, and the file-select mode only in the File Select slot, leaving the others empty and unlooped.",
     ["inputs"], "every manifest, and both one-song modes",
     "Tests run one manifest and check no slot.",
     [MAN, "src/manifest.schema.json"], [("Manifest::new/single_song/file_select", "manifest::Manifest")])
prop("P25", "Each song is converted with its own settings",
     "A song's tempo adjustment and loop flag come from its own manifest entry, defaulting to 0.2 and looping; relative inputs are resolved against the manifest's folder. Each song is converted from its own input with its own tempo factor, .mid inputs as MIDI and all others as song JSON, and laid out with its own loop flag.",
     ["inputs"], "every manifest",
     "Tests check no setting's effect.",
     [MAN, LIB, ROM], [("Song::new", "manifest::Song::new"), ("converter", "lib::converter"), ("song_def use", "rom::write_bank")])
prop("P26", "The command line does what it declares",
     "Every subcommand that is declared is handled, reads only arguments that it declares, required ones being declared required, and uses each file argument for what it names. Loop optimisation is on exactly when skip_optimization is absent, verbosity exactly when verbose is present, and the three bank addresses are taken as hexadecimal in order, with the built-in ones as default.",
     ["inputs", "configurations"], "every combination of subcommand and options",
     "Tests call the library functions directly, never the command line.",
     ["src/main.rs", LIB], [("clap definition", "main"), ("dispatch", "lib::run"), ("read_bank_addrs", "lib::read_bank_addrs")])
prop("P27", "Songs written as JSON read back with nothing lost",
     "The JSON form of a song carries every field of every part, track and command under the name the reader expects, for every kind of command; nothing is skipped or renamed on one side only. Writing replaces a previous file completely.",
     ["inputs"], "every song",
     "No test writes or reads a JSON song.",
     [NSPC, CMD, TRK], [("serde derives", "nspc::{Song,Part}, nspc::track::Track, nspc::command::{Command,ParameterizedCommand}"), ("from_json / write_to_json", "nspc::Song")])
prop("P28", "Bad song inputs are reported, not crashed on",
     "Malformed or unsupported manifests, JSON songs and MIDI files are reported as an error through the normal error path: parsing failures, missing or mistyped manifest entries, JSON songs that refer to tracks that do not exist, and MIDI files of an unsupported format never abort the process. Except where a dump prints it, an error from reading, converting or writing is never dropped.",
     ["inputs", "fault_sequences"], "every manifest, JSON and MIDI input and every I/O failure",
     "Tests contain no malformed input.",
     [LIB, MAN, NSPC, MIDI, ROM], [("Result propagation", "all modules")])
prop("P29", "Conversion is deterministic",
     "Converting the same inputs with the same options always produces the same song and the same ROM bytes. No result depends on hash-map iteration order, time, randomness, environment or thread timing.",
     ["inputs", "schedules"], "every input, process and run",
     "Hash seeds differ per process and tests never compare two runs.",
     [MIDI, NSPC, ROM, LIB, MAN], [("order-insensitive uses of active_notes", "midi::MidiHandler::channels_to_voices"), ("progress display only reads", "rom::write")])
prop("P30", "Optimised and unoptimised songs play identically",
     "Expanding all call loops of an optimised song yields exactly the event sequence of the unoptimised song.",
     ["inputs"], "every song",
     "No test compares them.",
     [NSPC, SEQ], [("optimize_call_loops", "nspc::Song::optimize_call_loops")])
prop("P31", "The optimiser always terminates and never enlarges a song",
     "Loop optimisation terminates for every song, and the optimised song is never longer than the unoptimised one.",
     ["inputs"], "every song",
     "Sizes and termination are only sampled.",
     [NSPC, SEQ], [("score", "nspc::seqtree::SeqTree::best_sequence")])
prop("P32", "A song that can fit in eight voices is fitted",
     "If some assignment of base voices lets all notes of a MIDI file sound on eight voices, the converter finds one within reasonable time.",
     ["inputs"], "every MIDI file",
     "Completeness of the search is not sampled.",
     [MIDI], [("backtracking search", "midi::MidiHandler::find_base_voices")])

prop("P33", "Every voice becomes a track that lasts to the song's end",
     "Converting a MIDI file turns the events of each of the eight voices into one track, in voice order, with the file's ticks per beat and the song's tempo factor; only voices without commands are left out, and an error on any voice is the song's error. The song's one part lists exactly these tracks in order. Every track lasts to the latest time of any channel event in the file (in whole units), so that the voices loop together.",
     ["inputs"], "every MIDI file",
     "Tests convert single voices with a given end; none compares the ends of several voices.",
     [NSPC, TRK, MIDI], [("from_midi", "nspc::Song::from_midi"), ("max_time", "midi::MidiHandler::read"), ("final rest", "nspc::track::Track::new")])

prop("P34", "Verbosity changes only what is printed",
     "With -v the program does exactly what it does without it: the same songs, ROM bytes, files, errors and exit status. The flag reaches every part of the conversion, but no value computed, nothing stored or written, and no decision other than whether and what to print depends on it.",
     ["inputs", "configurations"], "every input and subcommand, with and without -v",
     "Tests always run with verbosity off.",
     ["src/lib.rs", MIDI, NSPC, ROM], [("where the flag is read", "lib::run"), ("verbose branches", "midi::MidiHandler::{read,tracks_to_channels,find_base_voices,channels_to_voices}, nspc::Song::{from_midi,optimize_call_loops}, rom::write_bank")])

prop("P35", "Notes keep their velocity, portamento leads into them",
     "The first command of a note carries an eighth of the velocity the note was pressed with, kept within 1 to 15, and the full sustain 7 (before a rest is folded into it); it is a tie exactly when the command before it is a pitch slide, and the rest of a long note is ties. A note pressed while portamento is on, directly after a command that has a duration and is not a rest, is preceded by one pitch slide to the note's encoded pitch whose delay and length add up to that duration (no delay if the length exceeds it); no other note gets one.",
     ["inputs", "histories"], "every sequence of presses, releases and portamento changes of a voice, any velocity",
     "No test converts a track with portamento; velocities are not compared.",
     [TRK, CMD], [("presses and releases", "nspc::track::Track::new"), ("create_pitch_slide", "nspc::command::ParameterizedCommand::create_pitch_slide")])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
