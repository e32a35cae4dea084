From 82533fec91080f0530d73e916ac1950b0561b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 01/27] fix: don't merge a note and a rest into a duration
 above 0x7f

Durations above 0x7f are read as commands by the sound driver.
---
 src/nspc/command.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3aecdb0..b509529 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -374,7 +374,10 @@ impl ParameterizedCommand {
                 let note_duration = self.duration.unwrap() as u16;
                 let rest_duration = next_command.duration.unwrap() as u16;
                 let total_duration = note_duration + rest_duration;
-                if (note_duration * 8) % total_duration == 0 || note_duration > rest_duration * 16 {
+                if total_duration <= 0x7f
+                    && ((note_duration * 8) % total_duration == 0
+                        || note_duration > rest_duration * 16)
+                {
                     let sustain = ((note_duration * 8) / total_duration) as u8;
                     self.sustain = Some(sustain.min(7));
                     self.duration = Some(total_duration as u8);
-- 
2.43.0


From bcebebf25400e0862fd70b547d1cc7e90ef64184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 02/27] fix: patch the call loops of the track that starts the
 overflow chunk where it was written

The call loop addresses of that track were written at its would-be
position in the base chunk, corrupting what is there.
---
 src/rom/mod.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 5d034b2..7363b7d 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -276,8 +276,6 @@ fn write_bank(
         for i in 0..song_data.get_num_tracks() {
             let track_data = Vec::<u8>::new();
             let mut track_call_loops = Vec::<CallLoopRef>::new();
-            let mut pre_chunk_switch_track_call_loops = Vec::<CallLoopRef>::new();
-            let track_start_offset = track_data_offset;
             let mut cursor = Cursor::new(track_data);
             song_data.write_track(&mut cursor, i, &mut track_call_loops)?;
             let track_data = cursor.into_inner();
@@ -299,8 +297,6 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
-                pre_chunk_switch_track_call_loops.extend_from_slice(track_call_loops.as_slice());
-                track_call_loops.clear();
             };
 
             if verbose {
@@ -317,15 +313,6 @@ fn write_bank(
                     track_data.iter().cloned(),
                 );
                 track_addrs.push(aram_base_addr + track_data_offset);
-                pre_chunk_switch_track_call_loops
-                    .iter()
-                    .for_each(|call_loop| {
-                        call_loops.push(RomCallLoopRef {
-                            target_track: call_loop.target_track,
-                            chunk_base: base_chunk_addr + track_start_offset,
-                            ref_pos: call_loop.ref_pos,
-                        })
-                    });
                 track_call_loops.iter().for_each(|call_loop| {
                     call_loops.push(RomCallLoopRef {
                         target_track: call_loop.target_track,
-- 
2.43.0


From a2becaa97525ebb06e8572a8e6b014451466a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 03/27] fix: check that data fits in the overflow chunk after
 switching to it

---
 src/rom/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 7363b7d..8bbfa86 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -225,6 +225,11 @@ fn write_bank(
             rom_addr = overflow_chunk_addr;
             chunk_length = overflow_chunk_len;
             aram_base_addr = aram_overflow_base;
+            ensure!(
+                song_offset + (if song_def.loops { 8 } else { 4 }) + 16 <= chunk_length,
+                "{} bank does not fit in available chunks",
+                bank.name
+            );
         };
 
         // write song address to song table
@@ -297,6 +302,11 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
+                ensure!(
+                    track_data_offset + track_data.len() <= chunk_length,
+                    "{} bank does not fit in available chunks",
+                    bank.name
+                );
             };
 
             if verbose {
-- 
2.43.0


From 031f15f8b7cb26f4ce57bc619a7e7ffe7aacd0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 04/27] fix: don't write the song table past the end of a short
 base chunk

---
 src/rom/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 8bbfa86..69a3e07 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -172,6 +172,12 @@ fn write_bank(
         "Couldn't find overflow chunk for {} bank",
         bank.name
     );
+    ensure!(
+        (first_song + bank.songs.len()) * 2 <= first_song_addr - ARAM_BASE
+            && first_song_addr - ARAM_BASE <= base_chunk_len,
+        "Song table for {} bank does not fit in base chunk",
+        bank.name
+    );
     let mut rom_addr = base_chunk_addr;
     let mut chunk_length = base_chunk_len;
     let mut aram_base_addr = ARAM_BASE;
-- 
2.43.0


From afbeafd548e110db36f349336ecd2b84bb2145e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 05/27] fix: record each occurrence of a sequence only once

An occurrence followed by more commands was recorded twice, so that a
later adjacent occurrence was counted too often.
---
 src/nspc/seqtree.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 7539ff6..470f3f9 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -424,20 +424,13 @@ impl SeqTree {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
                         if shared_prefix.len() == edge.commands.len() {
-                            add_location(
-                                &mut edge.target.as_mut().unwrap().locations,
+                            // also records the location in the target
+                            edge.target.as_mut().unwrap().add_commands(
+                                &commands[shared_prefix.len()..],
                                 track_idx,
                                 seq_start,
                                 shared_seq_len,
                             );
-                            if shared_prefix.len() < commands.len() {
-                                edge.target.as_mut().unwrap().add_commands(
-                                    &commands[shared_prefix.len()..],
-                                    track_idx,
-                                    seq_start,
-                                    shared_seq_len,
-                                );
-                            }
                         } else {
                             let mut new_target = SeqTree {
                                 edges: Vec::new(),
-- 
2.43.0


From a013a42c3b2f003346301405ccdcbc8ac730c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 06/27] fix: don't overflow when counting the repeats of a
 sequence

---
 src/nspc/seqtree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 470f3f9..961378a 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -355,7 +355,11 @@ fn add_location(locations: &mut Vec<Location>, track_idx: usize, cmd_idx: usize,
     {
         let adjoining_location = locations
             .iter_mut()
-            .find(|loc| loc.track_idx == track_idx && loc.cmd_idx + seq_len == cmd_idx);
+            .find(|loc| {
+                loc.track_idx == track_idx
+                    && loc.cmd_idx + seq_len == cmd_idx
+                    && loc.repeat_count < u8::max_value()
+            });
         if let Some(loc) = adjoining_location {
             loc.repeat_count += 1;
             found = true;
@@ -556,7 +560,7 @@ impl SeqTree {
                 && seq
                     .locations
                     .iter()
-                    .fold(0, |acc, &loc| acc + loc.repeat_count)
+                    .fold(0, |acc, &loc| acc + loc.repeat_count as usize)
                     > 1
         })
         .max_by_key(score)
@@ -573,6 +577,7 @@ impl SeqTree {
             } else if consolidated.last().map_or(false, |loc: &Location| {
                 loc.track_idx == location.track_idx
                     && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx
+                    && loc.repeat_count < u8::max_value()
             }) {
                 consolidated.last_mut().unwrap().repeat_count += 1;
             } else {
-- 
2.43.0


From e19dca9988813542718cdc91c30a7c875b759d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 07/27] fix: don't crash on the release of a note that isn't
 sounding

---
 src/midi/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 509e5b2..50979a0 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -170,7 +170,7 @@ impl MidiHandler {
                                         voices: active_voices,
                                     });
                                 }
-                                active_voices -= 1;
+                                active_voices = active_voices.saturating_sub(1);
                                 last_interval_end = abs_time;
                             }
                             MidiEvent::NoteOn { velocity, .. } => {
@@ -183,7 +183,7 @@ impl MidiHandler {
                                     });
                                 }
                                 if velocity == 0 {
-                                    active_voices -= 1;
+                                    active_voices = active_voices.saturating_sub(1);
                                 } else {
                                     active_voices += 1;
                                 }
-- 
2.43.0


From b47cdb1c20e9165240e96b523463431a83ed61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 08/27] fix: drop a note that ends before its quantized start

Its length underflowed.
---
 src/nspc/track.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 84e9434..e9c4e0e 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -119,7 +119,8 @@ impl Track {
                 Message::MidiEvent { ref event, .. } => {
                     match *event {
                         MidiEvent::NoteOff { note, .. } => {
-                            if let Some(start) = note_start {
+                            // a note that ends before its quantized start has no room left
+                            if let Some(start) = note_start.filter(|&start| start < abs_time) {
                                 let duration =
                                     Track::get_duration(abs_time - start, ticks_per_beat, true);
                                 let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
@@ -150,8 +151,8 @@ impl Track {
                                     ));
                                 }
                                 last_note_end = start + duration.quantized_ticks;
-                                note_start = None;
                             }
+                            note_start = None;
                         }
                         MidiEvent::NoteOn { velocity, note, .. } => {
                             last_note_end = Track::insert_rest(
-- 
2.43.0


From bdef879dd1b45e9da88df2901635e4100a37c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 09/27] fix: keep the full length of very long notes and rests

Spans over 255 * 127 units lost their upper bits, and converting back to
ticks could overflow.
---
 src/nspc/track.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index e9c4e0e..d6d4445 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -15,7 +15,7 @@ pub struct Track {
 struct Duration {
     length: u8,
     quantized_ticks: u32,
-    overflow_count: u8,
+    overflow_count: u32,
 }
 
 impl Track {
@@ -27,7 +27,7 @@ impl Track {
         } else {
             length.floor() as u32
         };
-        let quantized_ticks = quantized_length * (ticks_per_beat as u32) / 24;
+        let quantized_ticks = (quantized_length as u64 * ticks_per_beat as u64 / 24) as u32;
         if quantized_length > 0x7f {
             let overflow_amount = quantized_length % 0x7f;
             let overflow_count = quantized_length / 0x7f;
@@ -35,13 +35,13 @@ impl Track {
                 Duration {
                     length: 0x7f,
                     quantized_ticks,
-                    overflow_count: (overflow_count - 1) as u8,
+                    overflow_count: overflow_count - 1,
                 }
             } else {
                 Duration {
                     length: overflow_amount as u8,
                     quantized_ticks,
-                    overflow_count: overflow_count as u8,
+                    overflow_count,
                 }
             }
         } else {
-- 
2.43.0


From 39eadb7f3e79072bbde968b65e6aa8997b5879a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 10/27] fix: don't stop at a partial write of the ROM image

---
 src/rom/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 69a3e07..837d066 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -119,7 +119,7 @@ pub fn write(
     )?;
 
     file.seek(SeekFrom::Start(0))?;
-    file.write(&romdata)?;
+    file.write_all(&romdata)?;
     songs_pb.finish_print("All songs written.");
     mb_thread.join().unwrap();
     Ok(())
@@ -468,6 +468,6 @@ pub fn gen_fake_rom(
         .create(true)
         .write(true)
         .open(output_path)?;
-    out_file.write(&out_romdata)?;
+    out_file.write_all(&out_romdata)?;
     Ok(())
 }
-- 
2.43.0


From eb4b11852e7f128fbff168d5381d5fa18a03a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 11/27] fix: replace a longer previous file when generating a
 dummy ROM

---
 src/rom/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 837d066..9ee1936 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -467,6 +467,7 @@ pub fn gen_fake_rom(
     let mut out_file = OpenOptions::new()
         .create(true)
         .write(true)
+        .truncate(true)
         .open(output_path)?;
     out_file.write_all(&out_romdata)?;
     Ok(())
-- 
2.43.0


From fabc6875580524d3d94ee263b92f36d53a8bbe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 12/27] fix: don't insert a rest for a program change during a
 note

The time up to the program change was written twice.
---
 src/nspc/track.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index d6d4445..4329953 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -216,12 +216,14 @@ impl Track {
                             // TODO
                         }
                         MidiEvent::ProgramChange { ch, program, .. } => {
-                            last_note_end = Track::insert_rest(
-                                &mut commands,
-                                last_note_end,
-                                abs_time,
-                                ticks_per_beat,
-                            );
+                            if note_start.is_none() {
+                                last_note_end = Track::insert_rest(
+                                    &mut commands,
+                                    last_note_end,
+                                    abs_time,
+                                    ticks_per_beat,
+                                );
+                            }
                             let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
                             commands.push(ParameterizedCommand::new(
                                 None,
-- 
2.43.0


From cd8d9b35c4f39fa3ff186a610f2fae3e58325804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 13/27] fix: track the duration and velocity that a call loop
 leaves behind

The encoder assumed that the sound driver still had the velocity from
before the call, so notes after a call loop got the wrong velocity.
---
 src/nspc/command.rs |  7 +++++++
 src/nspc/mod.rs     |  2 +-
 src/nspc/track.rs   | 14 ++++++++++++--
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index b509529..39c789e 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -404,6 +404,13 @@ impl ParameterizedCommand {
         }
     }
 
+    pub fn call_loop_target(&self) -> Option<usize> {
+        match self.command {
+            Command::CallLoop(target, _) => Some(target),
+            _ => None,
+        }
+    }
+
     pub fn is_slide(&self) -> bool {
         match self.command {
             Command::PitchSlide(..) => true,
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 63c0ad5..0630dfb 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -198,7 +198,7 @@ impl Song {
             {
                 out.write(&PREAMBLE_OTHER_TRACK)?;
             }
-            track.write(out, call_loops)?;
+            track.write(out, &self.tracks, call_loops)?;
             out.write_u8(0x00)?;
         }
         Ok(())
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 4329953..5870b2a 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -275,15 +275,25 @@ impl Track {
     pub fn write(
         &self,
         out: &mut Cursor<Vec<u8>>,
+        tracks: &[Track],
         call_loops: &mut Vec<CallLoopRef>,
-    ) -> Result<(), Error> {
+    ) -> Result<(u8, Option<u8>), Error> {
         let mut duration = 0xff;
         let mut velocity = None;
         for cmd in &self.commands {
             let (duration_out, velocity_out) = cmd.write(out, duration, velocity, call_loops)?;
             duration = duration_out;
             velocity = velocity_out;
+            if let Some(target) = cmd.call_loop_target() {
+                // the called track leaves its own duration and velocity behind
+                let (duration_left, velocity_left) = match tracks.get(target) {
+                    Some(track) => track.write(&mut Cursor::new(vec![]), &[], &mut vec![])?,
+                    None => (0xff, None),
+                };
+                duration = duration_left;
+                velocity = velocity_left;
+            }
         }
-        Ok(())
+        Ok((duration, velocity))
     }
 }
-- 
2.43.0


From 3cf34e188e4391a3e863f6a81a09564c11dde3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 14/27] fix: set the percussion instrument on every voice that
 plays percussion

The last percussion instrument was remembered for all voices together
and across other program changes on the voice.
---
 src/midi/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 50979a0..c604234 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -339,7 +339,7 @@ impl MidiHandler {
         let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
         let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
         let mut active_notes: Vec<HashMap<u8, usize>> = Vec::new();
-        let mut last_percussion_instr = 0;
+        let mut last_percussion_instr_per_voice: Vec<Option<u8>> = Vec::new();
         for _ in 0..self.channels.len() {
             last_abs_time.push(0);
             curr_event_idx.push(0);
@@ -352,6 +352,7 @@ impl MidiHandler {
             last_ctrl_change_per_voice.push(None);
             last_prog_change_per_voice.push(None);
             last_pitch_bend_per_voice.push(None);
+            last_percussion_instr_per_voice.push(None);
             last_channel_per_voice.push(
                 self.channels
                     .iter()
@@ -479,10 +480,11 @@ impl MidiHandler {
                                 last_pitch_bend_per_channel.get(ch).unwrap().as_ref()
                                     .map(|event| messages.push((event.clone(), abs_time)));
                                 last_channel_per_voice[next_voice] = Some(ch);
+                                last_percussion_instr_per_voice[next_voice] = None;
                             };
                             if ch == 9 {
                                 let instr = if note == 38 || note == 40 { SNARE } else { CYMBAL };
-                                if last_percussion_instr != instr {
+                                if last_percussion_instr_per_voice[next_voice] != Some(instr) {
                                     let prog_change = (
                                         Message::MidiEvent {
                                             delta_time,
@@ -495,7 +497,7 @@ impl MidiHandler {
                                     );
                                     last_prog_change_per_channel[ch] = Some(prog_change.0.clone());
                                     messages.push(prog_change);
-                                    last_percussion_instr = instr;
+                                    last_percussion_instr_per_voice[next_voice] = Some(instr);
                                 }
                                 messages.push((Message::MidiEvent {
                                     delta_time,
@@ -544,6 +546,7 @@ impl MidiHandler {
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
                             last_prog_change_per_voice[voice] = Some(next_event.0.clone());
+                            last_percussion_instr_per_voice[voice] = None;
                             if voice == self.channels[ch].base_voice {
                                 pushed_to_base = true;
                             }
@@ -552,6 +555,7 @@ impl MidiHandler {
                             self.voices[self.channels[ch].base_voice]
                                 .messages
                                 .push(next_event.clone());
+                            last_percussion_instr_per_voice[self.channels[ch].base_voice] = None;
                         }
                         last_prog_change_per_channel[ch] = Some(next_event.0.clone());
                     }
-- 
2.43.0


From 9cdef0d58de35f369420f95d6f80ea8de40d459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 15/27] fix: move notes outside of the sound driver's range by
 octaves

They were written as other commands.
---
 src/nspc/track.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 5870b2a..173ba88 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -18,6 +18,18 @@ struct Duration {
     overflow_count: u32,
 }
 
+// notes 24 to 95 are available (0x80 to 0xc7), others move by octaves
+fn nspc_note(note: u8) -> u8 {
+    let folded = if note < 24 {
+        24 + note % 12
+    } else if note > 95 {
+        84 + note % 12
+    } else {
+        note
+    };
+    folded + 0x68
+}
+
 impl Track {
     fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
         let length_beats = (ticks as f32) / (ticks_per_beat as f32);
@@ -135,7 +147,7 @@ impl Track {
                                     if push_as_tie {
                                         Command::Tie
                                     } else {
-                                        Command::Note(note + 0x68)
+                                        Command::Note(nspc_note(note))
                                     },
                                 ));
                                 for i in 0..duration.overflow_count {
@@ -173,7 +185,7 @@ impl Track {
                                                 true,
                                             )
                                                 .length,
-                                            note + 0x68,
+                                            nspc_note(note),
                                         )
                                     });
                                 }
-- 
2.43.0


From 38ce5329a35af5576bd64ab7a98cfa6e0059b676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 16/27] fix: keep note velocities between 1 and 15

A velocity below 8 was taken for no velocity.
---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 173ba88..e7b05d7 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -142,7 +142,7 @@ impl Track {
                                     } else {
                                         duration.length
                                     }),
-                                    Some(note_velocity / 8),
+                                    Some((note_velocity / 8).max(1).min(15)),
                                     Some(7),
                                     if push_as_tie {
                                         Command::Tie
-- 
2.43.0


From 08b22fc9a2371882e684bd1fb303d224bafe5c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 17/27] fix: don't crash on malformed tempo, volume and program
 events

---
 src/nspc/track.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index e7b05d7..2a28bb0 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -115,7 +115,7 @@ impl Track {
                     ref data,
                     ..
                 } => {
-                    if let MetaEvent::SetTempo = *event {
+                    if *event == MetaEvent::SetTempo && data.len() == 3 {
                         let usec_per_beat = (data[0] as u32) * 0x10000
                             + (data[1] as u32) * 0x100
                             + (data[2] as u32);
@@ -212,7 +212,7 @@ impl Track {
                                         None,
                                         None,
                                         None,
-                                        Command::ChannelVolume(data * 2),
+                                        Command::ChannelVolume(data.saturating_mul(2)),
                                     ));
                                 }
                                 37 => {
@@ -236,7 +236,7 @@ impl Track {
                                     ticks_per_beat,
                                 );
                             }
-                            let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
+                            let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[(program & 0x7f) as usize] };
                             commands.push(ParameterizedCommand::new(
                                 None,
                                 None,
-- 
2.43.0


From 68d493b7f7bb6ded9ec64befc9590e7f6d476735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 18/27] fix: report errors when reading and writing JSON songs

---
 src/lib.rs      |  4 ++--
 src/nspc/mod.rs | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bd83df..d8b3976 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,7 +52,7 @@ pub fn run(matches: clap::ArgMatches) -> Result<(), Error> {
         let mut midi = midi::MidiHandler::new();
         midi.read(Path::new(input_path.unwrap()), verbose)?;
         let song = nspc::Song::from_midi(&midi, manifest::DEFAULT_TEMPO_ADJUST, optimize, verbose)?;
-        song.write_to_json(Path::new(output_path.unwrap()));
+        song.write_to_json(Path::new(output_path.unwrap()))?;
     } else if let Some(matches) = matches.subcommand_matches("gen_fake_rom") {
         let input_path = matches.value_of("INPUT");
         let output_path = matches.value_of("OUTPUT");
@@ -122,7 +122,7 @@ fn converter(optimize: bool, verbose: bool) -> Box<Fn(&Path, f32) -> Result<nspc
         if path.extension().map_or(false, |ext| ext.eq("mid")) {
             song_from_midi(path, tempo_factor, optimize, verbose)
         } else {
-            Ok(nspc::Song::from_json(path))
+            nspc::Song::from_json(path)
         }
     };
     Box::new(converter)
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 0630dfb..c177c51 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -156,14 +156,15 @@ impl Song {
         new_tracks
     }
 
-    pub fn from_json(path: &Path) -> Song {
-        let file = File::open(path).unwrap();
-        serde_json::from_reader(file).unwrap()
+    pub fn from_json(path: &Path) -> Result<Song, Error> {
+        let file = File::open(path)?;
+        Ok(serde_json::from_reader(file)?)
     }
 
-    pub fn write_to_json(&self, path: &Path) {
-        let out = File::create(path).unwrap();
-        serde_json::to_writer_pretty(out, self).unwrap()
+    pub fn write_to_json(&self, path: &Path) -> Result<(), Error> {
+        let out = File::create(path)?;
+        serde_json::to_writer_pretty(out, self)?;
+        Ok(())
     }
 
     pub fn empty() -> Result<Song, Error> {
-- 
2.43.0


From 7fde9ccca8781cc6293173a8255b46fa7eede227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 19/27] fix: report JSON songs that refer to tracks that don't
 exist

---
 src/nspc/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index c177c51..490f6fe 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -158,7 +158,25 @@ impl Song {
 
     pub fn from_json(path: &Path) -> Result<Song, Error> {
         let file = File::open(path)?;
-        Ok(serde_json::from_reader(file)?)
+        let song: Song = serde_json::from_reader(file)?;
+        song.validate()?;
+        Ok(song)
+    }
+
+    fn validate(&self) -> Result<(), Error> {
+        ensure!(!self.parts.is_empty(), "Song has no parts");
+        for part in &self.parts {
+            ensure!(!part.tracks.is_empty(), "Part has no tracks");
+            for &track in &part.tracks {
+                ensure!(track < self.tracks.len(), "Part refers to missing track {}", track);
+            }
+        }
+        for track in &self.tracks {
+            for target in track.commands.iter().filter_map(|cmd| cmd.call_loop_target()) {
+                ensure!(target < self.tracks.len(), "Call loop refers to missing track {}", target);
+            }
+        }
+        Ok(())
     }
 
     pub fn write_to_json(&self, path: &Path) -> Result<(), Error> {
-- 
2.43.0


From fad79ee6a96df1cf506b844b7648f3978a6edb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 20/27] fix: report songs with more than eight tracks in a part

Their track addresses overwrote the song data behind the part table.
---
 src/rom/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 9ee1936..6829ef2 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -353,7 +353,13 @@ fn write_bank(
         for i in 0..16 {
             romdata[part_data_addr + i] = 0;
         }
-        song_data.get_part_tracks(0).iter().for_each(|&track_idx| {
+        let part_tracks = song_data.get_part_tracks(0);
+        ensure!(
+            part_tracks.len() <= 8,
+            "Song has {} tracks in a part, only 8 are possible",
+            part_tracks.len()
+        );
+        part_tracks.iter().for_each(|&track_idx| {
             if verbose {
                 println!(
                     "Writing track address 0x{:X} to part data at 0x{:X}",
-- 
2.43.0


From 770d3f4f4543c6d1178a5c21f6712a4ba80b0d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 21/27] fix: report missing and mistyped manifest entries

---
 src/manifest/mod.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/manifest/mod.rs b/src/manifest/mod.rs
index 42b5853..b5151ae 100644
--- a/src/manifest/mod.rs
+++ b/src/manifest/mod.rs
@@ -1,4 +1,4 @@
-use failure::Error;
+use failure::{err_msg, Error};
 use serde_json;
 use serde_json::Value;
 use std::fs::File;
@@ -51,21 +51,25 @@ pub struct Song {
 }
 
 impl Song {
-    pub fn new(input: &Value, base_path: &Path) -> Song {
-        let path = Path::new(input["input"].as_str().unwrap());
+    pub fn new(input: &Value, base_path: &Path) -> Result<Song, Error> {
+        let path = Path::new(
+            input["input"]
+                .as_str()
+                .ok_or_else(|| err_msg("Manifest entry has no input file"))?,
+        );
         let path_buf;
         if path.is_absolute() {
             path_buf = path.to_path_buf();
         } else {
             path_buf = base_path.join(path).to_path_buf();
         }
-        Song {
+        Ok(Song {
             input: Some(path_buf),
             tempo_factor: input["tempoAdjust"]
                 .as_f64()
                 .unwrap_or(DEFAULT_TEMPO_ADJUST as f64) as f32,
             loops: input["loop"].as_bool().unwrap_or(true),
-        }
+        })
     }
 
     pub fn default(path: &Path) -> Song {
@@ -92,14 +96,19 @@ pub struct Bank {
 }
 
 impl Bank {
-    pub fn new(input: &Value, name: &'static str, song_names: &[&str], base_path: &Path) -> Bank {
-        Bank {
+    pub fn new(
+        input: &Value,
+        name: &'static str,
+        song_names: &[&str],
+        base_path: &Path,
+    ) -> Result<Bank, Error> {
+        Ok(Bank {
             name,
             songs: song_names
                 .iter()
                 .map(|&song_name| Song::new(&input[song_name], base_path))
-                .collect(),
-        }
+                .collect::<Result<Vec<Song>, Error>>()?,
+        })
     }
 }
 
@@ -112,12 +121,12 @@ impl Manifest {
     pub fn new(path: &Path) -> Result<Manifest, Error> {
         let reader = File::open(path)?;
         let json: Value = serde_json::from_reader(reader)?;
-        let parent = path.parent().unwrap();
+        let parent = path.parent().unwrap_or(Path::new(""));
         Ok(Manifest {
             banks: [
-                Bank::new(&json["overworld"], "overworld", &OVERWORLD_SONGS, parent),
-                Bank::new(&json["indoor"], "indoor", &INDOOR_SONGS, parent),
-                Bank::new(&json["ending"], "ending", &ENDING_SONGS, parent),
+                Bank::new(&json["overworld"], "overworld", &OVERWORLD_SONGS, parent)?,
+                Bank::new(&json["indoor"], "indoor", &INDOOR_SONGS, parent)?,
+                Bank::new(&json["ending"], "ending", &ENDING_SONGS, parent)?,
             ],
         })
     }
-- 
2.43.0


From b7b1e604caabe46d86974dcad94433c4a924aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 22/27] fix: report MIDI files of an unsupported format

---
 src/midi/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index c604234..e8a8305 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -100,6 +100,7 @@ pub struct MidiHandler {
     tracks: Vec<MidiTrack>,
     channels: [MidiChannel; 16],
     voices: [MidiVoice; 8],
+    format: u16,
     pub ticks_per_beat: u16,
     pub max_time: u32,
 }
@@ -136,6 +137,7 @@ impl MidiHandler {
                 MidiVoice::new(),
                 MidiVoice::new(),
             ],
+            format: 1,
             ticks_per_beat: 0,
             max_time: 0,
         }
@@ -152,6 +154,7 @@ impl MidiHandler {
                 .read()
                 .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
         }
+        ensure!(self.format == 1, "MIDI format {} is not supported", self.format);
         self.tracks_to_channels(verbose);
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
@@ -609,9 +612,7 @@ impl MidiHandler {
 
 impl Handler for MidiHandler {
     fn header(&mut self, format: u16, _track: u16, time_base: u16) {
-        if format != 1 {
-            unimplemented!("MIDI format {}", format)
-        }
+        self.format = format;
         self.ticks_per_beat = time_base;
     }
 
-- 
2.43.0


From ad45de390b45146a2408904432ec2af5abd31fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 23/27] fix: don't crash on input paths that aren't plain
 Unicode file names

---
 src/midi/mod.rs | 4 ++--
 src/rom/mod.rs  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index e8a8305..4646402 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -308,7 +308,7 @@ impl MidiHandler {
             }
         }
         Err(Error::from(MidiError::CouldntFit {
-            path: path.to_str().unwrap().to_owned(),
+            path: path.to_string_lossy().into_owned(),
         }))
     }
 
@@ -470,7 +470,7 @@ impl MidiHandler {
                                 next_voice = Some(base_voice);
                             }
                             let next_voice = next_voice.ok_or(MidiError::CouldntFit {
-                                path: path.to_str().unwrap().to_owned(),
+                                path: path.to_string_lossy().into_owned(),
                             })?;
 
                             active_notes[ch].insert(note, next_voice);
diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 6829ef2..897c990 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -197,7 +197,7 @@ fn write_bank(
 
     for song_def in &bank.songs {
         bank_pb.message(&match &song_def.input {
-            Some(path) => format!("{} ", path.file_name().unwrap().to_str().unwrap()),
+            Some(path) => format!("{} ", path.display()),
             None => "[empty song] ".to_string(),
         });
         bank_pb.set(
@@ -389,8 +389,8 @@ fn write_bank(
             println!(
                 "{} - total track size in current bank 0x{:X}",
                 match &song_def.input {
-                    Some(path) => path.file_name().unwrap().to_str().unwrap(),
-                    None => "[empty song]",
+                    Some(path) => path.to_string_lossy(),
+                    None => "[empty song]".into(),
                 },
                 if track_data_offset > song_offset {
                     track_data_offset - song_offset
-- 
2.43.0


From a233655b794b4f6ff52e10bdec97a1c5ff8f4907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 24/27] fix: accept bank addresses for gen_fake_rom

The command reads them but didn't declare them.
---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 5dc5da6..e7a6df6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -41,6 +41,7 @@ fn main() -> Result<(), Error> {
             (about: "generate a dummy ROM file from a real one")
             (@arg INPUT: +required "the real ROM file to use")
             (@arg OUTPUT: +required "the output file to use")
+            (@arg bank_addrs: --bank_addrs #{3,3} +use_delimiter "song bank addresses in the ROM")
         )
     )
     .get_matches();
-- 
2.43.0


From 99539484e677c8174f6ed25199231835b511d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 25/27] fix: use the snare pitch however a snare note is
 released

A release by a note-on event got the pitch of the MIDI note.
---
 src/midi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 4646402..f0c15cc 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -426,7 +426,7 @@ impl MidiHandler {
                                     delta_time,
                                     event: MidiEvent::NoteOff {
                                         ch: ch as u8,
-                                        note,
+                                        note: if ch == 9 && (note == 38 || note == 40) { SNARE_NOTE } else { note },
                                         velocity,
                                     },
                                 },
-- 
2.43.0


From c4f20fa02f68a2f8a1b0bcf85aa2e407d9175a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 26/27] fix: count all repeats when merging adjoining
 occurrences of a sequence

---
 src/nspc/seqtree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 961378a..8f787f6 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -577,9 +577,9 @@ impl SeqTree {
             } else if consolidated.last().map_or(false, |loc: &Location| {
                 loc.track_idx == location.track_idx
                     && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx
-                    && loc.repeat_count < u8::max_value()
+                    && loc.repeat_count <= u8::max_value() - location.repeat_count
             }) {
-                consolidated.last_mut().unwrap().repeat_count += 1;
+                consolidated.last_mut().unwrap().repeat_count += location.repeat_count;
             } else {
                 consolidated.push(location.clone());
             }
-- 
2.43.0


From 6209a7809ca62b6cfa5df317e4a75f398f3220f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 27/27] fix: keep repeated occurrences when a shorter shared
 sequence is found

---
 src/nspc/seqtree.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 8f787f6..a1956bf 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -442,13 +442,16 @@ impl SeqTree {
                             };
                             let old_target = edge.target.take();
                             if let Some(old_target) = old_target {
+                                let old_seq_len = seq_len + edge.commands.len();
                                 for loc in &old_target.locations {
-                                    add_location(
-                                        &mut new_target.locations,
-                                        loc.track_idx,
-                                        loc.cmd_idx,
-                                        shared_seq_len,
-                                    );
+                                    for i in 0..loc.repeat_count as usize {
+                                        add_location(
+                                            &mut new_target.locations,
+                                            loc.track_idx,
+                                            loc.cmd_idx + i * old_seq_len,
+                                            shared_seq_len,
+                                        );
+                                    }
                                 }
                                 let mut old_suffix = Vec::new();
                                 old_suffix.extend_from_slice(&edge.commands[shared_prefix.len()..]);
-- 
2.43.0

