From fc95d3f5840d5b739f54402702919fd46b2f4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 01/37] fix: ignore seeds whose weight is zero

---
 src/resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resampler.rs b/src/resampler.rs
index 8cc6b7d..29d93d7 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,7 +93,7 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() > 0. {
+                if events[seed].weight() >= 0. {
                     return;
                 }
                 trace!("New cell around event {}", events[seed].id());
-- 
2.43.0


From eecbf5a810043e747c8c2b744bab316b5c48270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 02/37] fix: events discarded by unweighting get zero weight
 instead of keeping their original weight

---
 src/cres.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cres.rs b/src/cres.rs
index 16838ed..cf3a513 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -194,6 +194,15 @@ where
         }
         log_multiplicities(&events);
 
+        // events that are discarded during unweighting end up with
+        // zero weight
+        let mut weights = vec![crate::event::Weights::default(); nevents];
+        for event in &events {
+            let mut zero = event.weights.read().clone();
+            zero.iter_mut().for_each(|w| *w = n64(0.));
+            weights[event.id] = zero;
+        }
+
         let events = self.resampler.resample(events).map_err(ResamplingErr)?;
 
         let mut events =
@@ -217,7 +226,6 @@ where
             -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
         );
 
-        let mut weights = vec![crate::event::Weights::default(); nevents];
         for event in events {
             weights[event.id] = event.weights.into_inner();
         }
-- 
2.43.0


From b639356833910af1cdbebfbafaf3240451317d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 03/37] fix: keep the largest cells when combining cell
 collectors

---
 src/cell_collector.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index 66292d8..21b069e 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -206,10 +206,9 @@ impl CellCollector {
     }
 }
 
+// keep the `n` largest entries
 fn truncate<K: Ord, V>(map: &mut BTreeMap<K, V>, n: usize) {
-    let mut count = 0;
-    map.retain(|_, _| {
-        count += 1;
-        count <= n
-    });
+    while map.len() > n {
+        map.pop_first();
+    }
 }
-- 
2.43.0


From 0ccda6d37b6d605929dd32c6e9a5d2dbfd1ed06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 04/37] fix: report event records that are not valid UTF-8
 instead of panicking

---
 src/hepmc2.rs | 19 ++++++++++---------
 src/lhef.rs   |  7 +++++--
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 30bec11..fcfae90 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -15,7 +15,7 @@ use crate::{
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, u32_entry},
     traits::{Rewind, UpdateWeights},
@@ -46,10 +46,7 @@ impl FileReader {
             match self.source.read_until(b'E', &mut record) {
                 Ok(0) => {
                     if record.len() > 1 {
-                        let record = String::from_utf8(record).unwrap();
-                        assert!(record.starts_with('E'));
-                        trace!("Read HepMC record:\n{record}");
-                        return Some(Ok(record));
+                        return Some(into_record(record));
                     } else {
                         return None;
                     }
@@ -59,13 +56,17 @@ impl FileReader {
             }
         }
         record.pop();
-        let record = String::from_utf8(record).unwrap();
-        assert!(record.starts_with('E'));
-        trace!("Read HepMC record:\n{record}");
-        Some(Ok(record))
+        Some(into_record(record))
     }
 }
 
+fn into_record(record: Vec<u8>) -> Result<String, ReadError> {
+    let record = String::from_utf8(record).map_err(Utf8Error::from)?;
+    assert!(record.starts_with('E'));
+    trace!("Read HepMC record:\n{record}");
+    Ok(record)
+}
+
 impl EventFileReader for FileReader {
     fn path(&self) -> &Path {
         self.source_path.as_path()
diff --git a/src/lhef.rs b/src/lhef.rs
index e7da39a..ef4e075 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -21,7 +21,7 @@ use crate::{
     hepmc2::update_central_weight,
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, non_space},
     traits::{Rewind, UpdateWeights},
@@ -55,7 +55,10 @@ impl FileReader {
                 Err(err) => return Some(Err(err.into())),
             }
         }
-        let record = String::from_utf8(record).unwrap();
+        let record = match String::from_utf8(record) {
+            Ok(record) => record,
+            Err(err) => return Some(Err(Utf8Error::from(err).into())),
+        };
         trace!("Read Les Houches Event record:\n{record}");
         Some(Ok(record))
     }
-- 
2.43.0


From edc3ae44aa7c508364a0092677cdbb06ed0e2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 05/37] fix: report HepMC events without weights instead of
 panicking

---
 src/hepmc2.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index fcfae90..397c6bc 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -458,7 +458,10 @@ fn extract_weights(record: &str) -> Result<(f64, Vec<f64>, &str), ReadError> {
         let (rest, weights) = count(double_entry, nweights as usize)
             .parse(rest)
             .map_err(|_| parse_err("event weight entries", rest))?;
-        (weights[0], weights, rest)
+        let Some(&weight) = weights.first() else {
+            return Err(parse_err("event weight entries", rest));
+        };
+        (weight, weights, rest)
     } else {
         let (rest, weight) = double_entry(rest)
             .map_err(|_| parse_err("event weight entry", rest))?;
-- 
2.43.0


From c32fa456ec6af64cee7f1f033cb77f3c2404ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 06/37] fix: do not panic for LHEF events with less than two
 particles

---
 src/lhef.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index ef4e075..39d8fa0 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -241,7 +241,10 @@ impl LHEFParser for Converter {
         let (rest, nparticles): (_, u32) =
             u32_entry0(record).map_err(|_| parse_err("NUP entry", record))?;
         let nparticles = nparticles as usize;
-        let mut event = EventBuilder::with_capacity(nparticles - 2);
+        let mut event = EventBuilder::with_capacity(
+            // do not trust the number of particles
+            nparticles.saturating_sub(2).min(record.len()),
+        );
         let (rest, _idrup) =
             any_entry(rest).map_err(|_| parse_err("IDRUP entry", rest))?;
         let (rest, wt) =
-- 
2.43.0


From c4a6528e99d7381a9dff834e506781dbc1a4ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 07/37] fix: do not skip the first character of momenta in
 STRIPPER XML events

---
 src/stripper_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index d557b4d..75db18e 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -595,7 +595,7 @@ impl StripperXmlParser for Converter {
             let (r, _) = tag("\">").parse(r).map_err(|_err: NomErr<'_>| {
                 Error::IncompleteTag("<p>", take_chars(r, 100))
             })?;
-            let (r, p) = particle_momentum(&r[1..])
+            let (r, p) = particle_momentum(r)
                 .map_err(|_| parse_err("particle momentum entry", r))?;
             event.add_outgoing(pid, p);
             (rest, _) = tag("</p>").parse(r).map_err(|_err: NomErr<'_>| {
-- 
2.43.0


From ade99e65aee08c6615a597f1b4b063e2206cdf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 08/37] fix: keep the last byte of HepMC files without events

---
 src/hepmc2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 397c6bc..bd28c7f 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -110,7 +110,9 @@ fn init_source(
             break;
         }
     }
-    header.pop();
+    if header.ends_with(b"\nE") {
+        header.pop();
+    }
     Ok((header, buf))
 }
 
-- 
2.43.0


From cd5b0ef0f64609bc259fd95d88af472b064549a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 09/37] fix: identify named HepMC weights by their names and
 not by their order in the record

---
 src/hepmc2.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index bd28c7f..f4e5c14 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -345,8 +345,8 @@ fn update_named_weights(
         (rest, name) = string_entry(rest).map_err(|_| {
             ParseEntry("weight name entry", take_chars(rest, 100))
         })?;
-        if weight_names.iter().any(|n| n == name) {
-            weight_pos.push(nentry);
+        if let Some(idx) = weight_names.iter().position(|n| n == name) {
+            weight_pos.push((nentry, idx));
         }
     }
 
@@ -356,8 +356,15 @@ fn update_named_weights(
             .take(nweights)
             .map(|w| w.to_string()),
     );
-    for (idx, weight) in weight_pos.iter().zip(weights.iter().skip(1)) {
-        weight_entries[*idx] = weight.to_string();
+    let weights = Vec::from_iter(weights.iter().skip(1));
+    for (nentry, idx) in weight_pos {
+        let Some(entry) = weight_entries.get_mut(nentry) else {
+            return Err(FindWeight(
+                weight_names[idx].clone(),
+                weight_entries.join(" "),
+            ));
+        };
+        *entry = weights[idx].to_string();
     }
 
     let start = weights_start + 1;
@@ -479,7 +486,6 @@ fn parse_weight_names_line<'a>(
     all_weights: &[f64],
     event: &mut EventBuilder,
 ) -> Result<&'a str, ReadError> {
-    use std::collections::HashMap;
     use ReadError::*;
 
     let parse_err =
@@ -489,8 +495,8 @@ fn parse_weight_names_line<'a>(
     if weight_names.is_empty() {
         return Ok(record);
     }
-    let mut weight_seen: HashMap<_, _> =
-        weight_names.iter().map(|n| (n.as_str(), false)).collect();
+    // the order of names can be different in each record
+    let mut named_weights = vec![None; weight_names.len()];
     let (names, nnames) = u32_entry(&record[1..])
         .map_err(|_| parse_err("number of weight names entry", record))?;
     record = names;
@@ -498,20 +504,19 @@ fn parse_weight_names_line<'a>(
         let name;
         (record, name) = string_entry(record)
             .map_err(|_| parse_err("weight name entry", record))?;
-        if let Some(seen) = weight_seen.get_mut(name) {
-            *seen = true;
-            event.add_weight(n64(*weight));
+        for (n, w) in weight_names.iter().zip(&mut named_weights) {
+            if n == name {
+                *w = Some(*weight);
+            }
         }
     }
-    let missing =
-        weight_seen
-            .into_iter()
-            .find_map(|(name, seen)| if seen { None } else { Some(name) });
-    if let Some(missing) = missing {
-        Err(FindWeight(missing.to_owned(), names.to_owned()))
-    } else {
-        Ok(record)
+    for (name, weight) in weight_names.iter().zip(named_weights) {
+        let Some(weight) = weight else {
+            return Err(FindWeight(name.to_owned(), names.to_owned()));
+        };
+        event.add_weight(n64(weight));
     }
+    Ok(record)
 }
 
 fn non_weight_entries(line: &str) -> IResult<&str, &str> {
-- 
2.43.0


From c300b289ed0df1f77f1363a40a44bfd042093f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 10/37] fix: report HepMC records that lack the requested
 weight names

---
 src/hepmc2.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index f4e5c14..e2fc20b 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -273,6 +273,7 @@ impl HepMCParser for Converter {
     fn parse_hepmc(&self, mut record: &str) -> Result<Event, Self::Error> {
         use ReadError::*;
 
+        let _start = record;
         let mut event = EventBuilder::new();
         let (weight, _weights, rest) = extract_weights(record)?;
         event.add_weight(n64(weight));
@@ -280,6 +281,8 @@ impl HepMCParser for Converter {
 
         #[allow(non_snake_case)]
         let mut energy_unit = EnergyUnit::GeV;
+        #[cfg(feature = "multiweight")]
+        let mut missing_names = !self.weight_names().is_empty();
         while let Some(pos) = record.find('\n') {
             record = &record[(pos + 1)..];
             match record.as_bytes().first() {
@@ -290,7 +293,8 @@ impl HepMCParser for Converter {
                 Some(b'N') => {
                     record = parse_weight_names_line(
                         self, record, &_weights, &mut event,
-                    )?
+                    )?;
+                    missing_names = false;
                 }
                 Some(b'P') => record = parse_particle_line(record, &mut event)?,
                 Some(b'U') => (energy_unit, record) = parse_units_line(record)?,
@@ -305,6 +309,14 @@ impl HepMCParser for Converter {
             }
         }
 
+        #[cfg(feature = "multiweight")]
+        if missing_names {
+            return Err(FindEntry(
+                "weight name entry (line starting with 'N')",
+                take_chars(_start, 100),
+            ));
+        }
+
         if energy_unit != EnergyUnit::GeV {
             assert_eq!(energy_unit, EnergyUnit::MeV);
             event.rescale_energies(n64(1e-3));
-- 
2.43.0


From d204ac19a505084dbbdd772c3466091a74862be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 11/37] fix: report STRIPPER XML files without matching
 normalisation instead of flipping the sign of weights

---
 src/stripper_xml.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 75db18e..4a33669 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -297,7 +297,7 @@ where
     use CreateError::*;
 
     let mut event_files = Vec::new();
-    let mut rescale: HashMap<_, (f64, u64)> = HashMap::new();
+    let mut rescale: HashMap<_, (Option<f64>, u64)> = HashMap::new();
     for (path, out) in paths {
         let path = path.as_ref();
         let file = File::open(path).map_err(OpenInput)?;
@@ -310,11 +310,11 @@ where
                 match tag {
                     XMLTag::Normalization { name, scale } => {
                         let entry = rescale.entry(name).or_default();
-                        entry.0 = scale;
+                        entry.0 = Some(scale);
                         // don't add to vec of event files
                     }
                     XMLTag::Eventrecord { name, nevents, .. } => {
-                        let entry = rescale.entry(name).or_insert((-1., 0));
+                        let entry = rescale.entry(name).or_default();
                         entry.1 += nevents;
                         event_files.push((path.to_owned(), out))
                     }
@@ -329,7 +329,9 @@ where
     }
     let rescale = rescale
         .into_iter()
-        .map(|(name, (scale, nevents))| (name, scale / (nevents as f64)))
+        .filter_map(|(name, (scale, nevents))| {
+            scale.map(|scale| (name, scale / (nevents as f64)))
+        })
         .collect();
     Ok((event_files, rescale))
 }
-- 
2.43.0


From 3e91a11de85b3783a8c94df0221275fc28d7496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 12/37] fix: unescape the process name in STRIPPER XML event
 records

---
 src/stripper_xml.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 4a33669..2015441 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -337,7 +337,7 @@ where
 }
 
 pub(crate) fn extract_xml_info(r: impl BufRead) -> Result<XMLTag, CreateError> {
-    use quick_xml::events::Event;
+    use quick_xml::{escape::unescape, events::Event};
     use Error::*;
 
     let mut buf = Vec::new();
@@ -396,7 +396,18 @@ pub(crate) fn extract_xml_info(r: impl BufRead) -> Result<XMLTag, CreateError> {
                                         })?;
                                     nsubevents = Some(val);
                                 }
-                                b"name" => name = Some(to_string(attr.value)?),
+                                b"name" => {
+                                    let val = to_string(attr.value)?;
+                                    let unescaped =
+                                        unescape(&val).map_err(|_| {
+                                            Error::AttrType {
+                                                attr: "name",
+                                                val: val.clone(),
+                                                wanted: "string",
+                                            }
+                                        })?;
+                                    name = Some(unescaped.into_owned());
+                                }
                                 b"as" => {
                                     let (_, val) = parse_u64(&attr)
                                         .map_err(|_| attr_err("as", &attr))?;
-- 
2.43.0


From 0f77f625708e94948ba7f3879dc5af65f9a06bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 13/37] fix: do not cut off the header of STRIPPER XML files
 without events

---
 src/stripper_xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 2015441..0137d18 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -543,7 +543,9 @@ fn init_source(
             break;
         }
     }
-    header.truncate(header.len() - b"<se".len());
+    if header.ends_with(b"<se") {
+        header.truncate(header.len() - b"<se".len());
+    }
     Ok((header, buf))
 }
 
-- 
2.43.0


From e405629210ccfc3d7a85560d0fd872a0fa30ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 14/37] fix: do not panic for STRIPPER XML files with more
 events than announced

---
 src/stripper_xml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 0137d18..1ac762c 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -92,7 +92,8 @@ impl FileReader {
 
         trace!("Read STRIPPER XML record:\n{record}");
 
-        self.rem_subevents -= 1;
+        // do not trust the number of events in the header
+        self.rem_subevents = self.rem_subevents.saturating_sub(1);
         Some(Ok(record))
     }
 }
-- 
2.43.0


From 243aa0788ed263c254c7316abe9a480754241712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 15/37] fix: reset the number of remaining STRIPPER XML events
 when rewinding

---
 src/stripper_xml.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 1ac762c..29aa0e4 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -38,6 +38,7 @@ use crate::{
 pub struct FileReader {
     source_path: PathBuf,
     source: Box<dyn BufRead>,
+    nsubevents: usize,
     rem_subevents: usize,
     header: Vec<u8>,
 }
@@ -53,11 +54,12 @@ impl FileReader {
             return Err(XMLError(Error::BadTag(header_info.to_string())));
         };
 
-        let rem_subevents = nsubevents as usize;
+        let nsubevents = nsubevents as usize;
         Ok(Self {
             source_path,
             source,
-            rem_subevents,
+            nsubevents,
+            rem_subevents: nsubevents,
             header,
         })
     }
@@ -113,6 +115,7 @@ impl Rewind for FileReader {
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
         (_, self.source) = init_source(&self.source_path)?;
+        self.rem_subevents = self.nsubevents;
 
         Ok(())
     }
-- 
2.43.0


From 8ba63e3d237cb38bed0a010923f14f1c698d5a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 16/37] fix: do not panic when updating weights one by one past
 the end of an event file

---
 src/io.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 37154e5..c000ce7 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -548,6 +548,7 @@ impl Rewind for CombinedFileIO {
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
         self.current = None;
+        self.current_file_idx = 0;
         self.nevents_read = 0;
         Ok(())
     }
@@ -571,9 +572,9 @@ impl Iterator for CombinedFileIO {
             } else {
                 self.next()
             }
-        } else if self.files.is_empty() {
+        } else if self.current_file_idx >= self.files.len() {
             None
-        } else if let Err(err) = self.open(0) {
+        } else if let Err(err) = self.open(self.current_file_idx) {
             Some(Err(err))
         } else {
             self.next()
@@ -622,13 +623,17 @@ impl UpdateWeights for CombinedFileIO {
         weights: &Weights,
     ) -> Result<bool, Self::Error> {
         while self.current_file_idx < self.files.len() {
+            if self.current.is_none() {
+                self.open(self.current_file_idx)?;
+            }
             let current = self.current.as_mut().unwrap();
             let res = current.update_next_weights(weights)?;
             if res {
                 return Ok(true);
             }
             current.finish_weight_update()?;
-            self.open(self.current_file_idx + 1)?;
+            self.current = None;
+            self.current_file_idx += 1;
         }
         Ok(false)
     }
-- 
2.43.0


From 33eae6e5173f5f8a4c4ed931b8834c09b423077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 17/37] fix: report errors writing the last events instead of
 losing them silently

---
 src/hepmc2.rs       | 14 +++++++++++---
 src/lhef.rs         | 13 +++++++++----
 src/stripper_xml.rs | 14 +++++++++++---
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index e2fc20b..b5e9499 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -234,12 +234,15 @@ impl UpdateWeights for FileIO {
         weights: &[Weights],
     ) -> Result<usize, Self::Error> {
         self.rewind()?;
-        for (n, weight) in weights.iter().enumerate() {
+        let mut nupdated = 0;
+        for weight in weights {
             if !self.update_next_weights(weight)? {
-                return Ok(n);
+                break;
             }
+            nupdated += 1;
         }
-        Ok(weights.len())
+        self.finish_weight_update()?;
+        Ok(nupdated)
     }
 
     fn update_next_weights(
@@ -249,6 +252,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.flush();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 /// Parser for HepMC event records
diff --git a/src/lhef.rs b/src/lhef.rs
index 39d8fa0..023ad14 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -286,13 +286,15 @@ impl UpdateWeights for FileIO {
         weights: &[Weights],
     ) -> Result<usize, Self::Error> {
         self.rewind()?;
-        for (n, weight) in weights.iter().enumerate() {
+        let mut nupdated = 0;
+        for weight in weights {
             if !self.update_next_weights(weight)? {
-                return Ok(n);
+                break;
             }
+            nupdated += 1;
         }
         self.finish_weight_update()?;
-        Ok(weights.len())
+        Ok(nupdated)
     }
 
     fn update_next_weights(
@@ -304,7 +306,10 @@ impl UpdateWeights for FileIO {
     }
 
     fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
-        let res = self.sink.write_all(b"\n</LesHouchesEvents>\n");
+        let res = self
+            .sink
+            .write_all(b"\n</LesHouchesEvents>\n")
+            .and_then(|_| self.sink.flush());
         self.into_io_error(res.map_err(WriteError::IO))?;
         Ok(())
     }
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 29aa0e4..5371498 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -672,12 +672,15 @@ impl UpdateWeights for FileIO {
         weights: &[Weights],
     ) -> Result<usize, Self::Error> {
         self.rewind()?;
-        for (n, weight) in weights.iter().enumerate() {
+        let mut nupdated = 0;
+        for weight in weights {
             if !self.update_next_weights(weight)? {
-                return Ok(n);
+                break;
             }
+            nupdated += 1;
         }
-        Ok(weights.len())
+        self.finish_weight_update()?;
+        Ok(nupdated)
     }
 
     fn update_next_weights(
@@ -687,6 +690,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.flush();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 fn double(input: &str) -> IResult<&str, f64> {
-- 
2.43.0


From ce50f1e576c82aac732f3aa135b48033fafdd4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 18/37] fix: do not panic when updating the weight of a LHEF
 event without line breaks

---
 src/lhef.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index 023ad14..c39a999 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -8,7 +8,8 @@ use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{
-    character::complete::{i32, space0, u32},
+    bytes::complete::take_until,
+    character::complete::{i32, newline, space0, u32},
     multi::count,
     sequence::preceded,
     IResult, Parser,
@@ -317,8 +318,7 @@ impl UpdateWeights for FileIO {
 
 fn non_weight_entries(record: &str) -> IResult<&str, &str> {
     let record = record.trim_start();
-    let line_end = record.find('\n').unwrap(); // TODO: error treatment
-    let rest = &record[(line_end + 1)..];
+    let (rest, _) = (take_until("\n"), newline).parse(record)?;
     let (rest, _nup) = preceded(space0, non_space).parse(rest)?;
     let (rest, _idrup) = any_entry(rest)?;
     let (parsed, rest) = record.split_at(record.len() - rest.len());
-- 
2.43.0


From 1a2a8436bbfc01e9ba13e468a4fa3c96e6e4c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 19/37] fix: report truncated LHEF events instead of dropping
 them silently

---
 src/lhef.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index c39a999..06c7031 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -48,10 +48,19 @@ impl FileReader {
     }
 
     fn read_raw(&mut self) -> Option<Result<String, ReadError>> {
+        use ReadError::*;
+
         let mut record = Vec::new();
         while !record.ends_with(b"</event>") {
             match self.source.read_until(b'>', &mut record) {
-                Ok(0) => return None, // TODO: check incomplete record
+                Ok(0) => {
+                    let record = String::from_utf8_lossy(&record);
+                    if !record.contains("<event") {
+                        return None;
+                    }
+                    let record = take_chars(&record, 100);
+                    return Some(Err(FindEntry("</event>", record)));
+                }
                 Ok(_) => {}
                 Err(err) => return Some(Err(err.into())),
             }
-- 
2.43.0


From 9654b78a0579f0536b9e12d329e9038284483604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 20/37] fix: report truncated STRIPPER XML events

---
 src/stripper_xml.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 5371498..9f019a2 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -622,6 +622,14 @@ impl StripperXmlParser for Converter {
             })?;
         }
 
+        if !rest.contains("</se>") {
+            return Err(Error::UnclosedTag(
+                "<se".to_string(),
+                take_chars(record, 100),
+            )
+            .into());
+        }
+
         // TODO: multiple weights
 
         Ok(event.build())
-- 
2.43.0


From 13bd498a6e665f59571bd99d943d75127af38d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 21/37] fix: report NaN in event files instead of spreading it
 to other events

---
 src/parsing.rs      | 7 ++++++-
 src/stripper_xml.rs | 4 +---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parsing.rs b/src/parsing.rs
index 56b202d..f3a2e5e 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,11 +1,16 @@
 use nom::{
     bytes::complete::take_while1,
     character::complete::{i32, space1, u32},
-    number::complete::double,
+    combinator::verify,
     sequence::preceded,
     IResult, Parser,
 };
 
+/// Parse a floating-point number, excluding NaN
+pub(crate) fn double(line: &str) -> IResult<&str, f64> {
+    verify(nom::number::complete::double, |x: &f64| !x.is_nan()).parse(line)
+}
+
 pub(crate) fn double_entry(line: &str) -> IResult<&str, f64> {
     preceded(space1, double).parse(line)
 }
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 9f019a2..882e97e 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -30,6 +30,7 @@ use crate::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
         FileIOError, ReadError, Utf8Error, WriteError,
     },
+    parsing::double,
     traits::{Rewind, UpdateWeights},
     util::{take_chars, trim_ascii_start},
 };
@@ -705,6 +706,3 @@ impl UpdateWeights for FileIO {
     }
 }
 
-fn double(input: &str) -> IResult<&str, f64> {
-    nom::number::complete::double(input)
-}
-- 
2.43.0


From 8d16dcace53dcb477a08536925e207aa018e4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 22/37] fix: do not panic for STRIPPER XML files announcing too
 many events

---
 src/cres.rs | 5 ++++-
 src/io.rs   | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index cf3a513..4ff8d89 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -246,7 +246,10 @@ where
             info!("Reading events");
             ProgressBar::default()
         };
-        let events = Mutex::new(Vec::with_capacity(expected_nevents));
+        let mut events = Vec::new();
+        // the expected number of events may be wrong, so failure is fine
+        let _ = events.try_reserve(expected_nevents);
+        let events = Mutex::new(events);
         {
             let converter = &self.converter;
             let clustering = &self.clustering;
diff --git a/src/io.rs b/src/io.rs
index c000ce7..058a930 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -535,10 +535,10 @@ fn combine_size_hints(
     mut h: (usize, Option<usize>),
     g: (usize, Option<usize>),
 ) -> (usize, Option<usize>) {
-    h.0 += g.0;
+    h.0 = h.0.saturating_add(g.0);
     h.1 = match (h.1, g.1) {
         (None, _) | (_, None) => None,
-        (Some(h), Some(g)) => Some(h + g),
+        (Some(h), Some(g)) => h.checked_add(g),
     };
     h
 }
-- 
2.43.0


From 080494b90b513dfaf11d8f61fda9b93791cd6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 23/37] fix: refuse to overwrite input files or other output
 files

---
 src/io.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 058a930..01550d2 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fs::File,
     io::{BufRead, BufReader},
     path::{Path, PathBuf},
@@ -161,6 +161,10 @@ impl IOBuilder {
         } = self;
         let _scaling = scaling;
 
+        if is_same_file(&infile, &outfile) {
+            return Err(CreateError::Overwrite(outfile));
+        }
+
         let format = detect_event_file_format(&infile)?;
         debug!("Read {infile:?} as {format:?} file");
 
@@ -247,6 +251,27 @@ impl IOBuilder {
     }
 }
 
+/// Check if both paths refer to the same regular file
+///
+/// The file may not exist yet.
+fn is_same_file(a: &Path, b: &Path) -> bool {
+    match (resolve(a), resolve(b)) {
+        (Some(a), Some(b)) => a == b && (a.is_file() || !a.exists()),
+        _ => false,
+    }
+}
+
+fn resolve(path: &Path) -> Option<PathBuf> {
+    if let Ok(path) = path.canonicalize() {
+        return Some(path);
+    }
+    let dir = match path.parent() {
+        Some(dir) if dir != Path::new("") => dir,
+        _ => Path::new("."),
+    };
+    Some(dir.canonicalize().ok()?.join(path.file_name()?))
+}
+
 /// Detect format of an event file
 ///
 /// Defaults to [HepMC2](FileFormat::HepMC2) if not other format can
@@ -372,6 +397,9 @@ pub enum CreateError {
     /// Failed to create target file
     #[error("Failed to create target file")]
     CreateTarget(#[source] std::io::Error),
+    /// The output would replace an input file or another output file
+    #[error("Writing to {0} would overwrite an input file or other output")]
+    Overwrite(PathBuf),
     /// Failed to compress target file
     #[error("Failed to compress target file")]
     CompressTarget(#[source] std::io::Error),
@@ -515,10 +543,31 @@ impl CombinedFileIO {
         Ok(())
     }
 
+    /// Ensure that no output file replaces any input file or other output file
+    fn check_outfiles(&self) -> Result<(), FileIOError> {
+        let mut taken = HashSet::new();
+        taken.extend(self.files.iter().filter_map(|f| resolve(&f.infile)));
+        for IOFiles { infile, outfile } in &self.files {
+            let Some(path) = resolve(outfile) else {
+                continue;
+            };
+            let is_special = path.exists() && !path.is_file();
+            if !is_special && !taken.insert(path) {
+                return Err(FileIOError::new(
+                    infile.clone(),
+                    outfile.clone(),
+                    CreateError::Overwrite(outfile.clone()).into(),
+                ));
+            }
+        }
+        Ok(())
+    }
+
     fn init(&mut self) -> Result<(), FileIOError> {
         if self.files.is_empty() {
             return Ok(());
         }
+        self.check_outfiles()?;
         for idx in 0..self.files.len() {
             self.open(idx)?;
             self.total_size_hint = combine_size_hints(
-- 
2.43.0


From 540bd571b2f2de0806b6538d98c7e4f81135a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 24/37] fix: complete lz4 frames

---
 src/compression.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index f99529b..1972216 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -2,6 +2,7 @@ use std::io::Write;
 
 use bzip2::write::BzEncoder;
 use flate2::write::GzEncoder;
+use log::error;
 
 /// Compression format
 #[derive(Debug, Copy, Clone)]
@@ -36,7 +37,7 @@ pub fn compress_writer<'a, W: 'a + Write>(
                 .auto_flush(true)
                 .level(lvl.into())
                 .build(writer)?;
-            Ok(Box::new(encoder))
+            Ok(Box::new(Lz4Writer(Some(encoder))))
         }
         Some(Compression::Zstd(lvl)) => {
             let encoder = zstd::Encoder::new(writer, lvl.into())?;
@@ -45,3 +46,32 @@ pub fn compress_writer<'a, W: 'a + Write>(
         None => Ok(Box::new(writer)),
     }
 }
+
+/// [lz4::Encoder] that completes the lz4 frame when dropped
+struct Lz4Writer<W: Write>(Option<lz4::Encoder<W>>);
+
+impl<W: Write> Lz4Writer<W> {
+    fn encoder(&mut self) -> &mut lz4::Encoder<W> {
+        self.0.as_mut().expect("encoder is present until dropped")
+    }
+}
+
+impl<W: Write> Write for Lz4Writer<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.encoder().write(buf)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.encoder().flush()
+    }
+}
+
+impl<W: Write> Drop for Lz4Writer<W> {
+    fn drop(&mut self) {
+        if let Some(encoder) = self.0.take() {
+            if let (_, Err(err)) = encoder.finish() {
+                error!("Failed to complete lz4 output: {err}");
+            }
+        }
+    }
+}
-- 
2.43.0


From 1c6313c5c78d1cdad82d3cbf55a188877b84ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 25/37] fix: do not write the footer twice when classifying
 files without events

---
 src/bin/classify-events.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d41d176..bc46062 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -124,8 +124,10 @@ impl Classifier {
                 .with_context(|| {
                     format!("Failed to create writers for {file:?}")
                 })?;
+        // without any events the header comprises the whole file
+        let header = trim_footer_bytes(reader.header(), format);
         for writer in &mut writers {
-            writer.write_all(reader.header())?;
+            writer.write_all(header)?;
         }
         let expected_nevents = reader.size_hint().0;
         let event_progress = if expected_nevents > 0 {
@@ -224,6 +226,14 @@ fn trim_footer(event: &str, format: FileFormat) -> &str {
     }
 }
 
+fn trim_footer_bytes(header: &[u8], format: FileFormat) -> &[u8] {
+    let footer = get_footer(format).as_bytes();
+    header
+        .trim_ascii_end()
+        .strip_suffix(footer)
+        .unwrap_or(header)
+}
+
 fn get_footer(format: FileFormat) -> &'static str {
     match format {
         FileFormat::HepMC2 => "HepMC::IO_GenEvent-END_EVENT_LISTING",
-- 
2.43.0


From 83cd8f088a2da8e5d85cefcf56dfd68d173aaad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 26/37] fix: report errors writing the end of classified event
 files

---
 src/bin/classify-events.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index bc46062..1269ff2 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -22,7 +22,7 @@ use cres::{
     GIT_BRANCH, GIT_REV, VERSION,
 };
 use env_logger::Env;
-use log::{debug, error, info, trace};
+use log::{debug, info, trace};
 
 use crate::opt_classify::Opt;
 
@@ -147,9 +147,8 @@ impl Classifier {
             event_progress.inc(1);
         }
         for writer in writers {
-            if let Err(err) = write_footer(writer, format) {
-                error!("Failed to write event file footer: {err}");
-            }
+            write_footer(writer, format)
+                .with_context(|| "Failed to write event file footer")?;
         }
         Ok(())
     }
@@ -214,7 +213,8 @@ fn write_footer(
     format: FileFormat,
 ) -> std::io::Result<()> {
     writer.write_all(get_footer(format).as_bytes())?;
-    writer.write_all(b"\n")
+    writer.write_all(b"\n")?;
+    writer.flush()
 }
 
 fn trim_footer(event: &str, format: FileFormat) -> &str {
-- 
2.43.0


From f058df72643645d28db00903879cb57fcfc3fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 27/37] fix: refuse to overwrite classified events of other
 files with the same name

---
 src/bin/classify-events.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 1269ff2..64301a9 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -2,12 +2,13 @@ mod opt_classify;
 mod opt_common;
 
 use std::{
+    collections::HashSet,
     fs::{create_dir_all, File},
     io::{BufWriter, Write},
     path::{Path, PathBuf},
 };
 
-use anyhow::{anyhow, Context, Result};
+use anyhow::{anyhow, bail, Context, Result};
 use clap::Parser;
 use cres::{
     compression::{compress_writer, Compression},
@@ -60,6 +61,14 @@ fn main() -> Result<()> {
     create_dir_all(&opt.outdir)
         .with_context(|| format!("Failed to create {:?}", opt.outdir))?;
 
+    let mut names = HashSet::new();
+    for file in &opt.infiles {
+        let name = file.file_name();
+        if !names.insert(name) {
+            bail!("Output for {name:?} would be overwritten: there are several input files with this name")
+        }
+    }
+
     let classifier = Classifier {
         partitions,
         outdir: opt.outdir,
-- 
2.43.0


From 49dc441627a4997f65cef3a263d230fb8f598de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 28/37] fix: report too few events for the number of regions
 instead of panicking

---
 src/bin/partition.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 6e48c04..1f39f7a 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -78,11 +78,12 @@ fn main() -> Result<()> {
         }
     }
 
-    if (opt.regions as usize) > events.len() {
+    let min_events = min_events(opt.regions);
+    if events.len() < min_events {
         bail!(
-            "Number of negative-weight events ({}) must be at least as large as number of regions ({})",
-            events.len(),
+            "Need at least {min_events} negative-weight events for {} regions, but there are only {}",
             opt.regions,
+            events.len(),
         )
     }
     let nevents = events.len();
@@ -124,6 +125,20 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+/// Minimum number of events needed for a partition into `n` regions
+///
+/// Each bisection uses up one event as vantage point and at least one
+/// event has to remain on each side or, for the last layer of
+/// bisections, on one side.
+pub const fn min_events(n: u32) -> usize {
+    let n = n as usize;
+    if n > 1 {
+        n + n / 2 - 1
+    } else {
+        n
+    }
+}
+
 /// Logarithm in base 2, rounded down
 pub const fn log2(n: u32) -> u32 {
     u32::BITS - n.leading_zeros() - 1
-- 
2.43.0


From 1fb9bb9b9aaeee26a4520d95b5a0dec34bf0c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 29/37] fix: reject incomplete lepton and photon definitions
 when partitioning

---
 src/bin/partition.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 1f39f7a..bee3579 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -32,7 +32,7 @@ fn main() -> Result<()> {
     )
     .with_context(|| "Failed to read argument file")?;
     let opt = Opt::parse_from(args);
-    // TODO: validate!
+    validate(&opt)?;
 
     let env = Env::default().filter_or("CRES_LOG", &opt.loglevel);
     env_logger::init_from_env(env);
@@ -125,6 +125,29 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+// TODO: code duplication with `opt_cres_validate`
+fn validate(opt: &Opt) -> Result<()> {
+    let lepton = &opt.lepton_def;
+    let lepton_set = [
+        lepton.leptonalgorithm.is_some(),
+        lepton.leptonradius.is_some(),
+        lepton.leptonpt.is_some(),
+    ];
+    if lepton_set.contains(&true) && lepton_set.contains(&false) {
+        bail!("Either all or none of --leptonalgorithm, --leptonradius, --leptonpt have to be set")
+    }
+    let photon = &opt.photon_def;
+    let photon_set = [
+        photon.photonefrac.is_some(),
+        photon.photonradius.is_some(),
+        photon.photonpt.is_some(),
+    ];
+    if photon_set.contains(&true) && photon_set.contains(&false) {
+        bail!("Either all or none of --photonefrac, --photonradius, --photonpt have to be set")
+    }
+    Ok(())
+}
+
 /// Minimum number of events needed for a partition into `n` regions
 ///
 /// Each bisection uses up one event as vantage point and at least one
-- 
2.43.0


From 667a94fee1d5378ef6cc0cc0316f22199aa5cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 30/37] fix: read compressed partition files when classifying
 events

---
 src/bin/classify-events.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 64301a9..bbae0a4 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -4,11 +4,12 @@ mod opt_common;
 use std::{
     collections::HashSet,
     fs::{create_dir_all, File},
-    io::{BufWriter, Write},
+    io::{BufReader, BufWriter, Write},
     path::{Path, PathBuf},
 };
 
 use anyhow::{anyhow, bail, Context, Result};
+use audec::auto_decompress;
 use clap::Parser;
 use cres::{
     compression::{compress_writer, Compression},
@@ -50,6 +51,7 @@ fn main() -> Result<()> {
     let part_file = opt.partition;
     let part_info = File::open(&part_file)
         .with_context(|| format!("Failed to open {part_file:?}"))?;
+    let part_info = auto_decompress(BufReader::new(part_info));
     type PartInfo =
         (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>);
     let (clustering, partitions): PartInfo = serde_yaml::from_reader(part_info)
-- 
2.43.0


From 8a9162f31a954451b77279a4faca978b534c8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 31/37] fix: do not turn weights into NaN when unweighting
 events with zero total weight

---
 src/unweight.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/unweight.rs b/src/unweight.rs
index 1bbf35e..c8b3189 100644
--- a/src/unweight.rs
+++ b/src/unweight.rs
@@ -64,10 +64,13 @@ impl<R: Rng> Unweight for Unweighter<R> {
 
         // rescale to ensure that the sum of weights is preserved exactly
         let final_wt_sum: N64 = events.par_iter().map(|e| e.weight()).sum();
-        let reweight = orig_wt_sum / final_wt_sum;
-        events
-            .par_iter_mut()
-            .for_each(|e| e.rescale_weights(reweight));
+        // this is impossible if the remaining weights cancel each other
+        if final_wt_sum != 0. {
+            let reweight = orig_wt_sum / final_wt_sum;
+            events
+                .par_iter_mut()
+                .for_each(|e| e.rescale_weights(reweight));
+        }
         Ok(events)
     }
 }
-- 
2.43.0


From 029acf970ad148ec6a3a5cba842a0bff06d39f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 32/37] fix: do not panic when reporting the fraction of
 negative weights if all weights vanish

---
 src/cres.rs      | 2 +-
 src/resampler.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index 4ff8d89..fd2886e 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -223,7 +223,7 @@ where
         );
         info!(
             "Final negative weight fraction: {:.3}",
-            -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
+            -sum_neg_wt.raw() / (sum_wt - sum_neg_wt * 2.).raw()
         );
 
         for event in events {
diff --git a/src/resampler.rs b/src/resampler.rs
index 29d93d7..a9e163b 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -48,7 +48,7 @@ impl<D, N, O, S> Resampler<D, N, O, S> {
         );
         info!(
             "Negative weight fraction: {:.3}",
-            -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
+            -sum_neg_wt.raw() / (sum_wt - sum_neg_wt * 2.).raw()
         );
     }
 }
-- 
2.43.0


From 889ab81bfc5bba6090dd1350f78c4821f68388d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 33/37] fix: report STRIPPER XML files whose normalisation
 cannot be inverted

---
 src/stripper_xml.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 882e97e..403a451 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -197,6 +197,15 @@ impl FileIO {
         })
     }
 
+    /// Ensure that we can rescale weights and also undo the rescaling
+    fn check_scale(&self) -> Result<(), ReadError> {
+        if self.weight_scale != 0. && self.weight_scale.is_finite() {
+            Ok(())
+        } else {
+            Err(Error::InvalidScaling(self.weight_scale).into())
+        }
+    }
+
     fn rescale_weight(&self, record: &mut String) -> Result<(), ReadError> {
         use ReadError::*;
 
@@ -207,6 +216,7 @@ impl FileIO {
             .map_err(|_| parse_err("start of event record", record))?;
         let (rest, weight) =
             double(rest).map_err(|_| parse_err("weight entry", rest))?;
+        self.check_scale()?;
         let start = start.len();
         let end = record.len() - rest.len();
         record.replace_range(
@@ -238,6 +248,7 @@ impl FileIO {
         let mut record = record?;
 
         if !weights.is_empty() {
+            self.check_scale()?;
             let weight = weights.central() / self.weight_scale;
 
             // TODO: code duplication with `rescale_weight`
@@ -506,6 +517,9 @@ pub enum Error {
     /// Missing scaling
     #[error("No scaling information found for {0}")]
     MissingScaling(String),
+    /// Scaling that cannot be inverted
+    #[error("Cannot rescale event weights by {0}")]
+    InvalidScaling(f64),
     /// Unsupported XML tag
     #[error("File starts with an unsupported XML tag `{0}`")]
     BadTag(String),
-- 
2.43.0


From 1cc4cb1a3304e2c94080ed39be368fdf594c67f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 34/37] fix: do not resample cells whose weights have been
 changed by another thread

---
 src/cell.rs      | 59 ++++++++++++++++++++++++++++++++++++++++++++----
 src/resampler.rs | 20 ++++++++++------
 2 files changed, 68 insertions(+), 11 deletions(-)

diff --git a/src/cell.rs b/src/cell.rs
index c84d7cf..888fe0c 100644
--- a/src/cell.rs
+++ b/src/cell.rs
@@ -30,7 +30,6 @@ impl<'a> Cell<'a> {
         <N as NeighbourSearch>::Iter: Iterator<Item = (usize, N64)>,
     {
         let mut weight_sum = events[seed_idx].weight();
-        debug_assert!(weight_sum < 0.);
         debug!("Cell seed {seed_idx}  with weight {:e}", weight_sum);
         let mut members = vec![seed_idx];
         let mut radius = n64(0.);
@@ -64,12 +63,22 @@ impl<'a> Cell<'a> {
     ///
     /// The current implementation sets all weights to the mean weight
     /// over the cell.
+    ///
+    /// Other cells may have changed the weights of the cell members
+    /// since the construction of the cell. If as a consequence the
+    /// cell no longer serves its purpose the weights are left as they
+    /// are and the return value is `false`.
     #[cfg(feature = "multiweight")]
-    pub fn resample(&mut self) {
+    pub fn resample(&mut self) -> bool {
         use std::ops::{Deref, DerefMut};
 
+        let by_distance = self.members.clone();
         self.members.sort_unstable(); // sort to prevent deadlocks
         let mut member_weights = self.write_lock_weights();
+        match self.current_weight_sum(&by_distance, &member_weights) {
+            Some(weight_sum) => self.weight_sum = weight_sum,
+            None => return false,
+        }
         let (first, rest) = member_weights.split_first_mut().unwrap();
 
         let mut avg_wts = std::mem::take(first.deref_mut());
@@ -84,6 +93,7 @@ impl<'a> Cell<'a> {
             idx.copy_from(&avg_wts);
         }
         *first.deref_mut() = avg_wts;
+        true
     }
 
     /// Resample
@@ -93,12 +103,22 @@ impl<'a> Cell<'a> {
     ///
     /// The current implementation sets all weights to the mean weight
     /// over the cell.
+    ///
+    /// Other cells may have changed the weights of the cell members
+    /// since the construction of the cell. If as a consequence the
+    /// cell no longer serves its purpose the weights are left as they
+    /// are and the return value is `false`.
     #[cfg(not(feature = "multiweight"))]
-    pub fn resample(&mut self) {
+    pub fn resample(&mut self) -> bool {
         use std::ops::Deref;
 
+        let by_distance = self.members.clone();
         self.members.sort_unstable(); // sort to prevent deadlocks
         let member_weights = self.write_lock_weights();
+        match self.current_weight_sum(&by_distance, &member_weights) {
+            Some(weight_sum) => self.weight_sum = weight_sum,
+            None => return false,
+        }
 
         let total_wt: N64 =
             member_weights.iter().map(|w| w.deref().central()).sum();
@@ -106,6 +126,37 @@ impl<'a> Cell<'a> {
         for mut wt in member_weights {
             *wt = Weights::new_single(avg_wt);
         }
+        true
+    }
+
+    /// The sum of central weights in the order of the construction of
+    /// the cell, starting from the seed
+    ///
+    /// This is `None` if the cell should not be resampled, because the
+    /// seed has a non-negative weight by now, or because there are not
+    /// enough positive weights left inside the cell.
+    fn current_weight_sum(
+        &self,
+        by_distance: &[usize],
+        member_weights: &[RwLockWriteGuard<'_, Weights>],
+    ) -> Option<N64> {
+        let weight = |idx: &usize| {
+            // the members are sorted at this point
+            let pos = self.members.binary_search(idx).unwrap();
+            member_weights[pos].central()
+        };
+        let (seed, others) = by_distance.split_first()?;
+        let mut weight_sum = weight(seed);
+        if weight_sum >= 0. {
+            return None;
+        }
+        for idx in others {
+            weight_sum += weight(idx);
+        }
+        if self.weight_sum >= 0. && weight_sum < 0. {
+            return None;
+        }
+        Some(weight_sum)
     }
 
     /// Number of events in cell
@@ -138,7 +189,7 @@ impl<'a> Cell<'a> {
         self.members.iter().map(move |idx| &self.events[*idx])
     }
 
-    fn write_lock_weights(&self) -> Vec<RwLockWriteGuard<'_, Weights>> {
+    fn write_lock_weights(&self) -> Vec<RwLockWriteGuard<'a, Weights>> {
         self.members
             .iter()
             .map(|i| self.events[*i].weights.write())
diff --git a/src/resampler.rs b/src/resampler.rs
index a9e163b..678046c 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,13 +93,19 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() >= 0. {
-                    return;
-                }
-                trace!("New cell around event {}", events[seed].id());
-                let mut cell =
-                    Cell::new(&events, seed, &neighbour_search);
-                cell.resample();
+                let cell = loop {
+                    if events[seed].weight() >= 0. {
+                        return;
+                    }
+                    trace!("New cell around event {}", events[seed].id());
+                    let mut cell =
+                        Cell::new(&events, seed, &neighbour_search);
+                    if cell.resample() {
+                        break cell;
+                    }
+                    // other cells have changed the weights in between,
+                    // try again
+                };
                 self.observer.observe_cell(&cell);
                 progress.inc(1);
             });
-- 
2.43.0


From e67d7be409247d78868c575518c208dc3b902937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 35/37] fix: pass the weights of events to distance functions
 in the C interface

---
 src/c_api/distance.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/c_api/distance.rs b/src/c_api/distance.rs
index 5f24104..02c5d6d 100644
--- a/src/c_api/distance.rs
+++ b/src/c_api/distance.rs
@@ -42,9 +42,10 @@ impl Distance for DistanceFn {
         let type_sets1 = extract_typesets(ev1);
         let type_set_views1: Vec<_> =
             type_sets1.iter().map(TypeSet::view).collect();
+        let weights1 = extract_weights(ev1);
         let event_view1 = EventView {
             id: ev1.id(),
-            weights: ev1.weights.data_ptr() as *const f64,
+            weights: weights1.as_ptr(),
             n_weights: ev1.n_weights(),
             type_sets: type_set_views1.as_ptr(),
             n_type_sets: type_set_views1.len(),
@@ -52,9 +53,10 @@ impl Distance for DistanceFn {
         let type_sets2 = extract_typesets(ev2);
         let type_set_views2: Vec<_> =
             type_sets2.iter().map(TypeSet::view).collect();
+        let weights2 = extract_weights(ev2);
         let event_view2 = EventView {
             id: ev2.id(),
-            weights: ev2.weights.data_ptr() as *const f64,
+            weights: weights2.as_ptr(),
             n_weights: ev2.n_weights(),
             type_sets: type_set_views2.as_ptr(),
             n_type_sets: type_set_views2.len(),
@@ -76,3 +78,7 @@ fn extract_typesets(ev: &Event) -> Vec<TypeSet> {
         })
         .collect()
 }
+
+fn extract_weights(ev: &Event) -> Vec<f64> {
+    ev.weights.read().iter().map(|w| w.raw()).collect()
+}
-- 
2.43.0


From 5a2b01fd021c945ec3453f25638d9735b683afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 36/37] fix: reject values of options that are not a number
 instead of panicking

---
 src/bin/opt_common.rs    | 33 ++++++++++++++++++++++++++-------
 src/bin/opt_cres.rs      | 15 ++++++++++++---
 src/bin/opt_partition.rs |  2 +-
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/bin/opt_common.rs b/src/bin/opt_common.rs
index fe0c5a0..9e86290 100644
--- a/src/bin/opt_common.rs
+++ b/src/bin/opt_common.rs
@@ -80,6 +80,25 @@ pub(crate) fn parse_compr(s: &str) -> Result<Compression, ParseCompressionErr> {
     }
 }
 
+/// Parse a number, rejecting NaN
+pub(crate) fn parse_number(s: &str) -> Result<f64, String> {
+    match s.parse::<f64>() {
+        Ok(x) if x.is_nan() => Err("has to be a number".to_string()),
+        Ok(x) => Ok(x),
+        Err(err) => Err(err.to_string()),
+    }
+}
+
+/// Parse a finite number
+pub(crate) fn parse_finite(s: &str) -> Result<f64, String> {
+    let x = parse_number(s)?;
+    if x.is_finite() {
+        Ok(x)
+    } else {
+        Err("has to be finite".to_string())
+    }
+}
+
 #[derive(Debug, Copy, Clone, Parser)]
 pub(crate) struct JetDefinition {
     /// Jet algorithm.
@@ -90,9 +109,9 @@ pub(crate) struct JetDefinition {
     )]
     pub jetalgorithm: JetAlgorithm,
     /// Jet radius parameter.
-    #[clap(short = 'R', long)]
+    #[clap(short = 'R', long, value_parser = parse_number)]
     pub jetradius: f64,
-    #[clap(short = 'p', long)]
+    #[clap(short = 'p', long, value_parser = parse_number)]
     /// Minimum jet transverse momentum in GeV.
     pub jetpt: f64,
 }
@@ -116,9 +135,9 @@ pub(crate) struct LeptonDefinition {
     )]
     pub leptonalgorithm: Option<JetAlgorithm>,
     /// Lepton radius parameter.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     pub leptonradius: Option<f64>,
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     /// Minimum lepton transverse momentum in GeV.
     pub leptonpt: Option<f64>,
 }
@@ -136,13 +155,13 @@ impl From<LeptonDefinition> for cres::cluster::JetDefinition {
 #[derive(Debug, Copy, Clone, Parser)]
 pub(crate) struct PhotonDefinition {
     /// Minimum fraction of photon transverse energy in GeV.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_finite)]
     pub photonefrac: Option<f64>,
     /// Photon radius parameter.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     pub photonradius: Option<f64>,
     /// Minimum photon transverse momentum in GeV.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     pub photonpt: Option<f64>,
 }
 
diff --git a/src/bin/opt_cres.rs b/src/bin/opt_cres.rs
index 2d08982..396a6e1 100644
--- a/src/bin/opt_cres.rs
+++ b/src/bin/opt_cres.rs
@@ -28,6 +28,15 @@ impl Display for UnknownStrategy {
     }
 }
 
+fn parse_minweight(s: &str) -> Result<f64, String> {
+    let x = parse_finite(s)?;
+    if x >= 0. {
+        Ok(x)
+    } else {
+        Err("must not be negative".to_string())
+    }
+}
+
 #[derive(
     Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, ValueEnum,
 )]
@@ -40,7 +49,7 @@ pub(crate) enum Search {
 #[derive(Debug, Default, Copy, Clone, Parser)]
 pub(crate) struct UnweightOpt {
     /// Weight below which events are unweighted. '0' means no unweighting.
-    #[clap(short = 'w', long, default_value = "0.")]
+    #[clap(short = 'w', long, default_value = "0.", value_parser = parse_minweight)]
     pub(crate) minweight: f64,
 
     /// Random number generator seed for unweighting.
@@ -75,7 +84,7 @@ pub(crate) struct Opt {
     pub(crate) unweight: UnweightOpt,
 
     /// Weight of transverse momentum when calculating particle momentum distances.
-    #[clap(long, default_value = "0.")]
+    #[clap(long, default_value = "0.", value_parser = parse_finite)]
     pub(crate) ptweight: f64,
 
     // TODO: make this option work again
@@ -132,7 +141,7 @@ variable."
     /// Limiting the cell size ensures that event weights are only
     /// redistributed between events that are sufficiently similar.
     /// The downside is that not all negative weights may be cancelled.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     pub(crate) max_cell_size: Option<f64>,
 
     /// Comma-separated list of weights to include in the resampling
diff --git a/src/bin/opt_partition.rs b/src/bin/opt_partition.rs
index 2572155..d1de662 100644
--- a/src/bin/opt_partition.rs
+++ b/src/bin/opt_partition.rs
@@ -65,7 +65,7 @@ variable."
     pub(crate) threads: usize,
 
     /// Weight of transverse momentum when calculating particle momentum distances.
-    #[clap(long, default_value = "0.")]
+    #[clap(long, default_value = "0.", value_parser = parse_finite)]
     pub(crate) ptweight: f64,
 }
 
-- 
2.43.0


From 4ca398bc01b4fff463c1145b8f14d73c6a2ce883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:38 +0000
Subject: [PATCH 37/37] fix: refuse to overwrite input files when classifying
 events

---
 src/bin/classify-events.rs | 51 ++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index bbae0a4..6a2331c 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -63,13 +63,7 @@ fn main() -> Result<()> {
     create_dir_all(&opt.outdir)
         .with_context(|| format!("Failed to create {:?}", opt.outdir))?;
 
-    let mut names = HashSet::new();
-    for file in &opt.infiles {
-        let name = file.file_name();
-        if !names.insert(name) {
-            bail!("Output for {name:?} would be overwritten: there are several input files with this name")
-        }
-    }
+    check_outfiles(&opt.infiles, &opt.outdir, partitions.len())?;
 
     let classifier = Classifier {
         partitions,
@@ -257,12 +251,25 @@ fn get_footer(format: FileFormat) -> &'static str {
     }
 }
 
-fn make_byte_writers(
-    n: usize,
-    outdir: &Path,
-    file: &Path,
-    compression: Option<Compression>,
-) -> Result<Vec<Box<dyn Write>>> {
+/// Ensure that no output file replaces an input file or other output file
+fn check_outfiles(infiles: &[PathBuf], outdir: &Path, n: usize) -> Result<()> {
+    let mut taken: HashSet<PathBuf> =
+        infiles.iter().filter_map(|f| f.canonicalize().ok()).collect();
+    for file in infiles {
+        for outname in out_names(n, outdir, file)? {
+            let path = match outname.canonicalize() {
+                Ok(path) => path,
+                Err(_) => outname.clone(),
+            };
+            if !taken.insert(path) {
+                bail!("Output of {file:?} to {outname:?} would overwrite an input file or other output")
+            }
+        }
+    }
+    Ok(())
+}
+
+fn out_names(n: usize, outdir: &Path, file: &Path) -> Result<Vec<PathBuf>> {
     let filename = file
         .file_name()
         .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
@@ -271,16 +278,18 @@ fn make_byte_writers(
         .ok_or_else(|| anyhow!("Failed to convert {filename:?} to a string"))?;
     let (prefix, suffix) = file.split_once('.').unwrap_or((file, ""));
 
-    let make_outname = |i| {
-        PathBuf::from_iter([
-            outdir,
-            PathBuf::from(format!("{prefix}.{i}.{suffix}")).as_path(),
-        ])
-    };
+    let make_outname = |i| outdir.join(format!("{prefix}.{i}.{suffix}"));
+    Ok((0..n).map(make_outname).collect())
+}
 
+fn make_byte_writers(
+    n: usize,
+    outdir: &Path,
+    file: &Path,
+    compression: Option<Compression>,
+) -> Result<Vec<Box<dyn Write>>> {
     let mut res = Vec::with_capacity(n);
-    for i in 0..n {
-        let outname = make_outname(i);
+    for (i, outname) in out_names(n, outdir, file)?.into_iter().enumerate() {
         debug!("Events in region {i} will be written to {outname:?}");
         let outfile = File::create(&outname)
             .with_context(|| format!("Failed to create {outname:?}"))?;
-- 
2.43.0

