From 73295fe510b360a01dcd74dd5b36e6ea716b691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 1/4] fix: only report candidates the validator declined as
 invalid

select() put the reverse of every popped rule into the invalid set unless it
was a valid candidate, so rules that were never candidates (or that had not
been validated) were reported as rejected.
---
 src/enumo/ruleset.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index ac0130e..7c5225e 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -374,10 +374,12 @@ impl<L: SynthLanguage> Ruleset<L> {
                 // If reverse direction is also in candidates, add it at the same time
                 let reverse = Rule::new(&rule.rhs, &rule.lhs);
                 if let Some(reverse) = reverse {
-                    if self.contains(&reverse) && reverse.is_valid() {
-                        selected.add(reverse);
-                    } else {
-                        invalid.add(reverse);
+                    if self.contains(&reverse) {
+                        if reverse.is_valid() {
+                            selected.add(reverse);
+                        } else {
+                            invalid.add(reverse);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 70887e46f01079e637e162cdb358f31473477a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 2/4] fix: count_lines gives up on a read error instead of
 looping

Lines::count() never ends when every read fails (for example when the path is
a directory or the device keeps returning errors).
---
 src/util.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 1f37637..edef091 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -66,9 +66,12 @@ macro_rules! map {
 /// Helper function to count the number of lines in a file
 pub fn count_lines(name: &str) -> Option<usize> {
     let filepath = format!("tests/recipes/{}.rs", name);
-    if let Ok(file) = File::open(filepath) {
-        Some(BufReader::new(file).lines().count())
-    } else {
-        None
+    let file = File::open(filepath).ok()?;
+    let mut count = 0;
+    for line in BufReader::new(file).split(b'\n') {
+        // A read error may persist, so give up instead of asking for more lines
+        line.ok()?;
+        count += 1;
     }
+    Some(count)
 }
-- 
2.43.0


From a6d807e0eec613f8187420fca0ce9eade8d841dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 3/4] fix: nightly rows survive concurrent reports, failed
 writes and crashes

add_json_to_file read the file, truncated it and wrote it back. Two threads
reporting at once lost rows or read a half-written file, and a full disk, a
kill or a power loss in between destroyed all earlier rows.
---
 src/logger.rs | 28 +++++++++++++++------------
 src/util.rs   | 53 +++++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 67 insertions(+), 14 deletions(-)

diff --git a/src/logger.rs b/src/logger.rs
index 02ca7b2..1a36ab2 100644
--- a/src/logger.rs
+++ b/src/logger.rs
@@ -1,11 +1,15 @@
 use std::{
-    fs::{self, OpenOptions},
+    fs,
+    io::ErrorKind,
+    sync::Mutex,
     time::{Duration, Instant},
 };
 
 use serde_json::{json, Value};
 
-use crate::{count_lines, enumo::Ruleset, DeriveType, Limits, Phase, SynthLanguage};
+use crate::{
+    count_lines, enumo::Ruleset, write_atomically, DeriveType, Limits, Phase, SynthLanguage,
+};
 
 /**
  * Adds a JSON object to the nightly data
@@ -14,17 +18,17 @@ use crate::{count_lines, enumo::Ruleset, DeriveType, Limits, Phase, SynthLanguag
  * the array, and writes it back to the file
  */
 fn add_json_to_file(json: Value) {
+    // Reading the rows and writing them back has to happen in one step
+    static LOCK: Mutex<()> = Mutex::new(());
+    let _guard = LOCK.lock().unwrap_or_else(|e| e.into_inner());
+
     let path = "nightly/data/output.json";
     std::fs::create_dir_all("nightly/data").unwrap_or_else(|e| panic!("Error creating dir: {}", e));
 
-    OpenOptions::new()
-        .read(true)
-        .write(true)
-        .create(true)
-        .open(path)
-        .expect("Unable to open or create file");
-
-    let s = fs::read_to_string(path).expect("Unable to read file");
+    let s = match fs::read_to_string(path) {
+        Err(e) if e.kind() == ErrorKind::NotFound => String::new(),
+        s => s.expect("Unable to read file"),
+    };
 
     let mut contents: Vec<Value> = if s.is_empty() {
         vec![]
@@ -34,8 +38,8 @@ fn add_json_to_file(json: Value) {
 
     contents.push(json);
 
-    std::fs::write(path, serde_json::to_string_pretty(&contents).unwrap())
-        .expect("Unable to write to json file");
+    let s = serde_json::to_string_pretty(&contents).unwrap();
+    write_atomically(path, s.as_bytes()).expect("Unable to write to json file");
 }
 
 /**
diff --git a/src/util.rs b/src/util.rs
index edef091..cb3c05e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,6 +1,8 @@
 use std::{
-    fs::File,
-    io::{BufRead, BufReader},
+    fs::{self, File},
+    io::{self, BufRead, BufReader, Write},
+    path::{Path, PathBuf},
+    sync::atomic::{AtomicUsize, Ordering},
 };
 
 /// Return the `i`th letter from the English alphabet.
@@ -75,3 +77,50 @@ pub fn count_lines(name: &str) -> Option<usize> {
     }
     Some(count)
 }
+
+/// Helper function to write a file so that, whatever fails and whenever the
+/// process or machine goes down, it either keeps its old contents or has all
+/// of the new ones.
+pub(crate) fn write_atomically(path: &str, contents: &[u8]) -> io::Result<()> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    // Follow links, so that the file they point to is replaced
+    let path: PathBuf = fs::canonicalize(path).unwrap_or_else(|_| Path::new(path).into());
+    let old = fs::metadata(&path).ok();
+    if old.as_ref().map_or(false, |meta| !meta.is_file()) {
+        // Not something that can be replaced, such as a device
+        return fs::write(&path, contents);
+    }
+
+    let mut tmp = path.clone().into_os_string();
+    tmp.push(format!(
+        ".{}-{}.tmp",
+        std::process::id(),
+        COUNTER.fetch_add(1, Ordering::Relaxed)
+    ));
+    let tmp = PathBuf::from(tmp);
+
+    let write = || {
+        let mut file = File::create(&tmp)?;
+        if let Some(meta) = &old {
+            fs::set_permissions(&tmp, meta.permissions())?;
+        }
+        file.write_all(contents)?;
+        file.sync_all()?;
+        fs::rename(&tmp, &path)
+    };
+    if let Err(e) = write() {
+        let _ = fs::remove_file(&tmp);
+        return Err(e);
+    }
+
+    // Not all platforms and filesystems can sync a directory
+    let dir = match path.parent() {
+        Some(dir) if dir != Path::new("") => dir,
+        _ => Path::new("."),
+    };
+    if let Ok(dir) = File::open(dir) {
+        let _ = dir.sync_all();
+    }
+    Ok(())
+}
-- 
2.43.0


From 9c38ccb7dde55ee3a7fb1c1628bbf84471e2b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 4/4] fix: saving rules or terms replaces the file in one step

to_file truncated the old file and wrote the new one line by line, so a full
disk, a kill or a power loss left a truncated list that loads without complaint.
---
 src/enumo/ruleset.rs  | 11 ++++++-----
 src/enumo/workload.rs |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index 7c5225e..de08ddf 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -4,8 +4,8 @@ use rayon::prelude::{IntoParallelIterator, ParallelIterator};
 use std::{io::Write, sync::Arc};
 
 use crate::{
-    CVec, DeriveType, EGraph, ExtractableAstSize, HashMap, Id, IndexMap, Limits, Signature,
-    SynthAnalysis, SynthLanguage,
+    write_atomically, CVec, DeriveType, EGraph, ExtractableAstSize, HashMap, Id, IndexMap, Limits,
+    Signature, SynthAnalysis, SynthLanguage,
 };
 
 use super::{Rule, Scheduler};
@@ -180,11 +180,12 @@ impl<L: SynthLanguage> Ruleset<L> {
     }
 
     pub fn to_file(&self, filename: &str) {
-        let mut file = std::fs::File::create(filename)
-            .unwrap_or_else(|_| panic!("Failed to open '{}'", filename));
+        let mut contents = vec![];
         for (name, _) in &self.0 {
-            writeln!(file, "{}", name).expect("Unable to write");
+            writeln!(contents, "{}", name).expect("Unable to write");
         }
+        write_atomically(filename, &contents)
+            .unwrap_or_else(|e| panic!("Failed to write '{}': {}", filename, e));
     }
 
     pub fn from_file(filename: &str) -> Self {
diff --git a/src/enumo/workload.rs b/src/enumo/workload.rs
index 913d333..734459c 100644
--- a/src/enumo/workload.rs
+++ b/src/enumo/workload.rs
@@ -1,7 +1,7 @@
 use egg::{EGraph, ENodeOrVar, RecExpr};
 
 use super::*;
-use crate::{SynthAnalysis, SynthLanguage};
+use crate::{write_atomically, SynthAnalysis, SynthLanguage};
 use std::io::Write;
 
 /// Workloads are sets of terms from a domain
@@ -37,11 +37,12 @@ impl Workload {
     }
 
     pub fn to_file(&self, filename: &str) {
-        let mut file = std::fs::File::create(filename)
-            .unwrap_or_else(|_| panic!("Failed to open '{}'", filename));
+        let mut contents = vec![];
         for name in &self.force() {
-            writeln!(file, "{}", name).expect("Unable to write");
+            writeln!(contents, "{}", name).expect("Unable to write");
         }
+        write_atomically(filename, &contents)
+            .unwrap_or_else(|e| panic!("Failed to write '{}': {}", filename, e));
     }
 
     pub fn from_file(filename: &str) -> Self {
-- 
2.43.0

