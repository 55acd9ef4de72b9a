From 888dc911a3c0df8bac6098554631f53a42bd0c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:28 +0000
Subject: [PATCH 01/36] fix: moving the cursor right by a huge amount
 overflowed instead of stopping at the end

---
 ogma-shell/interface/input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/interface/input.rs b/ogma-shell/interface/input.rs
index dcc1c42..b2f244d 100644
--- a/ogma-shell/interface/input.rs
+++ b/ogma-shell/interface/input.rs
@@ -89,7 +89,7 @@ impl InputBuffer {
 
     pub fn move_right(&mut self, by: Mvmt) {
         let n = mv_magnitude(by, self.buf[self.pos..].iter().copied());
-        self.pos = std::cmp::min(self.pos + n, self.buf.len());
+        self.pos = std::cmp::min(self.pos.saturating_add(n), self.buf.len());
     }
 
     pub fn buffer_changed(&self) -> bool {
-- 
2.43.0


From bf0a973170f3a9bd6dab4fd410cc006ed0a815ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:18 +0000
Subject: [PATCH 02/36] fix: events queued behind closing the last tab panicked
 the shell

---
 ogma-shell/interface/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 4d50597..bf9415c 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -252,11 +252,13 @@ where
     F: FnMut(Input, TabId, Cancelled) -> ConfigUpdate + Send,
 {
     // read events
-    let r = events
-        .by_ref()
-        .map(|ev| process_event(ev, state))
-        .max()
-        .unwrap_or(EventResult::None);
+    let mut r = EventResult::None;
+    for ev in events.by_ref() {
+        r = cmp::max(r, process_event(ev, state));
+        if r == EventResult::Break {
+            return Ok(true); // there are no more tabs to process events with
+        }
+    }
 
     // handle completions
     let r = match r {
-- 
2.43.0


From 1944bc2c56956e6f768dc759974ee15b376fd976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:18 +0000
Subject: [PATCH 03/36] fix: scrolling outputs taller than 65535 lines wrapped,
 huge scroll amounts panicked

---
 ogma-shell/interface/outputs.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ogma-shell/interface/outputs.rs b/ogma-shell/interface/outputs.rs
index 1c7628a..9c0639b 100644
--- a/ogma-shell/interface/outputs.rs
+++ b/ogma-shell/interface/outputs.rs
@@ -68,19 +68,17 @@ impl Outputs {
     }
 
     pub fn scroll(&mut self, lines: i32) {
-        use std::convert::*;
+        let by = min(lines.unsigned_abs(), u16::MAX as u32) as u16;
         match lines.cmp(&0) {
             Ordering::Equal => (),
             Ordering::Greater => {
                 // increase scroll (scroll down)
-                let lines: u16 = lines.try_into().unwrap();
-                let h = self.height().saturating_sub(1) as u16;
-                self.scroll = min(self.scroll.saturating_add(lines), h);
+                let h = min(self.height().saturating_sub(1), u16::MAX as usize) as u16;
+                self.scroll = min(self.scroll.saturating_add(by), h);
             }
             Ordering::Less => {
                 // decrease scroll (scroll up)
-                let lines: u16 = (-lines).try_into().unwrap();
-                self.scroll = self.scroll.saturating_sub(lines);
+                self.scroll = self.scroll.saturating_sub(by);
             }
         }
     }
-- 
2.43.0


From 2885cc0183387fe728890649113e583e23b90030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:19 +0000
Subject: [PATCH 04/36] fix: completions answered after a reset were offered
 for the replaced input

---
 ogma-shell/interface/completions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/interface/completions.rs b/ogma-shell/interface/completions.rs
index 1d34d4a..f0d07f4 100644
--- a/ogma-shell/interface/completions.rs
+++ b/ogma-shell/interface/completions.rs
@@ -44,7 +44,6 @@ impl Completions {
     }
 
     pub fn request(&mut self, input_buf: &InputBuffer) {
-        self.changeset = self.changeset.wrapping_add(1);
         self.reset();
 
         let input = input_buf.buffer(..);
@@ -77,6 +76,7 @@ impl Completions {
     }
 
     pub fn reset(&mut self) {
+        self.changeset = self.changeset.wrapping_add(1); // ignore answers still to come
         self.items.clear();
         self.highlighted = None;
     }
-- 
2.43.0


From dcedf716f45cccde374f13dbe469d30c6c88ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:19 +0000
Subject: [PATCH 05/36] fix: events queued behind Enter changed what was
 evaluated

---
 ogma-shell/interface/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index bf9415c..e6f3c0c 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -255,8 +255,10 @@ where
     let mut r = EventResult::None;
     for ev in events.by_ref() {
         r = cmp::max(r, process_event(ev, state));
-        if r == EventResult::Break {
-            return Ok(true); // there are no more tabs to process events with
+        match r {
+            EventResult::Break => return Ok(true), // there are no more tabs to process events with
+            EventResult::Eval => break, // evaluate the input as it is now
+            _ => (),
         }
     }
 
-- 
2.43.0


From ec6913a333b3997ad1117a63a67ada25fdb9e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:19 +0000
Subject: [PATCH 06/36] fix: completions on show replaced the wrong text after
 an edit in the same cycle

---
 ogma-shell/interface/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index e6f3c0c..5a07534 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -254,7 +254,11 @@ where
     // read events
     let mut r = EventResult::None;
     for ev in events.by_ref() {
-        r = cmp::max(r, process_event(ev, state));
+        let x = process_event(ev, state);
+        if x == EventResult::InputChanged {
+            state.tab_state().completions.reset(); // they are for the previous input
+        }
+        r = cmp::max(r, x);
         match r {
             EventResult::Break => return Ok(true), // there are no more tabs to process events with
             EventResult::Eval => break, // evaluate the input as it is now
-- 
2.43.0


From 1c94431a274f051fdbf8362e78ddc7d9ea98bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:42 +0000
Subject: [PATCH 07/36] fix: save wrote outside the root for paths that climb
 above it midway

Only the net depth of the components was compared with zero, so 'a/../../x'
style paths whose later components make up for an early '..' escaped, and with
an absolute root the sum overflowed.
---
 ogma/src/lang/impls/intrinsics/io.rs | 50 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index af83e91..db1f9b7 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -304,33 +304,37 @@ fn save_intrinsic(mut blk: Block) -> Result<Step> {
         let p = cx.root.join(cx.wd).join(p.as_str());
         // check path doesn't go beyond root. can't use scrub_filepath as this uses
         // canonicalization for checking
-        {
-            use std::path::Component::*;
-            let x = p.components().fold(0i32, |x, c| {
-                x + match c {
-                    RootDir => std::i32::MIN,
-                    CurDir => 0,
-                    ParentDir => -1,
-                    _ => 1,
-                }
-            }); // there is always one for the file name
-            if x <= 0 {
-                Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "cannot move above root directory",
-                ))
-            } else {
-                Ok(())
-            }
-        }
-        .and_then(|_| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
-        .map(std::io::BufWriter::new)
-        .and_then(|mut file| write_file(&mut file, val.clone()))
-        .map_err(|e| Error::io(&blktag, e))?;
+        check_below_root(&p, cx.root)
+            .and_then(|_| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
+            .map(std::io::BufWriter::new)
+            .and_then(|mut file| write_file(&mut file, val.clone()))
+            .map_err(|e| Error::io(&blktag, e))?;
         cx.done(val)
     })
 }
 
+/// Lexically check that `path` points to an item below `root`, and that **no component** of it
+/// climbs above `root`.
+fn check_below_root(path: &std::path::Path, root: &std::path::Path) -> io::Result<()> {
+    use std::path::Component::*;
+    let err = || io::Error::new(io::ErrorKind::Other, "cannot move above root directory");
+    let mut depth = 0usize;
+    for c in path.strip_prefix(root).map_err(|_| err())?.components() {
+        match c {
+            CurDir => (),
+            Normal(_) => depth += 1,
+            ParentDir if depth > 0 => depth -= 1,
+            ParentDir | RootDir | Prefix(_) => return Err(err()),
+        }
+    }
+    // there is always one for the file name
+    if depth == 0 {
+        Err(err())
+    } else {
+        Ok(())
+    }
+}
+
 fn mkdirs<P: AsRef<std::path::Path>>(p: P) -> io::Result<()> {
     let p = p.as_ref();
     if let Some(p) = p.parent() {
-- 
2.43.0


From d97d61aab00e3fd0ab351a1fec8619c6652e5d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 08/36] fix: open read root-relative paths relative to the
 process directory

scrub_filepath returns a path relative to the root; joining it back onto the
root reads the file that was checked.
---
 ogma/src/lang/impls/intrinsics/io.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index db1f9b7..fae7676 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -223,7 +223,9 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let table = match FSCACHE.get::<Table>(&path) {
                 Some(table) => table,
                 None => {
-                    let s: Str = read_file(&path).map_err(|e| Error::io(&blktag, e))?.into();
+                    let s: Str = read_file(cx.root.join(&path))
+                        .map_err(|e| Error::io(&blktag, e))?
+                        .into();
 
                     let table = Table::from(
                         ::table::parse_dsv(',', &s).map_obj(|s| Value::Str(Str::new(s))),
@@ -241,7 +243,9 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let s = match FSCACHE.get::<Str>(&path) {
                 Some(s) => s,
                 None => {
-                    let s: Str = read_file(&path).map_err(|e| Error::io(&blktag, e))?.into();
+                    let s: Str = read_file(cx.root.join(&path))
+                        .map_err(|e| Error::io(&blktag, e))?
+                        .into();
 
                     FSCACHE.insert(&path, s.clone());
                     s
-- 
2.43.0


From 5ef23ee4599678aac7b888444c53b0da333d1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:33 +0000
Subject: [PATCH 09/36] fix: ls listed directories outside the root, and
 relative to the process directory

---
 ogma/src/lang/impls/intrinsics/io.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index fae7676..2cfbdf4 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -25,6 +25,11 @@ fn scrub_filepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
         .canonicalize()
         .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))?;
 
+    strip_root(&wd, root)
+}
+
+/// Make the **canonical** path `wd` relative to `root`, erroring if it is not within `root`.
+fn strip_root(wd: &std::path::Path, root: &std::path::Path) -> io::Result<std::path::PathBuf> {
     let root = root
         .canonicalize()
         .unwrap_or_else(|_| std::path::PathBuf::from("."));
@@ -101,9 +106,14 @@ fn ls_intrinsic(mut blk: Block) -> Result<Step> {
     blk.eval_o(move |_, cx| {
         if let Some(path) = &path {
             let path: Str = path.resolve(|| Value::Nil, &cx)?.try_into()?;
-            make_dir_table(cx.wd.join(path.as_str()), &blk_tag)
+            let dir = cx.root.join(cx.wd).join(path.as_str());
+            let dir = dir
+                .canonicalize()
+                .and_then(|dir| strip_root(&dir, cx.root))
+                .map_err(|e| Error::io(&blk_tag, e))?;
+            make_dir_table(cx.root.join(dir), &blk_tag)
         } else {
-            make_dir_table(cx.wd, &blk_tag)
+            make_dir_table(cx.root.join(cx.wd), &blk_tag)
         }
         .and_then(|x| cx.done_o(x))
     })
-- 
2.43.0


From da88687d5c7f814211009454eac59d74c886a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:33 +0000
Subject: [PATCH 10/36] fix: the shell's run read batch files relative to the
 process directory

---
 ogma-shell/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 5550e97..6b13230 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -345,7 +345,7 @@ impl RunState {
             (r, None)
         };
         self.validate_path(tab_id, r)
-            .and_then(ogma::rt::bat::parse_file)
+            .and_then(|path| ogma::rt::bat::parse_file(self.root.join(path)))
             .map(|mut batch| {
                 if let Ok(batch) = &mut batch {
                     if let Some(x) = parallelise {
-- 
2.43.0


From bb0365fcebdd54749b07e5c979e4ae7dcc7b6974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:50 +0000
Subject: [PATCH 11/36] fix: batches that are not fail-fast ignored
 cancellation

---
 ogma/src/rt/bat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/rt/bat.rs b/ogma/src/rt/bat.rs
index c28e4f3..dd43c17 100644
--- a/ogma/src/rt/bat.rs
+++ b/ogma/src/rt/bat.rs
@@ -226,7 +226,7 @@ pub fn process(
             failure.flip_on();
         }
     };
-    let stop = || ff && (prog.cancelled() || failure.get());
+    let stop = || prog.cancelled() || (ff && failure.get());
 
     // process the defs (in order)
     for (idx, def) in defs {
-- 
2.43.0


From 22f1f454a88b80e02082b64a72751e33d653acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:58 +0000
Subject: [PATCH 12/36] fix: the file cache mixed up files whose names differ
 only by case

---
 ogma/src/rt/fscache.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index c6ef4a0..3e597b5 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -21,7 +21,7 @@ const DEBOUNCE: Duration = Duration::from_millis(5); // 5ms fs watching
 static INIT: Once = Once::new();
 
 #[derive(PartialEq, Eq, Hash)]
-struct Key(String, Type);
+struct Key(PathBuf, Type);
 type Value = (Instant, types::Value);
 type Map = HashMap<Key, Value>;
 
@@ -36,7 +36,7 @@ pub struct FsCache {
 
 impl Key {
     fn from<T: AsType>(path: &Path) -> Self {
-        Key(path_to_str(path), T::as_type())
+        Key(path.to_path_buf(), T::as_type())
     }
 }
 
@@ -80,7 +80,7 @@ impl FsCache {
         I: Iterator<Item = P>,
         P: AsRef<Path>,
     {
-        let paths: HashSet<String> = paths.map(|p| path_to_str(p.as_ref())).collect();
+        let paths: HashSet<PathBuf> = paths.map(|p| p.as_ref().to_path_buf()).collect();
         if !paths.is_empty() {
             self.map.lock().retain(|k, _| !paths.contains(&k.0));
         }
@@ -111,10 +111,6 @@ pub fn ensure_init(root: &Path) {
     });
 }
 
-fn path_to_str(path: &Path) -> String {
-    path.display().to_string().to_lowercase()
-}
-
 fn clean_opened_cache_periodically() {
     loop {
         std::thread::sleep(LIFESPAN);
-- 
2.43.0


From 8b5b0e217ec7214e85761577a509d2f2b3d612ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:06 +0000
Subject: [PATCH 13/36] fix: an open overtaken by a change of its file cached
 the outdated content

---
 ogma/src/lang/impls/intrinsics/io.rs |  6 ++++--
 ogma/src/rt/fscache.rs               | 23 ++++++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index 2cfbdf4..bc53482 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -233,6 +233,7 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let table = match FSCACHE.get::<Table>(&path) {
                 Some(table) => table,
                 None => {
+                    let since = FSCACHE.changes();
                     let s: Str = read_file(cx.root.join(&path))
                         .map_err(|e| Error::io(&blktag, e))?
                         .into();
@@ -240,7 +241,7 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
                     let table = Table::from(
                         ::table::parse_dsv(',', &s).map_obj(|s| Value::Str(Str::new(s))),
                     );
-                    FSCACHE.insert(&path, table.clone());
+                    FSCACHE.insert(&path, table.clone(), since);
                     table
                 }
             };
@@ -253,11 +254,12 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
             let s = match FSCACHE.get::<Str>(&path) {
                 Some(s) => s,
                 None => {
+                    let since = FSCACHE.changes();
                     let s: Str = read_file(cx.root.join(&path))
                         .map_err(|e| Error::io(&blktag, e))?
                         .into();
 
-                    FSCACHE.insert(&path, s.clone());
+                    FSCACHE.insert(&path, s.clone(), since);
                     s
                 }
             };
diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index 3e597b5..44029c0 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -8,6 +8,7 @@ use std::{
     error,
     path::{Path, PathBuf},
     result::Result,
+    sync::atomic::{AtomicUsize, Ordering},
     time::{Duration, Instant},
 };
 
@@ -32,6 +33,8 @@ type Map = HashMap<Key, Value>;
 #[derive(Default)]
 pub struct FsCache {
     map: Mutex<Map>,
+    /// Counts the removals of changed paths, see [`FsCache::insert`].
+    changes: AtomicUsize,
 }
 
 impl Key {
@@ -61,14 +64,26 @@ impl FsCache {
             .and_then(|x| T::try_from(x).ok())
     }
 
+    /// The number of times that changed paths have been removed.
+    pub fn changes(&self) -> usize {
+        self.changes.load(Ordering::SeqCst)
+    }
+
     /// Insert the value `T` along path.
-    pub fn insert<T>(&self, path: &Path, value: T)
+    ///
+    /// `since` is the number of [`changes`](FsCache::changes) from **before** the value was read.
+    /// If there have been changes since, the value might be outdated and is not inserted (the
+    /// removal of it has already happened).
+    pub fn insert<T>(&self, path: &Path, value: T, since: usize)
     where
         T: AsType,
         T: Into<types::Value>,
     {
         let key = Key::from::<T>(path);
-        self.map.lock().insert(key, (Instant::now(), value.into()));
+        let mut lock = self.map.lock();
+        if self.changes() == since {
+            lock.insert(key, (Instant::now(), value.into()));
+        }
     }
 
     fn remove_expired(&self, age: Duration) {
@@ -82,7 +97,9 @@ impl FsCache {
     {
         let paths: HashSet<PathBuf> = paths.map(|p| p.as_ref().to_path_buf()).collect();
         if !paths.is_empty() {
-            self.map.lock().retain(|k, _| !paths.contains(&k.0));
+            let mut lock = self.map.lock();
+            self.changes.fetch_add(1, Ordering::SeqCst);
+            lock.retain(|k, _| !paths.contains(&k.0));
         }
     }
 }
-- 
2.43.0


From dbe2f4f7a56b3be10d5f55946c53c2d69efd9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 14/36] fix: skipping usize::MAX rows of a shared table
 overflowed

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 6452490..0b8c083 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -1315,7 +1315,7 @@ fn skip_table_intrinsic(mut blk: Block) -> Result<Step> {
             let rows = table
                 .rows()
                 .take(1)
-                .chain(table.rows().skip(count + 1))
+                .chain(table.rows().skip(count.saturating_add(1)))
                 .map(|x| x.cloned());
             let mut t = ::table::Table::new();
             t.add_rows(rows);
-- 
2.43.0


From 741192dc29eae4e81e9f88366490f6f46e3b8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 15/36] fix: nth with the index usize::MAX overflowed

---
 ogma/src/lang/impls/intrinsics/pipeline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/pipeline.rs b/ogma/src/lang/impls/intrinsics/pipeline.rs
index ee3baaa..728e2f1 100644
--- a/ogma/src/lang/impls/intrinsics/pipeline.rs
+++ b/ogma/src/lang/impls/intrinsics/pipeline.rs
@@ -537,7 +537,7 @@ fn nth_table_intrinsic(mut blk: Block) -> Result<Step> {
             .resolve(|| table.clone(), &cx)
             .and_then(|v| cnv_num_to_uint::<usize>(v, &n.tag))?;
         let table = Table::try_from(table)?;
-        if nth + 1 >= table.rows_len() {
+        if nth.saturating_add(1) >= table.rows_len() {
             return Err(Error::eval(
                 &n.tag,
                 "index is outside table bounds",
-- 
2.43.0


From e1ce3fa7dff302c7c9bb0d083cd5cf477b0cec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 16/36] fix: sort-by panicked on a table without rows

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 0b8c083..888bd2d 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -1471,7 +1471,8 @@ where
 {
     let mut err = None;
     // sort values using a comparer
-    values[1..].sort_by(|a, b| {
+    let skip_hdr = values.len().min(1);
+    values[skip_hdr..].sort_by(|a, b| {
         // lhs is `a`, rhs is `b`
         match binop.eval(a.1.clone(), b.1.clone(), cx) {
             Ok(ord) => ord,
-- 
2.43.0


From 122f1f067367a317923dcb81d8f0c57cb39104a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:55 +0000
Subject: [PATCH 17/36] fix: dedup dropped a first row equal to the header

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 888bd2d..695ef2c 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -258,7 +258,11 @@ fn dedup_table_intrinsic(mut blk: Block) -> Result<Step> {
         };
         // we need to own the vector for .dedup function
         let mut t = (*table).clone().into_raw();
-        t.dedup_by(|a, b| cols.iter().all(|&c| a[c] == b[c]));
+        // the first comparison is against the header, which no row is a duplicate of
+        let mut header = true;
+        t.dedup_by(|a, b| {
+            !std::mem::take(&mut header) && cols.iter().all(|&c| a[c] == b[c])
+        });
 
         cx.done_o(Table::from(InnerTable::from(t)))
     })
-- 
2.43.0


From edc373c439dd327f98bf22d06094d53bf69abd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:38 +0000
Subject: [PATCH 18/36] fix: adding a wider table without rows panicked

---
 ogma/src/lang/impls/intrinsics/arithmetic.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/arithmetic.rs b/ogma/src/lang/impls/intrinsics/arithmetic.rs
index f22c4c2..97ed39f 100644
--- a/ogma/src/lang/impls/intrinsics/arithmetic.rs
+++ b/ogma/src/lang/impls/intrinsics/arithmetic.rs
@@ -149,12 +149,15 @@ fn add_table_by_row(mut prev: Table, next: Table, intersect: bool) -> Table {
             if nc > pc {
                 // name the added cols
                 for col in pc..nc {
-                    if let Some(h) = table
-                        .col_mut(col)
-                        .expect("add_rows should extend cols")
-                        .next()
-                    {
-                        *h = next.col(col).unwrap().next().cloned().unwrap_or_default();
+                    let hdr = next.col(col).unwrap().next().cloned().unwrap_or_default();
+                    match col < table.cols_len() {
+                        true => {
+                            if let Some(h) = table.col_mut(col).expect("col should exist").next() {
+                                *h = hdr;
+                            }
+                        }
+                        // `next` has no rows that would extend the cols
+                        false => table.add_col(std::iter::once(hdr)),
                     }
                 }
             }
-- 
2.43.0


From 1e398462f0d5da2de225f1be22206dec04b3059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:11 +0000
Subject: [PATCH 19/36] fix: grp-by ignored errors of the cmp it groups with

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 695ef2c..81be4a6 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -767,7 +767,7 @@ fn grpby_table_intrinsic(mut blk: Block) -> Result<Step> {
             .into_iter()
             .enumerate()
             .collect();
-        let t = grp_table(grping_values, &table, cmpr.pin_env(), &cx);
+        let t = grp_table(grping_values, &table, cmpr.pin_env(), &cx)?;
         cx.done_o(t)
     })
 }
@@ -775,6 +775,7 @@ fn grpby_table_intrinsic(mut blk: Block) -> Result<Step> {
 struct GrpByKey<'a, T> {
     value: Value,
     binop: Rc<RefCell<BinaryOpRef<'a, T>>>,
+    err: Rc<RefCell<Option<Error>>>,
     cx: &'a Context<'a>,
 }
 
@@ -795,6 +796,7 @@ where
         self.binop
             .borrow_mut()
             .eval(self.value.clone(), rhs.value.clone(), self.cx)
+            .map_err(|e| *self.err.borrow_mut() = Some(e))
             .ok()
     }
 }
@@ -807,7 +809,12 @@ where
     }
 }
 
-fn grp_table<T>(values: SortIdx, table: &Table, binop: BinaryOpRef<T>, cx: &Context) -> Table
+fn grp_table<T>(
+    values: SortIdx,
+    table: &Table,
+    binop: BinaryOpRef<T>,
+    cx: &Context,
+) -> Result<Table>
 where
     T: Fn(Value) -> cmp::Ordering,
 {
@@ -819,18 +826,24 @@ where
     let mut map = BTreeMap::new();
 
     let binop = Rc::new(RefCell::new(binop));
+    let err = Rc::new(RefCell::new(None));
     for (idx, value) in values.into_iter().skip(1) {
         // skip header row
         let key = GrpByKey {
             value,
             cx,
             binop: Rc::clone(&binop),
+            err: Rc::clone(&err),
         };
         let t = map.entry(key).or_insert_with(newtable);
         t.add_row(table.row(idx).expect("row inside table").cloned());
     }
 
-    build_table_from_map(map, |k| k.value)
+    // a comparison that failed leaves the order (and so the groups) undefined
+    match err.take() {
+        Some(e) => Err(e),
+        None => Ok(build_table_from_map(map, |k| k.value)),
+    }
 }
 
 // ------ Map ------------------------------------------------------------------
-- 
2.43.0


From 24778c067d41e4768b876593f8c05c30572f9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 20/36] fix: refuse binding one variable name twice with
 different types in one let

---
 ogma/src/common/err.rs | 13 +++++++++++++
 ogma/src/eng/blk.rs    | 10 +++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/ogma/src/common/err.rs b/ogma/src/common/err.rs
index d32f325..a790022 100644
--- a/ogma/src/common/err.rs
+++ b/ogma/src/common/err.rs
@@ -691,6 +691,19 @@ impl Error {
 
 /// Variable Errors
 impl Error {
+    pub(crate) fn var_type_conflict(var: &Tag, bound: &Type, found: &Type) -> Self {
+        Error {
+            cat: Category::Semantics,
+            desc: format!("variable `{var}` is bound twice with different types"),
+            traces: trace(
+                var,
+                format!("this binds a `{found}`, but `{var}` also binds a `{bound}`"),
+            ),
+            help_msg: Some("use different variable names".into()),
+            hard: true, // unrecoverable, the types will not change
+        }
+    }
+
     pub(crate) fn var_not_found(var: &Tag) -> Self {
         Error {
             cat: Category::Semantics,
diff --git a/ogma/src/eng/blk.rs b/ogma/src/eng/blk.rs
index a2c7c15..2b4d486 100644
--- a/ogma/src/eng/blk.rs
+++ b/ogma/src/eng/blk.rs
@@ -156,10 +156,18 @@ impl<'a> Block<'a> {
         match &ag[arg.idx()] {
             astgraph::AstNode::Var(var) => match arg.op(ag).next(ag) {
                 Some(next) => lg
-                    .new_var(next.idx(), Str::new(var.str()), ty, var.clone())
+                    .new_var(next.idx(), Str::new(var.str()), ty.clone(), var.clone())
                     .map_err(|chg| {
                         chgs.chgs.push(chg.into());
                         Error::update_locals_graph(var)
+                    })
+                    .and_then(|v| {
+                        // the block can bind the name twice, the one location holds a single type
+                        if v.ty() == &ty {
+                            Ok(v)
+                        } else {
+                            Err(Error::var_type_conflict(var, v.ty(), &ty))
+                        }
                     }),
                 None => Ok(Variable::noop(var.clone(), ty)),
             },
-- 
2.43.0


From b6b1d69d4b8e3eae08bc82fc3ac6d82728c453aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 21/36] fix: text in a definition's body was taken for a flag
 of def

---
 ogma-shell/lib.rs     |  2 +-
 ogma/src/lang/defs.rs | 13 ++++++++++---
 ogma/src/lang/mod.rs  |  4 +++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 6b13230..d11c4d2 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -166,7 +166,7 @@ impl RunState {
                 Err(e) => (writeln!(buf, "{}", e.to_string().bright_red()).ok(), ()).1,
             }
         } else if ogma::lang::recognise_definition(&input) {
-            if input.contains(" --load") {
+            if ogma::lang::definition_head(&input).contains(" --load") {
                 // load defs from the paths defined
                 self.load_defs_files(buf);
             } else {
diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index 8d3beec..df3ca0c 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -299,13 +299,20 @@ pub fn process_definition<'a>(
     }
 }
 
+/// The words of a definition before its body. Flags to `def` appear here, the same text inside the
+/// body belongs to the body.
+pub fn definition_head(s: &str) -> &str {
+    s.split('{').next().unwrap_or(s)
+}
+
 fn process_impl<'a>(
     s: &'a str,
     loc: Location,
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
-    if s.contains("--help") {
+    let head = definition_head(s);
+    if head.contains("--help") {
         let help = HelpMessage {
             desc: "define a command that encapsulates an expression
 def has specialised syntax which takes variable params: ( )"
@@ -342,10 +349,10 @@ def has specialised syntax which takes variable params: ( )"
             ..HelpMessage::new("def")
         };
         Err(err::help_as_error(&help, None))
-    } else if s.contains(" --list") {
+    } else if head.contains(" --list") {
         let post = s.split_once(" | ").map(|x| x.1);
         Ok((Value::Tab(construct_def_table(defs)), post))
-    } else if s.contains(" --clear") {
+    } else if head.contains(" --clear") {
         defs.clear(false);
         Ok((Value::Nil, None))
     } else {
diff --git a/ogma/src/lang/mod.rs b/ogma/src/lang/mod.rs
index 145db1e..c0a7512 100644
--- a/ogma/src/lang/mod.rs
+++ b/ogma/src/lang/mod.rs
@@ -10,7 +10,9 @@ pub(crate) mod types;
 
 // Public API
 
-pub use defs::{construct_def_table, process_definition, recognise_definition, Definitions};
+pub use defs::{
+    construct_def_table, definition_head, process_definition, recognise_definition, Definitions,
+};
 pub use impls::ImplEntry;
 pub use syntax::{ast, parse};
 pub use types::{AsType, OgmaData, Table, Type, Value};
-- 
2.43.0


From 1834034717eb8824e3213ce3966e60de8b34e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:43 +0000
Subject: [PATCH 22/36] fix: a type's initialisers replaced other ops of the
 same name (debug: panic)

---
 ogma/src/lang/impls/mod.rs | 29 +++++++++++++++++++++++++++++
 ogma/src/lang/types.rs     |  4 ++++
 2 files changed, 33 insertions(+)

diff --git a/ogma/src/lang/impls/mod.rs b/ogma/src/lang/impls/mod.rs
index 840e82c..2da79ee 100644
--- a/ogma/src/lang/impls/mod.rs
+++ b/ogma/src/lang/impls/mod.rs
@@ -320,6 +320,35 @@ pub fn usr_impl_help(def: &ast::DefinitionImpl) -> HelpMessage {
 }
 
 // ------ TypeDef Init ---------------------------------------------------------
+/// The ops which initialise a type would replace other ops of the same name.
+pub fn assert_init_ops_undefined(impls: &Implementations, tydef: &types::TypeDef) -> Result<()> {
+    let ops = match tydef.structure() {
+        types::TypeVariant::Sum(variants) => variants
+            .iter()
+            .map(|variant| format!("{}::{}", tydef.name(), variant.name))
+            .collect(),
+        types::TypeVariant::Product(_) => vec![tydef.name().to_string()],
+    };
+
+    for (i, op) in ops.iter().enumerate() {
+        let defined = impls.0.get(op.as_str()).and_then(|x| x.agnostic.as_ref());
+        if defined.is_some() || ops[..i].contains(op) {
+            return Err(Error {
+                cat: err::Category::Definitions,
+                desc: format!("can not define type `{}`", tydef.name()),
+                traces: vec![err::Trace::from_tag(
+                    tydef.name(),
+                    format!("it is initialised with `{op}`, which is already defined"),
+                )],
+                help_msg: Some("try defining your type with a different name".into()),
+                hard: true,
+            });
+        }
+    }
+
+    Ok(())
+}
+
 pub fn add_typedef_init_impls(impls: &mut Implementations, tydef: Arc<types::TypeDef>) {
     fn insert_intrinsic(
         impls: &mut Implementations,
diff --git a/ogma/src/lang/types.rs b/ogma/src/lang/types.rs
index 2607649..0700bde 100644
--- a/ogma/src/lang/types.rs
+++ b/ogma/src/lang/types.rs
@@ -379,6 +379,10 @@ impl Types {
         impls: &mut Implementations,
     ) -> Result<()> {
         let ty = self.insert_inner(def, loc, help)?;
+        if let Err(e) = lang::impls::assert_init_ops_undefined(impls, &ty) {
+            self.map.remove(ty.name().str()); // leave the types as they were
+            return Err(e);
+        }
         lang::impls::add_typedef_init_impls(impls, ty);
         Ok(())
     }
-- 
2.43.0


From e40737ce6485bd800cf9468b32c6f0dcc049664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 23/36] fix: the flags of def-ty panicked

---
 ogma/src/lang/defs.rs | 78 ++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 41 deletions(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index df3ca0c..97c0179 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -387,47 +387,43 @@ fn process_ty<'a>(
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
-    if s.contains("--help") {
-        todo!("need to create a def-ty help message");
-    //         let help = HelpMessage {
-    //             desc: "define a command that encapsulates an expression
-    // def has specialised syntax which takes variable params: ( )"
-    //                 .into(),
-    //             params: vec![
-    //                 HelpParameter::Required("name".into()),
-    //                 HelpParameter::Custom("([param1] [param2] [..args]) { expr }".into()),
-    //             ],
-    //             flags: vec![
-    //                 ("list", "list the definitions as a table"),
-    //                 (
-    //                     "load",
-    //                     "load persistent definitions from files in daedalus folder",
-    //                 ),
-    //                 ("clear", "clear all user defined definitions"),
-    //             ],
-    //             examples: vec![
-    //                 HelpExample {
-    //                     desc: "define a command that returns the number 5",
-    //                     code: "def num5 () { in 5 }",
-    //                 },
-    //                 HelpExample {
-    //                     desc: "list directory items that match a type",
-    //                     code: "def list (ty) { ls | filter = type $ty }",
-    //                 },
-    //                 HelpExample {
-    //                     desc: "pass through remaining arguments",
-    //                     code: "def a-name (first ..remaining) { foo $first $remaining }",
-    //                 },
-    //             ],
-    //         };
-    //         Err(help_as_error("def", &help))
-    } else if s.contains(" --list") {
-        todo!("need to create a listing of types")
-    //         Ok(Value::Tab(construct_def_table(defs)))
-    } else if s.contains(" --clear") {
-        todo!("need to handle clearing of types")
-    //         defs.clear(false);
-    //         Ok(Value::Nil)
+    let head = definition_head(s);
+    if head.contains("--help") {
+        let help = HelpMessage {
+            desc: "define a type that is either a structure or a choice of variants".into(),
+            params: vec![
+                HelpParameter::Required("name".into()),
+                HelpParameter::Custom("{ field1:Ty [field2:Ty] ... }".into()),
+                HelpParameter::Break,
+                HelpParameter::Required("name".into()),
+                HelpParameter::Custom(":: Variant1 [{ field:Ty ... }] [| Variant2] ...".into()),
+            ],
+            examples: vec![
+                HelpExample {
+                    desc: "define a point",
+                    code: "def-ty Point { x:Num y:Num }",
+                },
+                HelpExample {
+                    desc: "define an optional number",
+                    code: "def-ty Option :: None | Some { value:Num }",
+                },
+            ],
+            ..HelpMessage::new("def-ty")
+        };
+        Err(err::help_as_error(&help, None))
+    } else if let Some(flag) = [" --list", " --clear"].iter().find(|x| head.contains(**x)) {
+        Err(Error {
+            cat: err::Category::Definitions,
+            desc: format!("`def-ty` does not support the flag `{}`", flag.trim()),
+            traces: vec![Trace {
+                loc,
+                source: s.to_string(),
+                len: s.len(),
+                ..Default::default()
+            }],
+            help_msg: Some("`def --clear` also clears user defined types".into()),
+            ..Error::default()
+        })
     } else {
         defs.types
             .insert(s, loc, help, &mut defs.impls)
-- 
2.43.0


From 1ddf1e91bed2ab5f407948cd8b9dc9afb098b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 24/36] fix: drawing on a small terminal, or a wide prompt,
 panicked

Areas outside the terminal were handed to widgets: tabs, prompt and input
wider or taller than what is left, the scroll bar of an empty output area,
completions beside a full row. They are clipped now. An empty title is
drawn as an empty title.
---
 ogma-shell/interface/mod.rs     | 49 +++++++++++++++++++++++----------
 ogma-shell/interface/outputs.rs |  4 +--
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 5a07534..38cdc62 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -530,7 +530,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
                 .theme(thm),
         )
         .select(state.tab_selected());
-    let tabs_area = Rect { height: 1, ..area };
+    let tabs_area = clip(Rect { height: 1, ..area }, area);
     frame.render_widget(tabs, tabs_area);
 
     // --
@@ -541,17 +541,22 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     // title
     let title = convert_coloured_str(&state.title, std::usize::MAX, thm)
         .lines
-        .remove(0);
+        .into_iter()
+        .next()
+        .unwrap_or_default();
     let border = Block::default().title(title).borders(Borders::TOP);
     frame.render_widget(border, area);
     let area = reduce_top_margin(area, 1);
 
     // prompt
     let prompt_txt = Text::from(&*state.prompt);
-    let prompt_area = Rect {
-        width: prompt_txt.width() as u16,
-        ..area
-    };
+    let prompt_area = clip(
+        Rect {
+            width: prompt_txt.width() as u16,
+            ..area
+        },
+        area,
+    );
     let area = Rect {
         width: area.width.saturating_sub(prompt_area.width),
         x: area.x + prompt_area.width,
@@ -595,7 +600,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     };
 
     let (input_area, para, area) = text_block(input, area);
-    let input_area = input_area.intersection(size);
+    let input_area = clip(input_area, size);
     frame.render_widget(para, input_area);
     // --cursor
     frame.set_cursor(input_area.x + cursorx, input_area.y + cursory);
@@ -624,7 +629,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
             area.right().saturating_sub(w),
             area.bottom().saturating_sub(h),
         );
-        let area = Rect::new(x, y, w, h).intersection(size);
+        let area = clip(Rect::new(x, y, w, h), size);
         let para = Paragraph::new(help)
             .alignment(Alignment::Right)
             .style(light_on_magenta().theme(thm));
@@ -639,13 +644,15 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     let c = state.completions.items();
     let cmpls = construct_completion_block(c, state.completions.highlighted(), thm);
     let tags = construct_completion_tags(c);
-    let txt_area = Rect {
-        x: input_area.x + cmplx,
-        y: area.y,
-        width: cmpls.width() as u16,
-        height: cmpls.height() as u16,
-    }
-    .intersection(area);
+    let txt_area = clip(
+        Rect {
+            x: input_area.x + cmplx,
+            y: area.y,
+            width: cmpls.width() as u16,
+            height: cmpls.height() as u16,
+        },
+        area,
+    );
     let tag_area = Rect {
         x: txt_area.x + txt_area.width + 1,
         y: txt_area.y,
@@ -838,6 +845,18 @@ fn reduce_top_margin(rect: Rect, by: u16) -> Rect {
     }
 }
 
+/// The part of `rect` that lies in `within`, which is empty if they are apart.
+fn clip(rect: Rect, within: Rect) -> Rect {
+    let x = rect.x.clamp(within.x, within.right());
+    let y = rect.y.clamp(within.y, within.bottom());
+    Rect {
+        x,
+        y,
+        width: rect.right().clamp(x, within.right()) - x,
+        height: rect.bottom().clamp(y, within.bottom()) - y,
+    }
+}
+
 fn mv_history(state: &mut TabState, back: bool) -> EventResult {
     if back {
         state.history.back();
diff --git a/ogma-shell/interface/outputs.rs b/ogma-shell/interface/outputs.rs
index 9c0639b..ad25d47 100644
--- a/ogma-shell/interface/outputs.rs
+++ b/ogma-shell/interface/outputs.rs
@@ -91,7 +91,7 @@ impl Widget for &Outputs {
             ..area
         };
         let scroll_area = Rect {
-            width: 1,
+            width: area.width.min(1),
             x: area.x + parea.width,
             ..area
         };
@@ -124,7 +124,7 @@ fn scroll_location(scroll_area: Rect, outputs_height: usize, scroll: u16) -> Rec
         ((scroll_area_height * scroll_area_height) / (out_height)).trunc() as u16
     };
 
-    let height = scroll_area.height.clamp(1, height.max(1));
+    let height = scroll_area.height.min(height.max(1));
 
     let bar_lim = scroll_area.height.saturating_sub(height);
     let y = (scroll / (out_height - 1.0)) * (bar_lim as f64);
-- 
2.43.0


From 531253cd77a4d53ed5ed3626eb2f34258c7ce641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:19 +0000
Subject: [PATCH 25/36] fix: rows with tabs were wider than the columns they
 were wrapped for

A tab is drawn as four spaces but was wrapped as having no width, so the end
of such rows was cut off.
---
 ogma-shell/interface/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 38cdc62..b220d77 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -893,9 +893,15 @@ fn mv_completions(state: &mut TabState, next: bool) -> EventResult {
 }
 
 // ###### TEXT DECORATIONS #####################################################
-fn convert_coloured_str(s: &str, width: usize, theme: u8) -> Text<'static> {
-    use unicode_width::*;
+/// The columns a character takes. A tab is drawn as four spaces (see `cnv_span`).
+fn char_width(ch: char) -> usize {
+    match ch {
+        '\t' => 4,
+        ch => unicode_width::UnicodeWidthChar::width(ch).unwrap_or(0),
+    }
+}
 
+fn convert_coloured_str(s: &str, width: usize, theme: u8) -> Text<'static> {
     let mut lines = Vec::new();
     for line in self::cansi::line_iter(&self::cansi::categorise_text(s)) {
         // each new line actually needs to account for the width of the new line characters
@@ -906,7 +912,7 @@ fn convert_coloured_str(s: &str, width: usize, theme: u8) -> Text<'static> {
             let mut i = 0;
             let mut start = 0;
             for ch in slice.text.chars() {
-                let chw = ch.width().unwrap_or(0);
+                let chw = char_width(ch);
                 w += chw;
                 if w > width {
                     spans.push(cnv_span(&slice.text[start..i], slice, theme));
-- 
2.43.0


From c56569606ed7fab1e20abe834b956a52a72cef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:48 +0000
Subject: [PATCH 26/36] fix: the cursor was misplaced after wide characters and
 tabs

Its offset was counted in characters but compared with widths in columns.
---
 ogma-shell/interface/mod.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index b220d77..cf2103a 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -566,7 +566,6 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
 
     // input -- calculates cursor and completion position here as well
     let input = state.input_text(area.width as usize, thm);
-    let newlines_offset = sum_newline_chars(&state.input);
     let ends_nl = |range| {
         state
             .input
@@ -576,7 +575,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
             .unwrap_or(false)
     };
     let (cursorx, cursory) =
-        calculate_cursor_offset(&input, state.input.ch_pos().saturating_sub(newlines_offset));
+        calculate_cursor_offset(&input, columns_before(&state.input, state.input.ch_pos()));
     // bit of a hack adjustment to place the cursor and cmpls window correctly.
     // is a bit wacky with multiline input
     let (cursorx, cursory) = if ends_nl(..state.input.ch_pos()) {
@@ -591,7 +590,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
         } else {
             calculate_cursor_offset(
                 &input,
-                state.completions.word_pos().saturating_sub(newlines_offset),
+                columns_before(&state.input, state.completions.word_pos()),
             )
             .0
         }
@@ -762,25 +761,19 @@ fn text_block(text: Text, rect: Rect) -> (Rect, Paragraph, Rect) {
     (area1, p, area2)
 }
 
-/// Sums newlines characters up to cursor position of input.
-/// This should be offset against character and word positions to get correct cursor positions.
-fn sum_newline_chars(input: &InputBuffer) -> usize {
-    input
-        .chars(..input.ch_pos())
-        .iter()
-        .filter(|&&c| c == '\r' || c == '\n')
-        .map(|x| x.len_utf8())
-        .sum()
+/// The columns the input takes up to (character) position `pos`. Newlines take none.
+fn columns_before(input: &InputBuffer, pos: usize) -> usize {
+    input.chars(..pos).iter().map(|&c| char_width(c)).sum()
 }
 
-fn calculate_cursor_offset(text: &Text, chpos: usize) -> (u16, u16) {
+fn calculate_cursor_offset(text: &Text, col: usize) -> (u16, u16) {
     let mut x = 0;
     let mut y = 0;
     let mut w = 0;
     for line in &text.lines {
         let t = w + line.width();
-        if t >= chpos {
-            x = (chpos - w) as u16;
+        if t >= col {
+            x = (col - w) as u16;
             break;
         }
         w = t;
-- 
2.43.0


From 164cb8aa45132efe92e2c9dfe33f1d80811439af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:48 +0000
Subject: [PATCH 27/36] fix: the input kept the wrapping and theme it was typed
 in after a resize or theme change

---
 ogma-shell/interface/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index cf2103a..672fa81 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -95,6 +95,8 @@ struct TabState {
     prompt: String,
     input: InputBuffer,
     input_cache: Text<'static>,
+    /// The width and theme `input_cache` is for.
+    input_cached: Option<(usize, u8)>,
     outputs: Outputs,
     completions: Completions,
     decorationfn: DecorationFn,
@@ -103,10 +105,11 @@ struct TabState {
 
 impl TabState {
     fn input_text(&mut self, width: usize, theme: u8) -> Text<'static> {
-        if self.input.buffer_changed() {
+        if self.input.buffer_changed() || self.input_cached != Some((width, theme)) {
             let pos = self.input.buf_pos();
             let i = (self.decorationfn)(self.input.buffer(..), pos);
             self.input_cache = convert_coloured_str(&i, width, theme);
+            self.input_cached = Some((width, theme));
             self.input.reset_buf_changed();
         }
 
@@ -197,6 +200,7 @@ fn init(config: Config, initial_width: u16) -> (TabState, EnterFn) {
         prompt,
         input: InputBuffer::new(),
         input_cache: Text::from(""),
+        input_cached: None,
         outputs,
         completions,
         decorationfn: decorate_input,
-- 
2.43.0


From 5e298b07f87005f341b12f410a7ad4e9522d9702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:18 +0000
Subject: [PATCH 28/36] fix: outputs kept the theme they were wrapped in after
 a theme change

---
 ogma-shell/interface/mod.rs     |  2 +-
 ogma-shell/interface/outputs.rs | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 672fa81..92dc88f 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -615,7 +615,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     }; // reset x pos back to start of prompt
 
     // outputs
-    if area.width != state.outputs.cached_width() {
+    if area.width != state.outputs.cached_width() || thm != state.outputs.cached_theme() {
         state.outputs.update_width(area.width, thm);
     }
     let block = Block::default().title(" Outputs ").borders(Borders::TOP);
diff --git a/ogma-shell/interface/outputs.rs b/ogma-shell/interface/outputs.rs
index ad25d47..4364e2b 100644
--- a/ogma-shell/interface/outputs.rs
+++ b/ogma-shell/interface/outputs.rs
@@ -7,6 +7,7 @@ pub struct Outputs {
     items: VecDeque<Output>,
     limit: usize,
     cached_width: u16,
+    cached_theme: u8,
     scroll: u16,
 }
 
@@ -22,6 +23,7 @@ impl Outputs {
             items: VecDeque::new(),
             limit,
             cached_width: width,
+            cached_theme: 0,
             scroll: 0,
         }
     }
@@ -30,12 +32,19 @@ impl Outputs {
         self.cached_width
     }
 
+    pub fn cached_theme(&self) -> u8 {
+        self.cached_theme
+    }
+
     /// Items are in oldest to newest order.
     pub fn iter(&self) -> impl DoubleEndedIterator<Item = &Text> {
         self.items.iter().map(|x| &x.cached)
     }
 
     pub fn add(&mut self, value: String, theme: u8) {
+        if theme != self.cached_theme {
+            self.update_width(self.cached_width, theme);
+        }
         let w = self.cached_width.saturating_sub(1) as usize; // one column for the scroll bar
         let cached = super::convert_coloured_str(&value, w, theme);
         self.items.push_back(Output { cached, value });
@@ -49,6 +58,7 @@ impl Outputs {
     pub fn update_width(&mut self, width: u16, theme: u8) {
         self.scroll = 0;
         self.cached_width = width;
+        self.cached_theme = theme;
         let w = width.saturating_sub(1) as usize; // one column for the scroll bar
         for item in &mut self.items {
             item.cached = super::convert_coloured_str(&item.value, w, theme);
-- 
2.43.0


From 261e4017f40b1501d96626faa27b1a1c5e4dc567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:15 +0000
Subject: [PATCH 29/36] fix: a panicking evaluation left the shell waiting for
 ever

---
 ogma-shell/interface/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 92dc88f..f5d8b48 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -709,6 +709,7 @@ where
             .builder()
             .name("ogma-shell-compute-thread".to_string())
             .spawn(|_| {
+                let donetx = donetx; // dropped, ending the wait, should `f` panic
                 let r = f(input, tabid, cancelsw.clone());
                 donetx.send(()).ok();
                 r
-- 
2.43.0


From 915ae5b747f572fab8a942a152a708a5d8d4eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:23 +0000
Subject: [PATCH 30/36] fix: a file with an expression starting with `def`
 (such as `default`) was refused

---
 ogma/src/lang/syntax/parse/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index 2fb3df4..b52c3e3 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -180,7 +180,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
             (!doc_.is_empty()).then_some(doc_)
         };
 
-        if code.starts_with("def-ty") {
+        if code.starts_with("def-ty ") {
             let (_, name) = defty_name(&line)(code)
                 .map_err(|e| convert_parse_error(e, &line.line, loc.clone()).0)?;
             types.push((
@@ -191,7 +191,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
                     line: line_num(code),
                 },
             ));
-        } else if code.starts_with("def") {
+        } else if code.starts_with("def ") {
             let (_, name) = def_op(&line)(code)
                 .map_err(|e| convert_parse_error(e, &line.line, loc.clone()).0)?;
             impls.push((
-- 
2.43.0


From 2a246f57025f84e7e4dfd54382bad9dad819dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:23 +0000
Subject: [PATCH 31/36] fix: comments standing alone in a file became an empty
 expression that failed

---
 ogma/src/lang/syntax/parse/file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index b52c3e3..2a14319 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -180,6 +180,10 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
             (!doc_.is_empty()).then_some(doc_)
         };
 
+        if code.is_empty() {
+            continue; // only comments
+        }
+
         if code.starts_with("def-ty ") {
             let (_, name) = defty_name(&line)(code)
                 .map_err(|e| convert_parse_error(e, &line.line, loc.clone()).0)?;
-- 
2.43.0


From f4d6b6ea9c838bb828e4515f5381437f7871f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:23 +0000
Subject: [PATCH 32/36] fix: the comment of a file's first item was lost when
 the blank line before it has spaces or a carriage return

---
 ogma/src/lang/syntax/parse/file.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index 2a14319..2172d32 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -150,7 +150,12 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
         }
     };
 
-    let mut mv_doc = directives.is_empty() && !text.starts_with("\n\n");
+    // the comment belongs to the first item if that follows on the next line
+    let mut mv_doc = directives.is_empty()
+        && text
+            .lines()
+            .nth(1)
+            .map_or(false, |line| !line.trim().is_empty());
 
     let items = split_items(text);
 
-- 
2.43.0


From d02e7a09267a4e411ffba57a8f978c52c24aac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:16 +0000
Subject: [PATCH 33/36] fix: a file with items beyond line 65535 panicked

---
 ogma/src/lang/syntax/parse/file.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index 2172d32..5c8405e 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -171,7 +171,11 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
                 .count()
                 + 1,
         )
-        .expect("file must have less than 16 bit line numbers")
+        .map_err(|_| err::Error {
+            cat: err::Category::Parsing,
+            desc: "items must be within the first 65535 lines of a file".to_string(),
+            ..Default::default()
+        })
     };
 
     for item in items {
@@ -197,7 +201,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
                 Item {
                     doc,
                     code: code.to_owned(),
-                    line: line_num(code),
+                    line: line_num(code)?,
                 },
             ));
         } else if code.starts_with("def ") {
@@ -208,14 +212,14 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
                 Item {
                     doc,
                     code: code.to_owned(),
-                    line: line_num(code),
+                    line: line_num(code)?,
                 },
             ));
         } else {
             exprs.push(Item {
                 doc,
                 code: code.to_owned(),
-                line: line_num(code),
+                line: line_num(code)?,
             });
         }
     }
-- 
2.43.0


From 2a00e69084a6c6b984a88df7af2a36facdc3f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 34/36] fix: completion at a path ended the language server

---
 ogma-ls/completion.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ogma-ls/completion.rs b/ogma-ls/completion.rs
index 4d635ab..2a714ed 100644
--- a/ogma-ls/completion.rs
+++ b/ogma-ls/completion.rs
@@ -93,8 +93,7 @@ fn incomplete_completions(
             Items::IMPLS | Items::PATHS | Items::SPEC_LIT,
         )),
         Exp::SPECLITERAL => Some(cmpls(wsp, line, working_dir, Items::SPEC_LIT)),
-        Exp::NONE => None,
-        _ => todo!(),
+        _ => None,
     }
 }
 
-- 
2.43.0


From 25808bcfd6b06420a91cb3c6c7838d9ff1ed88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 35/36] fix: completion after a space took the whole line as
 the path

---
 ogma-ls/completion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-ls/completion.rs b/ogma-ls/completion.rs
index 2a714ed..ec60893 100644
--- a/ogma-ls/completion.rs
+++ b/ogma-ls/completion.rs
@@ -166,7 +166,7 @@ fn path_component(line: &str) -> &str {
     }
 
     if mat_ch.is_none() {
-        i = 0;
+        i = line.len();
         for (idx, ch) in line.char_indices().rev() {
             if ch == ' ' {
                 break;
-- 
2.43.0


From dc30a7cba400e7581eadefaca5e881c7ced92930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 36/36] fix: a path in place of a command panicked instead of
 being refused

---
 ogma/src/eng/graphs/astgraph.rs | 5 ++---
 ogma/src/lang/syntax/ast.rs     | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ogma/src/eng/graphs/astgraph.rs b/ogma/src/eng/graphs/astgraph.rs
index 3ba01ae..cce06fb 100644
--- a/ogma/src/eng/graphs/astgraph.rs
+++ b/ogma/src/eng/graphs/astgraph.rs
@@ -182,9 +182,8 @@ impl AstGraph {
 
                 let op = match op.is_op() {
                     Some(t) => t.clone(),
-                    None => {
-                        todo!("paths are not supported yet")
-                    }
+                    // paths are not supported yet, nothing is defined by the name of one
+                    None => op.tag().into_owned(),
                 };
 
                 let op = g.add_node(AstNode::Op { op, blk: blk_tag });
diff --git a/ogma/src/lang/syntax/ast.rs b/ogma/src/lang/syntax/ast.rs
index 574332f..6482a46 100644
--- a/ogma/src/lang/syntax/ast.rs
+++ b/ogma/src/lang/syntax/ast.rs
@@ -271,7 +271,8 @@ impl IBlock for PrefixBlock {
     fn op(&self) -> CTag {
         match self.op.is_op() {
             Some(x) => Cow::Borrowed(x),
-            None => panic!("partitions are not yet supported"),
+            // partitions are not yet supported, nothing is defined by the name of a path
+            None => self.op.tag(),
         }
     }
 
-- 
2.43.0

