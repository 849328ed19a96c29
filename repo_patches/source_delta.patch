From e716e608728a71cb9c6ec6e6af64594dcceba9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:27 +0000
Subject: [PATCH 01/32] fix: restore the exact original bytes of a file after
 testing a mutant

Files with CRLF line endings were rewritten with LF by --in-place.
---
 src/build_dir.rs | 12 +++++++++---
 src/lab.rs       |  8 ++++++--
 src/mutant.rs    | 13 +++++++------
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/build_dir.rs b/src/build_dir.rs
index 2df19e9..ed2ba91 100644
--- a/src/build_dir.rs
+++ b/src/build_dir.rs
@@ -4,7 +4,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::fs::write;
+use std::fs::{read, write};
 
 use anyhow::{ensure, Context};
 use camino::{Utf8Path, Utf8PathBuf};
@@ -90,11 +90,17 @@ impl BuildDir {
         self.path.as_path()
     }
 
-    pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &str) -> Result<()> {
+    /// Read the current content of a file in the build dir.
+    pub fn read_file(&self, relative_path: &Utf8Path) -> Result<Vec<u8>> {
+        let full_path = self.path.join(relative_path);
+        read(&full_path).with_context(|| format!("failed to read {full_path:?}"))
+    }
+
+    pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &[u8]) -> Result<()> {
         let full_path = self.path.join(relative_path);
         // for safety, don't follow symlinks
         ensure!(full_path.is_file(), "{full_path:?} is not a file");
-        write(&full_path, code.as_bytes())
+        write(&full_path, code)
             .with_context(|| format!("failed to write code to {full_path:?}"))
     }
 }
diff --git a/src/lab.rs b/src/lab.rs
index 793ce02..4f74471 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -266,7 +266,11 @@ impl Worker<'_> {
             .scenario_started(dir, scenario, scenario_output.open_log_read()?);
         debug!(?test_packages);
 
+        // The exact original content of the file, to be restored later: this can differ from the
+        // code in memory, which has normalized line endings.
+        let mut original = Vec::new();
         if let Some(mutant) = scenario.mutant() {
+            original = self.build_dir.read_file(mutant.source_file.path())?;
             let mutated_code = mutant.mutated_code();
             let diff = scenario.mutant().unwrap().diff(&mutated_code);
             scenario_output.write_diff(&diff)?;
@@ -302,14 +306,14 @@ impl Worker<'_> {
                     error!(?err, ?phase, "scenario execution internal error");
                     // Some unexpected internal error that stops the program.
                     if let Some(mutant) = scenario.mutant() {
-                        mutant.revert(self.build_dir)?;
+                        mutant.revert(self.build_dir, &original)?;
                     }
                     return Err(err);
                 }
             }
         }
         if let Some(mutant) = scenario.mutant() {
-            mutant.revert(self.build_dir)?;
+            mutant.revert(self.build_dir, &original)?;
         }
         self.output_mutex
             .lock()
diff --git a/src/mutant.rs b/src/mutant.rs
index 3c6486a..051cdf4 100644
--- a/src/mutant.rs
+++ b/src/mutant.rs
@@ -204,17 +204,18 @@ impl Mutant {
     /// Apply this mutant to the relevant file within a `BuildDir`.
     pub fn apply(&self, build_dir: &BuildDir, mutated_code: &str) -> Result<()> {
         trace!(?self, "Apply mutant");
-        build_dir.overwrite_file(&self.source_file.tree_relative_path, mutated_code)
-    }
-
-    pub fn revert(&self, build_dir: &BuildDir) -> Result<()> {
-        trace!(?self, "Revert mutant");
         build_dir.overwrite_file(
             &self.source_file.tree_relative_path,
-            self.source_file.code(),
+            mutated_code.as_bytes(),
         )
     }
 
+    /// Put back the original content of the file, exactly as it was before the mutant was applied.
+    pub fn revert(&self, build_dir: &BuildDir, original: &[u8]) -> Result<()> {
+        trace!(?self, "Revert mutant");
+        build_dir.overwrite_file(&self.source_file.tree_relative_path, original)
+    }
+
     /// Return a string describing this mutant that's suitable for building a log file name,
     /// but can contain slashes.
     pub fn log_file_name_base(&self) -> String {
-- 
2.43.0


From 0f4755c3d0ac9fa6e8fbeb745ce002a5a0c51b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:29 +0000
Subject: [PATCH 02/32] fix: restore the source file if applying a mutant fails
 part way

With --in-place a failed write (for example on a full disk) left the user's file truncated.
---
 src/lab.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lab.rs b/src/lab.rs
index 4f74471..bf1c939 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -274,7 +274,11 @@ impl Worker<'_> {
             let mutated_code = mutant.mutated_code();
             let diff = scenario.mutant().unwrap().diff(&mutated_code);
             scenario_output.write_diff(&diff)?;
-            mutant.apply(self.build_dir, &mutated_code)?;
+            if let Err(err) = mutant.apply(self.build_dir, &mutated_code) {
+                // The file might be truncated or partly written: put it back.
+                mutant.revert(self.build_dir, &original)?;
+                return Err(err);
+            }
         }
 
         let mut outcome = ScenarioOutcome::new(&scenario_output, scenario.clone());
-- 
2.43.0


From d5c42b059ded2a630a2ae3f11ed6bec9d5f97c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:19 +0000
Subject: [PATCH 03/32] fix: never write through symlinks leading out of a
 scratch copy

An absolute symlink in the source tree made the default copying mode mutate the original
source file, or permanently rewrite the original Cargo.toml or .cargo/config.toml.
---
 src/build_dir.rs | 35 ++++++++++++++++++++++++++++++-----
 src/manifest.rs  |  5 +++++
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/build_dir.rs b/src/build_dir.rs
index ed2ba91..a559a8b 100644
--- a/src/build_dir.rs
+++ b/src/build_dir.rs
@@ -4,7 +4,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::fs::{read, write};
+use std::fs::{read, remove_file, write};
 
 use anyhow::{ensure, Context};
 use camino::{Utf8Path, Utf8PathBuf};
@@ -32,6 +32,8 @@ pub struct BuildDir {
     /// object is dropped. If None, there's nothing to clean up.
     #[allow(dead_code)]
     temp_dir: Option<TempDir>,
+    /// True if this is a copy of the source, rather than the source directory itself.
+    is_copy: bool,
 }
 
 impl BuildDir {
@@ -72,7 +74,11 @@ impl BuildDir {
         } else {
             Some(temp_dir)
         };
-        let build_dir = BuildDir { path, temp_dir };
+        let build_dir = BuildDir {
+            path,
+            temp_dir,
+            is_copy: true,
+        };
         Ok(build_dir)
     }
 
@@ -80,6 +86,7 @@ impl BuildDir {
     pub fn in_place(source_path: &Utf8Path) -> Result<BuildDir> {
         Ok(BuildDir {
             temp_dir: None,
+            is_copy: false,
             path: source_path
                 .canonicalize_utf8()
                 .context("canonicalize source path")?,
@@ -98,11 +105,29 @@ impl BuildDir {
 
     pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &[u8]) -> Result<()> {
         let full_path = self.path.join(relative_path);
-        // for safety, don't follow symlinks
         ensure!(full_path.is_file(), "{full_path:?} is not a file");
-        write(&full_path, code)
-            .with_context(|| format!("failed to write code to {full_path:?}"))
+        if self.is_copy {
+            detach_outward_symlink(&self.path, &full_path)?;
+        }
+        write(&full_path, code).with_context(|| format!("failed to write code to {full_path:?}"))
+    }
+}
+
+/// For safety, don't write through symlinks that lead out of a copied tree, perhaps back
+/// into the original source.
+///
+/// A symlink to a file is removed, so that a separate file can be written in its place.
+pub fn detach_outward_symlink(copy_root: &Utf8Path, full_path: &Utf8Path) -> Result<()> {
+    let copy_root = copy_root.canonicalize_utf8()?;
+    if !full_path.canonicalize_utf8()?.starts_with(&copy_root) {
+        let parent = full_path.parent().expect("file has a parent directory");
+        ensure!(
+            parent.canonicalize_utf8()?.starts_with(&copy_root),
+            "{full_path:?} is outside of the build directory, through a symlink"
+        );
+        remove_file(full_path).with_context(|| format!("remove symlink {full_path:?}"))?;
     }
+    Ok(())
 }
 
 #[cfg(test)]
diff --git a/src/manifest.rs b/src/manifest.rs
index 5089420..46a91bd 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -11,6 +11,7 @@ use anyhow::Context;
 use camino::Utf8Path;
 use tracing::debug;
 
+use crate::build_dir::detach_outward_symlink;
 use crate::path::ascent;
 use crate::Result;
 
@@ -26,6 +27,9 @@ pub fn fix_manifest(manifest_scratch_path: &Utf8Path, source_dir: &Utf8Path) ->
     if let Some(changed_toml) = fix_manifest_toml(&toml_str, source_dir)? {
         let toml_str =
             toml::to_string_pretty(&changed_toml).context("serialize changed manifest")?;
+        if let Some(build_path) = manifest_scratch_path.parent() {
+            detach_outward_symlink(build_path, manifest_scratch_path)?;
+        }
         write(manifest_scratch_path, toml_str.as_bytes()).with_context(|| {
             format!("Failed to write fixed manifest to {manifest_scratch_path}")
         })?;
@@ -108,6 +112,7 @@ pub fn fix_cargo_config(build_path: &Utf8Path, source_path: &Utf8Path) -> Result
     if config_path.exists() {
         let toml_str = read_to_string(&config_path).context("read .cargo/config.toml")?;
         if let Some(changed_toml) = fix_cargo_config_toml(&toml_str, source_path)? {
+            detach_outward_symlink(build_path, &config_path)?;
             write(build_path.join(&config_path), changed_toml.as_bytes())
                 .context("write .cargo/config.toml")?;
         }
-- 
2.43.0


From dd538c4d0c97481d7eb0a090974bb8c249ec7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:35 +0000
Subject: [PATCH 04/32] fix: rewrite relative paths of dev, build,
 target-specific and workspace dependencies

Only [dependencies], [replace] and [patch] were rewritten in scratch copies, so trees with other
kinds of path dependencies outside the tree failed to build.
---
 src/manifest.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 46a91bd..7498cfe 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -47,8 +47,22 @@ fn fix_manifest_toml(
     let mut value: toml::Value = manifest_toml.parse().context("parse manifest")?;
     let orig_value = value.clone();
     if let Some(top_table) = value.as_table_mut() {
-        if let Some(dependencies) = top_table.get_mut("dependencies") {
-            fix_dependency_table(dependencies, manifest_source_dir);
+        fix_dependency_sections(top_table, manifest_source_dir);
+        // Platform-specific dependencies, in a table keyed by target triple or cfg expression.
+        // <https://doc.rust-lang.org/cargo/reference/specifying-dependencies.html#platform-specific-dependencies>
+        if let Some(targets) = top_table.get_mut("target").and_then(|t| t.as_table_mut()) {
+            for (_name, target) in targets {
+                if let Some(target_table) = target.as_table_mut() {
+                    fix_dependency_sections(target_table, manifest_source_dir);
+                }
+            }
+        }
+        // Dependencies inherited by workspace members.
+        if let Some(workspace) = top_table
+            .get_mut("workspace")
+            .and_then(|w| w.as_table_mut())
+        {
+            fix_dependency_sections(workspace, manifest_source_dir);
         }
         if let Some(replace) = top_table.get_mut("replace") {
             // The replace section is a table from package name/version to a
@@ -73,6 +87,24 @@ fn fix_manifest_toml(
     }
 }
 
+/// Fix up paths in all the kinds of dependency sections within one table.
+fn fix_dependency_sections(
+    table: &mut toml::map::Map<String, toml::Value>,
+    manifest_source_dir: &Utf8Path,
+) {
+    for section in [
+        "dependencies",
+        "dev-dependencies",
+        "dev_dependencies",
+        "build-dependencies",
+        "build_dependencies",
+    ] {
+        if let Some(dependencies) = table.get_mut(section) {
+            fix_dependency_table(dependencies, manifest_source_dir);
+        }
+    }
+}
+
 /// Fix up paths in a manifest "dependency table".
 ///
 /// This is a pattern that can occur at various places in the manifest. It's a
-- 
2.43.0


From a9443a47256b12612917eb3aa49c6e41e7591fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 05/32] fix: count a bare carriage return as a column when
 applying a mutation

Otherwise every mutation after it on the same line was applied at the wrong position.
---
 src/span.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 6f12fe0..40083f2 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -71,7 +71,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if ((line_no == start.line && col_no >= start.column) || line_no > start.line)
                 && (line_no < end.line || (line_no == end.line && col_no < end.column))
             {
@@ -83,7 +84,7 @@ impl Span {
                     break;
                 }
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
@@ -105,7 +106,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if line_no == start.line && col_no == start.column {
                 r.push_str(replacement);
             }
@@ -119,7 +121,7 @@ impl Span {
             if c == '\n' {
                 line_no += 1;
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
-- 
2.43.0


From ccf15335263ca9084e559cfc9937a9dacdd25ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:16 +0000
Subject: [PATCH 06/32] fix: accept source files that start with a shebang line

---
 src/visit.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 174ccc5..cbcedc8 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -138,8 +138,13 @@ fn walk_file(
 ) -> Result<(Vec<Mutant>, Vec<ExternalModRef>)> {
     let _span = debug_span!("source_file", path = source_file.tree_relative_slashes()).entered();
     debug!("visit source file");
-    let syn_file = syn::parse_str::<syn::File>(source_file.code())
-        .with_context(|| format!("failed to parse {}", source_file.tree_relative_slashes()))?;
+    let code = source_file.code();
+    let syn_file = if code.starts_with("#!") {
+        syn::parse_file(code) // Might have a shebang line, which `parse_str` does not accept
+    } else {
+        syn::parse_str::<syn::File>(code)
+    }
+    .with_context(|| format!("failed to parse {}", source_file.tree_relative_slashes()))?;
     let mut visitor = DiscoveryVisitor {
         error_exprs,
         external_mods: Vec::new(),
-- 
2.43.0


From 14bd5b8dcfd5715a2163b922eb22b4b499e9520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:43 +0000
Subject: [PATCH 07/32] fix: replace outcomes.json atomically

It was truncated and rewritten in place after each mutant, so stopping the program at that point,
or reading the file from outside, could lose all the outcomes recorded so far.
---
 src/output.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 8caae46..e4b2f5a 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -202,11 +202,12 @@ impl OutputDir {
     ///
     /// Called multiple times as the lab runs.
     fn write_lab_outcome(&self) -> Result<()> {
-        serde_json::to_writer_pretty(
-            BufWriter::new(File::create(self.path.join("outcomes.json"))?),
-            &self.lab_outcome,
-        )
-        .context("write outcomes.json")
+        // Write it to one side and then move it into place, so that previously recorded outcomes
+        // can't be lost, or seen half-written, if the program is stopped while writing.
+        let json = serde_json::to_vec_pretty(&self.lab_outcome).context("serialize outcomes")?;
+        let temp_path = self.path.join("outcomes.json.tmp");
+        write(&temp_path, json).context("write outcomes.json")?;
+        rename(&temp_path, self.path.join("outcomes.json")).context("replace outcomes.json")
     }
 
     /// Add the result of testing one scenario.
-- 
2.43.0


From 558144b10259c721f5a3034ae3b7eb4518666be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:35 +0000
Subject: [PATCH 08/32] fix: kill a child process that does not exit when
 terminated

A child that ignores SIGTERM used to block the run for ever after a
timeout or an interrupt. Send SIGKILL to its process group if it has not
exited 5 seconds after being terminated.
---
 src/process.rs         | 15 +++++++++++++--
 src/process/unix.rs    | 12 ++++++++++++
 src/process/windows.rs |  5 +++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 439c1f6..b78b457 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -26,15 +26,18 @@ use crate::Result;
 /// How frequently to check if a subprocess finished.
 const WAIT_POLL_INTERVAL: Duration = Duration::from_millis(50);
 
+/// How long to wait for a terminated subprocess to exit before killing it.
+const TERMINATE_GRACE: Duration = Duration::from_secs(5);
+
 #[cfg(windows)]
 mod windows;
 #[cfg(windows)]
-use windows::{configure_command, terminate_child};
+use windows::{configure_command, kill_child, terminate_child};
 
 #[cfg(unix)]
 mod unix;
 #[cfg(unix)]
-use unix::{configure_command, terminate_child};
+use unix::{configure_command, kill_child, terminate_child};
 
 pub struct Process {
     child: Child,
@@ -130,6 +133,14 @@ impl Process {
         let _span = span!(Level::DEBUG, "terminate_child", pid = self.child.id()).entered();
         debug!("terminating child process");
         terminate_child(&mut self.child)?;
+        let terminated = Instant::now();
+        while terminated.elapsed() < TERMINATE_GRACE && matches!(self.child.try_wait(), Ok(None)) {
+            sleep(WAIT_POLL_INTERVAL);
+        }
+        if matches!(self.child.try_wait(), Ok(None)) {
+            debug!("child did not terminate, killing it");
+            kill_child(&mut self.child)?;
+        }
         trace!("wait for child after termination");
         match self.child.wait() {
             Err(err) => debug!(?err, "Failed to wait for child after termination"),
diff --git a/src/process/unix.rs b/src/process/unix.rs
index d5f52aa..89f3eb5 100644
--- a/src/process/unix.rs
+++ b/src/process/unix.rs
@@ -32,6 +32,18 @@ pub(super) fn terminate_child(child: &mut Child) -> Result<()> {
     }
 }
 
+/// Kill the process group of a child that did not exit when asked to terminate.
+#[mutants::skip] // only needed for children that ignore SIGTERM
+pub(super) fn kill_child(child: &mut Child) -> Result<()> {
+    match killpg(
+        Pid::from_raw(child.id().try_into().unwrap()),
+        Signal::SIGKILL,
+    ) {
+        Ok(()) | Err(Errno::ESRCH) => Ok(()),
+        Err(errno) => bail!("failed to kill child: error {errno}"),
+    }
+}
+
 #[mutants::skip]
 pub(super) fn configure_command(command: &mut Command) {
     command.process_group(0);
diff --git a/src/process/windows.rs b/src/process/windows.rs
index c37950f..6ea620f 100644
--- a/src/process/windows.rs
+++ b/src/process/windows.rs
@@ -11,6 +11,11 @@ pub(super) fn terminate_child(child: &mut Child) -> Result<()> {
     child.kill().context("Kill child")
 }
 
+#[mutants::skip]
+pub(super) fn kill_child(child: &mut Child) -> Result<()> {
+    child.kill().context("Kill child")
+}
+
 #[mutants::skip]
 pub(super) fn configure_command(_command: &mut Command) {}
 
-- 
2.43.0


From d48c1086a28f5b92ef04ab2d9355f8f4b83601b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:16 +0000
Subject: [PATCH 09/32] fix: serialize waiting for and rotating the output
 directory

The lock on the old mutants.out was released before the directory was
moved, so two or more runs waiting for the same directory could rotate
each other's live output.
---
 src/output.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index e4b2f5a..832253e 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -84,6 +84,25 @@ impl LockFile {
     }
 }
 
+/// Block until acquiring a file lock on the directory that will hold the output directory,
+/// if the platform allows locking directories.
+///
+/// Return the `File` whose lifetime controls the file lock.
+fn lock_parent_dir(in_dir: &Path) -> Result<Option<File>> {
+    let Ok(dir) = File::open(in_dir) else {
+        return Ok(None);
+    };
+    let contended = fs2::lock_contended_error().kind();
+    while let Err(err) = dir.try_lock_exclusive() {
+        if err.kind() != contended {
+            return Ok(None);
+        }
+        check_interrupted()?;
+        sleep(LOCK_POLL);
+    }
+    Ok(Some(dir))
+}
+
 /// A `mutants.out` directory holding logs and other output information.
 #[derive(Debug)]
 #[allow(clippy::module_name_repetitions)]
@@ -122,6 +141,9 @@ impl OutputDir {
             create_dir(in_dir)
                 .with_context(|| format!("create output parent directory {in_dir:?}"))?;
         }
+        // Only one process at a time may wait for, rotate, and recreate the output directory:
+        // otherwise, several waiting processes could all rotate it at the same time.
+        let _parent_lock = lock_parent_dir(in_dir.as_std_path())?;
         let output_dir = in_dir.join(OUTDIR_NAME);
         if output_dir.exists() {
             LockFile::acquire_lock(output_dir.as_ref())?;
-- 
2.43.0


From bf3b03fb430096ae71feb09149c02b11973b8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:48 +0000
Subject: [PATCH 10/32] fix: don't panic showing a log that is not UTF-8

When the baseline failed, or with --all-logs, the program panicked rather
than reporting the outcome if cargo or the tests had printed bytes that
are not valid UTF-8.
---
 src/outcome.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/outcome.rs b/src/outcome.rs
index 2d83ab4..9d4a8e3 100644
--- a/src/outcome.rs
+++ b/src/outcome.rs
@@ -3,7 +3,7 @@
 //! The outcome of running a single mutation scenario, or a whole lab.
 
 use std::fmt;
-use std::fs::read_to_string;
+use std::fs::read;
 use std::time::{Duration, Instant};
 
 use anyhow::Context;
@@ -190,7 +190,9 @@ impl ScenarioOutcome {
     }
 
     pub fn get_log_content(&self) -> Result<String> {
-        read_to_string(self.output_dir.join(&self.log_path)).context("read log file")
+        // Tests might print anything, including text that's not valid UTF-8.
+        let content = read(self.output_dir.join(&self.log_path)).context("read log file")?;
+        Ok(String::from_utf8_lossy(&content).into_owned())
     }
 
     pub fn last_phase(&self) -> Phase {
-- 
2.43.0


From dac8a1ef0e6d8f1ffadcb9aeef34bb7589ab4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:02 +0000
Subject: [PATCH 11/32] fix: parse diffs by the line counts of their hunks

Diffs ending in a section with no hunks (a binary file, rename or mode
change) made the patch parser panic, changed lines after a 'No newline at
end of file' note were dropped or made it panic, and hunk lines starting
with '++ ' or '-- ' were not understood. Malformed hunks could panic.
---
 src/in_diff.rs | 131 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 127 insertions(+), 4 deletions(-)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 2b103af..9c35d6f 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -3,14 +3,15 @@
 //! Filter mutants to those intersecting a diff on the file tree,
 //! for example from uncommitted or unmerged changes.
 
+use std::borrow::Cow;
 use std::collections::HashMap;
 use std::iter::once;
 
-use anyhow::{anyhow, bail};
+use anyhow::{anyhow, bail, ensure};
 use camino::Utf8Path;
 use indoc::formatdoc;
 use itertools::Itertools;
-use patch::{Line, Patch};
+use patch::{File, Hunk, Line, Patch, Range};
 use tracing::{info, trace, warn};
 
 use crate::mutant::Mutant;
@@ -33,8 +34,7 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
         return Ok(Vec::new());
     }
 
-    let patches =
-        Patch::from_multiple(&fixed_diff).map_err(|err| anyhow!("Failed to parse diff: {err}"))?;
+    let patches = parse_diff(&fixed_diff)?;
     check_diff_new_text_matches(&patches, &mutants)?;
     let mut lines_changed_by_path: HashMap<&Utf8Path, Vec<usize>> = HashMap::new();
     for patch in &patches {
@@ -78,6 +78,129 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
     Ok(matched)
 }
 
+/// Parse a diff of some number of files.
+///
+/// This goes by the line counts in the hunk headers, rather than using the parser in the
+/// `patch` crate, so that lines within hunks can have any content, and so that it accepts
+/// sections with no hunks (renames, mode changes, and binary files) and notes about missing
+/// newlines at the end of files.
+fn parse_diff(diff_text: &str) -> Result<Vec<Patch<'_>>> {
+    let lines = diff_text.lines().collect_vec();
+    let mut patches: Vec<Patch> = Vec::new();
+    let mut is_diff = false;
+    let mut i = 0;
+    while i < lines.len() {
+        let line = lines[i];
+        let next = lines.get(i + 1).copied().unwrap_or_default();
+        if let (Some(old), Some(new)) = (line.strip_prefix("--- "), next.strip_prefix("+++ ")) {
+            patches.push(Patch {
+                old: parse_filename(old),
+                new: parse_filename(new),
+                hunks: Vec::new(),
+                end_newline: true,
+            });
+            i += 2;
+        } else if let (true, Some(patch)) = (line.starts_with("@@ -"), patches.last_mut()) {
+            let (hunk, n_lines) = parse_hunk(&lines[i..])
+                .ok_or_else(|| anyhow!("Failed to parse diff: bad hunk at line {}", i + 1))?;
+            if let Some(last) = patch.hunks.last() {
+                ensure!(
+                    hunk.new_range.start >= last.new_range.start + last.new_range.count,
+                    "Failed to parse diff: hunk out of order at line {}",
+                    i + 1
+                );
+            }
+            patch.hunks.push(hunk);
+            i += n_lines;
+        } else {
+            is_diff |= line.starts_with("diff ");
+            i += 1;
+        }
+    }
+    if patches.is_empty() && !is_diff {
+        bail!("Failed to parse diff: Line 1: Error while parsing: {diff_text}");
+    }
+    patches.retain(|patch| !patch.hunks.is_empty());
+    Ok(patches)
+}
+
+/// Parse one hunk from the start of some lines, and also return the number of lines it occupies.
+fn parse_hunk<'d>(lines: &[&'d str]) -> Option<(Hunk<'d>, usize)> {
+    let (ranges, range_hint) = lines[0].strip_prefix("@@ -")?.split_once(" @@")?;
+    let (old_range, new_range) = ranges.split_once(" +")?;
+    let (old_range, new_range) = (parse_range(old_range)?, parse_range(new_range)?);
+    let (mut old_left, mut new_left) = (old_range.count, new_range.count);
+    let mut hunk_lines = Vec::new();
+    let mut n = 1;
+    while old_left > 0 || new_left > 0 {
+        let line = lines.get(n)?;
+        n += 1;
+        if let Some(text) = line.strip_prefix('+') {
+            new_left = new_left.checked_sub(1)?;
+            hunk_lines.push(Line::Add(text));
+        } else if let Some(text) = line.strip_prefix('-') {
+            old_left = old_left.checked_sub(1)?;
+            hunk_lines.push(Line::Remove(text));
+        } else if line.is_empty() || line.starts_with(' ') {
+            old_left = old_left.checked_sub(1)?;
+            new_left = new_left.checked_sub(1)?;
+            hunk_lines.push(Line::Context(line.strip_prefix(' ').unwrap_or(line)));
+        } else if !line.starts_with('\\') {
+            return None;
+        }
+    }
+    Some((
+        Hunk {
+            old_range,
+            new_range,
+            range_hint,
+            lines: hunk_lines,
+        },
+        n,
+    ))
+}
+
+/// Parse a range like `10,3`.
+fn parse_range(range: &str) -> Option<Range> {
+    let (start, count) = range.split_once(',').unwrap_or((range, "1"));
+    let (start, count): (u64, u64) = (start.parse().ok()?, count.parse().ok()?);
+    start.checked_add(count)?;
+    (start > 0 || count == 0).then_some(Range { start, count })
+}
+
+/// Parse a filename, possibly quoted or followed by a timestamp, from a diff header.
+fn parse_filename(text: &str) -> File<'_> {
+    let path = if let Some(quoted) = text.strip_prefix('"') {
+        let mut name = Vec::new();
+        let mut bytes = quoted.bytes();
+        while let Some(b) = bytes.next().filter(|b| *b != b'"') {
+            if b != b'\\' {
+                name.push(b);
+                continue;
+            }
+            name.push(match bytes.next() {
+                Some(b'a') => 7,
+                Some(b'b') => 8,
+                Some(b't') => b'\t',
+                Some(b'n') => b'\n',
+                Some(b'v') => 11,
+                Some(b'f') => 12,
+                Some(b'r') => b'\r',
+                Some(d @ b'0'..=b'7') => bytes
+                    .by_ref()
+                    .take(2)
+                    .fold(d - b'0', |v, d| (v << 3) | (d & 7)),
+                Some(b) => b,
+                None => break,
+            });
+        }
+        Cow::Owned(String::from_utf8_lossy(&name).into_owned())
+    } else {
+        Cow::Borrowed(text.split_once('\t').map_or(text, |(name, _time)| name))
+    };
+    File { path, meta: None }
+}
+
 /// Error if the new text from the diffs doesn't match the source files.
 fn check_diff_new_text_matches(patches: &[Patch], mutants: &[Mutant]) -> Result<()> {
     let mut source_by_name: HashMap<&Utf8Path, &SourceFile> = HashMap::new();
-- 
2.43.0


From 03a563e3b6f66b6cda3f41ce15b2049855eb3054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:49 +0000
Subject: [PATCH 12/32] fix: select the right lines next to deletions in diffs
 without context

---
 src/in_diff.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 9c35d6f..9650b04 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -257,6 +257,12 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
     let mut affected_lines = Vec::new();
     for hunk in &patch.hunks {
         let mut lineno: usize = hunk.new_range.start.try_into().unwrap();
+        if hunk.new_range.count == 0 {
+            // There's no context and nothing but deletions. In this case the range starts at the
+            // line before them, or at 0 at the start of the file.
+            affected_lines.extend([lineno, lineno + 1].into_iter().filter(|l| *l > 0));
+            continue;
+        }
         // True if the previous line was deleted. If set, then the next line that exists in the
         // new file, if there is one, will be marked as affected.
         let mut prev_removed = false;
@@ -267,10 +273,6 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
                 }
                 Line::Add(_) | Line::Context(_) => {
                     if prev_removed {
-                        debug_assert!(
-                            affected_lines.last().map_or(true, |last| *last < lineno),
-                            "{lineno} {affected_lines:?}"
-                        );
                         debug_assert!(lineno >= 1, "{lineno}");
                         affected_lines.push(lineno);
                         prev_removed = false;
@@ -299,10 +301,9 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
             }
         }
     }
-    debug_assert!(
-        affected_lines.iter().tuple_windows().all(|(a, b)| a < b),
-        "remove_context: line numbers not sorted and unique: {affected_lines:?}"
-    );
+    // Lines affected by one hunk might also be adjacent to the next.
+    affected_lines.sort_unstable();
+    affected_lines.dedup();
     affected_lines
 }
 
-- 
2.43.0


From 6212a6256e547ce3b0cb4b2a35aeeefdaf62f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:20 +0000
Subject: [PATCH 13/32] fix: visit each source file of a package only once

A module used by more than one target had all its mutants generated, and
tested, several times; and a path attribute leading back to the same file
made the walk endless.
---
 src/visit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/visit.rs b/src/visit.rs
index cbcedc8..5b8dfcd 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -9,7 +9,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::sync::Arc;
 use std::vec;
 
@@ -92,7 +92,14 @@ fn walk_package(
     let mut files = Vec::new();
     let mut filename_queue =
         VecDeque::from_iter(package.top_sources.iter().map(|p| (p.to_owned(), true)));
+    let mut seen = HashSet::new();
     while let Some((path, package_top)) = filename_queue.pop_front() {
+        // The same file can be a module of several targets, but its mutants are the same.
+        let full_path = workspace_dir.join(&path);
+        if !seen.insert(full_path.canonicalize_utf8().unwrap_or(full_path)) {
+            debug!(?path, "source file already visited");
+            continue;
+        }
         let Some(source_file) = SourceFile::load(workspace_dir, &path, package, package_top)?
         else {
             info!("Skipping source file outside of tree: {path:?}");
-- 
2.43.0


From 9fc0c6e75cdfb887a55a1f7f756ac537bf87fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:30 +0000
Subject: [PATCH 14/32] fix: look for modules below path attributes where rustc
 does

---
 src/visit.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 5b8dfcd..3fb5c6d 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -122,7 +122,13 @@ fn walk_package(
         // `--list-files`.
         for mod_namespace in &external_mods {
             if let Some(mod_path) = find_mod_source(workspace_dir, &source_file, mod_namespace) {
-                filename_queue.push_back((mod_path, false));
+                // The children of a file found through a path attribute are in the same directory
+                // as it, like those of a target's top file.
+                let by_path_attribute = mod_namespace
+                    .parts
+                    .last()
+                    .is_some_and(|m| m.path_attribute.is_some());
+                filename_queue.push_back((mod_path, by_path_attribute));
             }
         }
         if !options.allows_source_file_path(&source_file.tree_relative_path) {
@@ -711,9 +717,9 @@ fn find_mod_source(
     let parent_path = &parent.tree_relative_path;
     let mut search_dir = if parent.is_top
         || parent_path.ends_with("mod.rs")
-        // NOTE: Path attribute on a top-level `mod foo;` (no enclosing block)
+        // NOTE: Path attribute on a top-level `mod foo;` or `mod foo { ... }` (no enclosing block)
         //       ignores the parent module path
-        || (mod_child.path_attribute.is_some() && mod_parents.is_empty())
+        || mod_namespace.parts[0].path_attribute.is_some()
     {
         parent_path
             .parent()
-- 
2.43.0


From 5f6db663102d5c149935a56efd1956d89a3caa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:31 +0000
Subject: [PATCH 15/32] fix: don't test mutants several times if --package is
 repeated

---
 src/workspace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workspace.rs b/src/workspace.rs
index 97872dc..304f5e3 100644
--- a/src/workspace.rs
+++ b/src/workspace.rs
@@ -117,6 +117,7 @@ impl Workspace {
             .iter()
             .map(AsRef::as_ref)
             .sorted()
+            .dedup()
             .filter_map(|name| {
                 if let Some(p) = self.packages.iter().find(|p| p.name == name) {
                     Some(Arc::clone(p))
-- 
2.43.0


From ca55914b839424781ac41cfea93b68f59fd1a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:08 +0000
Subject: [PATCH 16/32] fix: recognize mutants::skip in cfg_attr with any
 condition

---
 src/visit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 3fb5c6d..9489319 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -14,12 +14,14 @@ use std::sync::Arc;
 use std::vec;
 
 use camino::{Utf8Path, Utf8PathBuf};
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, TokenStream, TokenTree};
 use quote::{quote, ToTokens};
 use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::visit::Visit;
-use syn::{Attribute, BinOp, Block, Expr, ExprPath, File, ItemFn, ReturnType, Signature, UnOp};
+use syn::{
+    Attribute, BinOp, Block, Expr, ExprPath, File, ItemFn, ReturnType, Signature, Token, UnOp,
+};
 use tracing::{debug, debug_span, error, info, trace, trace_span, warn};
 
 use crate::console::WalkProgress;
@@ -837,6 +839,10 @@ fn attr_is_mutants_skip(attr: &Attribute) -> bool {
         if path_is(&meta.path, &["mutants", "skip"]) {
             skip = true;
         }
+        // Pass over the rest of conditions like `feature = "foo"` or `any(foo, bar)`.
+        while !meta.input.is_empty() && !meta.input.peek(Token![,]) {
+            meta.input.parse::<TokenTree>()?;
+        }
         Ok(())
     }) {
         debug!(
-- 
2.43.0


From 8d3a1fd9e53cdd2ab23c71be678fa896424ce56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:10 +0000
Subject: [PATCH 17/32] fix: don't mutate constants and types excluded by
 attributes

---
 src/visit.rs | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/visit.rs b/src/visit.rs
index 9489319..399b261 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -20,7 +20,7 @@ use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::visit::Visit;
 use syn::{
-    Attribute, BinOp, Block, Expr, ExprPath, File, ItemFn, ReturnType, Signature, Token, UnOp,
+    Attribute, BinOp, Block, Expr, ExprPath, File, Item, ItemFn, ReturnType, Signature, Token, UnOp,
 };
 use tracing::{debug, debug_span, error, info, trace, trace_span, warn};
 
@@ -405,6 +405,42 @@ impl<'ast> Visit<'ast> for DiscoveryVisitor<'_> {
         syn::visit::visit_file(self, i);
     }
 
+    /// Visit any item, excluding constants and types according to their attributes.
+    ///
+    /// Other items check their attributes when they're visited.
+    fn visit_item(&mut self, i: &'ast Item) {
+        let attrs = match i {
+            Item::Const(i) => &i.attrs[..],
+            Item::Enum(i) => &i.attrs,
+            Item::Static(i) => &i.attrs,
+            Item::Struct(i) => &i.attrs,
+            Item::Type(i) => &i.attrs,
+            Item::Union(i) => &i.attrs,
+            _ => &[],
+        };
+        if attrs_excluded(attrs) {
+            trace!("item excluded by attrs");
+            return;
+        }
+        syn::visit::visit_item(self, i);
+    }
+
+    /// Visit `const FOO: ...` within an `impl`.
+    fn visit_impl_item_const(&mut self, i: &'ast syn::ImplItemConst) {
+        if attrs_excluded(&i.attrs) {
+            return;
+        }
+        syn::visit::visit_impl_item_const(self, i);
+    }
+
+    /// Visit `const FOO: ...` within a trait.
+    fn visit_trait_item_const(&mut self, i: &'ast syn::TraitItemConst) {
+        if attrs_excluded(&i.attrs) {
+            return;
+        }
+        syn::visit::visit_trait_item_const(self, i);
+    }
+
     /// Visit top-level `fn foo()`.
     fn visit_item_fn(&mut self, i: &'ast ItemFn) {
         let function_name = i.sig.ident.to_pretty_string();
-- 
2.43.0


From 838ca98cea578505aee8cb9d2718f34bee867b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:42 +0000
Subject: [PATCH 18/32] fix: report invalid timeouts rather than panicking

---
 src/options.rs  | 22 ++++++++++++++++++----
 src/timeouts.rs |  8 +++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/options.rs b/src/options.rs
index 87821f4..dc1ed7a 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -15,6 +15,7 @@ use std::env;
 use std::ffi::OsString;
 use std::time::Duration;
 
+use anyhow::bail;
 use camino::{Utf8Path, Utf8PathBuf};
 use globset::GlobSet;
 use regex::RegexSet;
@@ -228,6 +229,11 @@ impl Colors {
     }
 }
 
+/// Convert a timeout in seconds, which can be any number, to a `Duration`.
+fn parse_timeout(secs: f64) -> Result<Duration> {
+    Duration::try_from_secs_f64(secs).with_context(|| format!("Invalid timeout: {secs}"))
+}
+
 impl Options {
     /// Build options by merging command-line args and config file.
     pub(crate) fn new(args: &Args, config: &Config) -> Result<Options> {
@@ -235,11 +241,11 @@ impl Options {
             warn!("--no-copy-target is deprecated and has no effect; target/ is never copied");
         }
 
-        let minimum_test_timeout = Duration::from_secs_f64(
+        let minimum_test_timeout = parse_timeout(
             args.minimum_test_timeout
                 .or(config.minimum_test_timeout)
                 .unwrap_or(20f64),
-        );
+        )?;
 
         // If either command line argument is set, it overrides the config.
         let test_package = if args.test_workspace == Some(true) {
@@ -282,7 +288,7 @@ impl Options {
                 &config.additional_cargo_test_args,
             ),
             baseline: args.baseline,
-            build_timeout: args.build_timeout.map(Duration::from_secs_f64),
+            build_timeout: args.build_timeout.map(parse_timeout).transpose()?,
             build_timeout_multiplier: args
                 .build_timeout_multiplier
                 .or(config.build_timeout_multiplier),
@@ -317,10 +323,18 @@ impl Options {
             show_all_logs: args.all_logs,
             skip_calls,
             test_package,
-            test_timeout: args.timeout.map(Duration::from_secs_f64),
+            test_timeout: args.timeout.map(parse_timeout).transpose()?,
             test_timeout_multiplier: args.timeout_multiplier.or(config.timeout_multiplier),
             test_tool: args.test_tool.or(config.test_tool).unwrap_or_default(),
         };
+        for multiplier in [
+            options.build_timeout_multiplier,
+            options.test_timeout_multiplier,
+        ] {
+            if multiplier.is_some_and(|m| !m.is_finite() || m.is_sign_negative()) {
+                bail!("Invalid timeout multiplier: {}", multiplier.unwrap());
+            }
+        }
         if let Some(jobs) = options.jobs {
             if jobs > 8 {
                 warn!("--jobs={jobs} is probably too high and may overload your machine: each job runs a separate `cargo` process, and cargo may internally start many threads and subprocesses; values <= 8 are usually safe");
diff --git a/src/timeouts.rs b/src/timeouts.rs
index 2d19144..b34191f 100644
--- a/src/timeouts.rs
+++ b/src/timeouts.rs
@@ -57,10 +57,11 @@ fn test_timeout(baseline_duration: Option<Duration>, options: &Options) -> Durat
     } else if let Some(baseline_duration) = baseline_duration {
         let timeout = max(
             options.minimum_test_timeout,
-            Duration::from_secs_f64(
+            Duration::try_from_secs_f64(
                 (baseline_duration.as_secs_f64() * options.test_timeout_multiplier.unwrap_or(5.0))
                     .ceil(),
-            ),
+            )
+            .unwrap_or(Duration::MAX),
         );
         if options.show_times {
             info!(
@@ -83,7 +84,8 @@ fn build_timeout(baseline_duration: Option<Duration>, options: &Options) -> Opti
         Some(t)
     } else if let Some(baseline) = baseline_duration {
         if let Some(multiplier) = options.build_timeout_multiplier {
-            let timeout = Duration::from_secs_f64(baseline.as_secs_f64() * multiplier);
+            let timeout = Duration::try_from_secs_f64(baseline.as_secs_f64() * multiplier)
+                .unwrap_or(Duration::MAX);
             if options.show_times {
                 info!(
                     "Auto-set build timeout to {}",
-- 
2.43.0


From 5e7df4cead7a522ef6ae7580b1ed4f5c0a7e9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:55 +0000
Subject: [PATCH 19/32] fix: generate one-element tuples, not parenthesized
 values

---
 src/fnvalue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fnvalue.rs b/src/fnvalue.rs
index 3e2d691..5b785e8 100644
--- a/src/fnvalue.rs
+++ b/src/fnvalue.rs
@@ -209,7 +209,9 @@ fn type_replacements(type_: &Type, error_exprs: &[Expr]) -> impl Iterator<Item =
                 .map(|elem| type_replacements(elem, error_exprs).collect_vec())
                 .multi_cartesian_product()
                 .map(|reps| {
-                    quote! { ( #( #reps ),* ) }
+                    // A tuple of one element needs a trailing comma.
+                    let comma = (reps.len() == 1).then_some(quote! { , });
+                    quote! { ( #( #reps ),* #comma ) }
                 })
                 .collect_vec()
         }
-- 
2.43.0


From a0381bc97a24b1cad1c04755f2693411fa3b6535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:52 +0000
Subject: [PATCH 20/32] fix: don't split lines at bare carriage returns in
 diffs

---
 src/mutant.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mutant.rs b/src/mutant.rs
index 051cdf4..a4dd663 100644
--- a/src/mutant.rs
+++ b/src/mutant.rs
@@ -194,7 +194,12 @@ impl Mutant {
         let old_label = self.source_file.tree_relative_slashes();
         // There shouldn't be any newlines, but just in case...
         let new_label = self.describe_change().replace('\n', " ");
-        TextDiff::from_lines(self.source_file.code(), mutated_code)
+        // Unlike `TextDiff::from_lines`, don't take a bare carriage return for the end of a line.
+        let old_lines: Vec<&str> = self.source_file.code().split_inclusive('\n').collect();
+        let new_lines: Vec<&str> = mutated_code.split_inclusive('\n').collect();
+        TextDiff::configure()
+            .newline_terminated(true)
+            .diff_slices(&old_lines, &new_lines)
             .unified_diff()
             .context_radius(8)
             .header(&old_label, &new_label)
-- 
2.43.0


From f5b8d3256ef37797333d404b3786c921e6311fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:37 +0000
Subject: [PATCH 21/32] fix: allow several runs to create the output parent
 directory at once

---
 src/output.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 832253e..cd56652 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -4,7 +4,7 @@
 
 use std::collections::{hash_map::Entry, HashMap};
 use std::fs::{create_dir, read_to_string, remove_dir_all, rename, write, File, OpenOptions};
-use std::io::{BufWriter, Write};
+use std::io::{BufWriter, ErrorKind, Write};
 use std::path::Path;
 use std::thread::sleep;
 use std::time::Duration;
@@ -138,8 +138,14 @@ impl OutputDir {
     /// the lock to be released. The returned `OutputDir` holds a lock for its lifetime.
     pub fn new(in_dir: &Utf8Path) -> Result<OutputDir> {
         if !in_dir.exists() {
-            create_dir(in_dir)
-                .with_context(|| format!("create output parent directory {in_dir:?}"))?;
+            match create_dir(in_dir) {
+                // Another process might have created it in the meantime.
+                Err(err) if err.kind() != ErrorKind::AlreadyExists => {
+                    return Err(err)
+                        .with_context(|| format!("create output parent directory {in_dir:?}"));
+                }
+                _ => (),
+            }
         }
         // Only one process at a time may wait for, rotate, and recreate the output directory:
         // otherwise, several waiting processes could all rotate it at the same time.
-- 
2.43.0


From 8c8c96d59c00d32062486eee24879e905c96c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:36 +0000
Subject: [PATCH 22/32] fix: pass --profile to cargo check when the test tool
 is nextest

---
 src/cargo.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cargo.rs b/src/cargo.rs
index a1db2ac..cfae834 100644
--- a/src/cargo.rs
+++ b/src/cargo.rs
@@ -126,12 +126,13 @@ fn cargo_argv(packages: &PackageSelection, phase: Phase, options: &Options) -> V
     }
     if let Some(profile) = &options.profile {
         match options.test_tool {
-            TestTool::Cargo => {
-                cargo_args.push(format!("--profile={profile}"));
-            }
-            TestTool::Nextest => {
+            // `cargo check` is not run through nextest.
+            TestTool::Nextest if phase != Phase::Check => {
                 cargo_args.push(format!("--cargo-profile={profile}"));
             }
+            TestTool::Cargo | TestTool::Nextest => {
+                cargo_args.push(format!("--profile={profile}"));
+            }
         }
     }
     cargo_args.push("--verbose".to_string());
-- 
2.43.0


From 9f3d1223fba5d5d68770eed36532d3b832a533ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:36 +0000
Subject: [PATCH 23/32] fix: trim whitespace around RUSTFLAGS as cargo does

---
 src/cargo.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cargo.rs b/src/cargo.rs
index cfae834..a002348 100644
--- a/src/cargo.rs
+++ b/src/cargo.rs
@@ -191,6 +191,7 @@ fn encoded_rustflags(options: &Options) -> Option<String> {
             Some(
                 rustflags
                     .split(' ')
+                    .map(str::trim) // as cargo does
                     .filter(|s| !s.is_empty())
                     .chain(once("--cap-lints=warn"))
                     .collect::<Vec<&str>>()
-- 
2.43.0


From 61851c433d1098867cd7e5f3374a7ff22e7de8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:50 +0000
Subject: [PATCH 24/32] fix: accept a --manifest-path that is only a file name

---
 src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ab3b4e1..79a923b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -450,9 +450,15 @@ fn main() -> Result<()> {
 
     let start_dir: &Utf8Path = if let Some(manifest_path) = &args.manifest_path {
         ensure!(manifest_path.is_file(), "Manifest path is not a file");
-        manifest_path
+        let parent = manifest_path
             .parent()
-            .ok_or(anyhow!("Manifest path has no parent"))?
+            .ok_or(anyhow!("Manifest path has no parent"))?;
+        if parent.as_str().is_empty() {
+            // The manifest is in the working directory.
+            Utf8Path::new(".")
+        } else {
+            parent
+        }
     } else if let Some(dir) = &args.dir {
         dir
     } else {
-- 
2.43.0


From 1635e1b562891fe7eb2832b15f7b73a73fc7849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:50 +0000
Subject: [PATCH 25/32] fix: accept a comma-separated list in --package

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 79a923b..2c775cb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -475,7 +475,7 @@ fn main() -> Result<()> {
     let options = Options::new(&args, &config)?;
     debug!(?options);
     let package_filter = if !args.mutate_packages.is_empty() {
-        PackageFilter::explicit(&args.mutate_packages)
+        PackageFilter::explicit(args.mutate_packages.iter().flat_map(|s| s.split(',')))
     } else if args.workspace {
         PackageFilter::All
     } else {
-- 
2.43.0


From a7fb025f53be63367587136cccb5d42d5253e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:52 +0000
Subject: [PATCH 26/32] fix: run the baseline with the packages selected by
 --test-package or --test-workspace

---
 src/lab.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lab.rs b/src/lab.rs
index bf1c939..fd6e589 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -174,15 +174,21 @@ impl Lab<'_> {
     ///
     /// If it succeeds, return the timeouts to be used for the other scenarios.
     fn run_baseline(&self, build_dir: &BuildDir, mutants: &[Mutant]) -> Result<ScenarioOutcome> {
-        let all_mutated_packages: Vec<Arc<Package>> = mutants
-            .iter()
-            .map(|m| Arc::clone(&m.source_file.package))
-            .sorted_by_key(|p| p.name.clone())
-            .unique()
-            .collect_vec();
+        let test_packages = match &self.tests_for_mutant {
+            TestsForMutant::Workspace => PackageSelection::All,
+            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
+            TestsForMutant::Mutated => PackageSelection::Explicit(
+                mutants
+                    .iter()
+                    .map(|m| Arc::clone(&m.source_file.package))
+                    .sorted_by_key(|p| p.name.clone())
+                    .unique()
+                    .collect_vec(),
+            ),
+        };
         self.make_worker(build_dir).run_one_scenario(
             &Scenario::Baseline,
-            &PackageSelection::Explicit(all_mutated_packages),
+            &test_packages,
             Timeouts::for_baseline(self.options),
         )
     }
-- 
2.43.0


From cb05bc8df27aec006de0f2454a0686e75d151454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 27/32] fix: report an error when mutants.json cannot be
 completely written

---
 src/output.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index cd56652..a696d9a 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -266,11 +266,10 @@ impl OutputDir {
     }
 
     pub fn write_mutants_list(&self, mutants: &[Mutant]) -> Result<()> {
-        serde_json::to_writer_pretty(
-            BufWriter::new(File::create(self.path.join("mutants.json"))?),
-            mutants,
-        )
-        .context("write mutants.json")
+        let mut writer = BufWriter::new(File::create(self.path.join("mutants.json"))?);
+        serde_json::to_writer_pretty(&mut writer, mutants).context("write mutants.json")?;
+        // Dropping the writer would ignore errors.
+        writer.flush().context("write mutants.json")
     }
 
     pub fn take_lab_outcome(self) -> LabOutcome {
-- 
2.43.0


From 45ec87f392a3c8691772b042f818a1a314b3e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 28/32] fix: kill tests that outlive a cargo process that was
 terminated

When cargo exits on SIGTERM, after a timeout or an interrupt, but a process
that it started ignores the signal, that process used to be left running.
Kill whatever remains in the process group.
---
 src/process.rs         |  6 ++++--
 src/process/unix.rs    | 10 ++++++++++
 src/process/windows.rs |  3 +++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index b78b457..46b811e 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -32,12 +32,12 @@ const TERMINATE_GRACE: Duration = Duration::from_secs(5);
 #[cfg(windows)]
 mod windows;
 #[cfg(windows)]
-use windows::{configure_command, kill_child, terminate_child};
+use windows::{configure_command, kill_child, kill_remaining_group, terminate_child};
 
 #[cfg(unix)]
 mod unix;
 #[cfg(unix)]
-use unix::{configure_command, kill_child, terminate_child};
+use unix::{configure_command, kill_child, kill_remaining_group, terminate_child};
 
 pub struct Process {
     child: Child,
@@ -146,6 +146,8 @@ impl Process {
             Err(err) => debug!(?err, "Failed to wait for child after termination"),
             Ok(exit) => debug!("terminated child exit status {exit:?}"),
         }
+        // Cargo can exit while tests that it started, and that ignored the signal, still run.
+        kill_remaining_group(&self.child);
         Ok(())
     }
 }
diff --git a/src/process/unix.rs b/src/process/unix.rs
index 89f3eb5..b662332 100644
--- a/src/process/unix.rs
+++ b/src/process/unix.rs
@@ -44,6 +44,16 @@ pub(super) fn kill_child(child: &mut Child) -> Result<()> {
     }
 }
 
+/// Kill any processes left in the process group of a child that has exited.
+#[mutants::skip] // only needed for grandchildren that ignore SIGTERM
+pub(super) fn kill_remaining_group(child: &Child) {
+    // Typically this gives ESRCH, because there are none.
+    let _ = killpg(
+        Pid::from_raw(child.id().try_into().unwrap()),
+        Signal::SIGKILL,
+    );
+}
+
 #[mutants::skip]
 pub(super) fn configure_command(command: &mut Command) {
     command.process_group(0);
diff --git a/src/process/windows.rs b/src/process/windows.rs
index 6ea620f..a199f19 100644
--- a/src/process/windows.rs
+++ b/src/process/windows.rs
@@ -16,6 +16,9 @@ pub(super) fn kill_child(child: &mut Child) -> Result<()> {
     child.kill().context("Kill child")
 }
 
+#[mutants::skip] // There are no process groups.
+pub(super) fn kill_remaining_group(_child: &Child) {}
+
 #[mutants::skip]
 pub(super) fn configure_command(_command: &mut Command) {}
 
-- 
2.43.0


From 7449f054a5161c1962388cfce1c76538fa06e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:49 +0000
Subject: [PATCH 29/32] fix: allow source files with long paths

The log file of a mutant is named after the path of the source file, so
testing stopped with an error for paths that are longer than a file name can
be. Use only the end of long names.
---
 src/output.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index a696d9a..d74e83c 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -24,6 +24,9 @@ const OUTDIR_NAME: &str = "mutants.out";
 const ROTATED_NAME: &str = "mutants.out.old";
 const LOCK_JSON: &str = "lock.json";
 const LOCK_POLL: Duration = Duration::from_millis(100);
+/// The length in bytes of the longest log name: file names are typically limited to 255 bytes,
+/// and a number and an extension are added to this.
+const MAX_LOG_NAME_LEN: usize = 200;
 static CAUGHT_TXT: &str = "caught.txt";
 static PREVIOUSLY_CAUGHT_TXT: &str = "previously_caught.txt";
 static UNVIABLE_TXT: &str = "unviable.txt";
@@ -204,7 +207,7 @@ impl OutputDir {
     pub fn start_scenario(&mut self, scenario: &Scenario) -> Result<ScenarioOutput> {
         let scenario_name = match scenario {
             Scenario::Baseline => "baseline".into(),
-            Scenario::Mutant(mutant) => mutant.log_file_name_base(),
+            Scenario::Mutant(mutant) => shorten_log_name(&mutant.log_file_name_base()),
         };
         let basename = match self.used_log_names.entry(scenario_name.clone()) {
             Entry::Occupied(mut e) => {
@@ -313,6 +316,17 @@ pub fn load_previously_caught(output_parent_dir: &Utf8Path) -> Result<Vec<String
     Ok(r)
 }
 
+/// Cut a long log name, from a file with a long path, so that the files can be created.
+///
+/// The start is cut, so that the line and column are kept.
+fn shorten_log_name(name: &str) -> String {
+    let mut start = name.len().saturating_sub(MAX_LOG_NAME_LEN);
+    while !name.is_char_boundary(start) {
+        start += 1;
+    }
+    name[start..].to_owned()
+}
+
 /// Where to write output about a particular Scenario.
 #[allow(clippy::module_name_repetitions)]
 pub struct ScenarioOutput {
-- 
2.43.0


From ae118fc41bb0d03fe25b4aeb363f0f7c945da3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:13 +0000
Subject: [PATCH 30/32] fix: accept diffs of text files that are not UTF-8

--in-diff failed if the diff included changes to any file in another
encoding, even if it was not a Rust file.
---
 src/main.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2c775cb..0123bc0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -41,7 +41,7 @@ mod visit;
 mod workspace;
 
 use std::env;
-use std::fs::read_to_string;
+use std::fs::read;
 use std::io;
 use std::process::exit;
 
@@ -508,10 +508,9 @@ fn main() -> Result<()> {
     }
     let mut mutants = discovered.mutants;
     if let Some(in_diff) = &args.in_diff {
-        mutants = diff_filter(
-            mutants,
-            &read_to_string(in_diff).context("Failed to read filter diff")?,
-        )?;
+        // The diff can include text files in other encodings, although not Rust files.
+        let diff_bytes = read(in_diff).context("Failed to read filter diff")?;
+        mutants = diff_filter(mutants, &String::from_utf8_lossy(&diff_bytes))?;
     }
     if let Some(shard) = &args.shard {
         mutants = shard.select(mutants);
-- 
2.43.0


From c77aa685cb933f3726f388d405ef8604bce7044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 31/32] fix: copy files whose names are not UTF-8

A tree containing any such file could not be tested, because the path in the
scratch directory was required to be UTF-8.
---
 src/copy_tree.rs         | 18 ++++--------------
 src/copy_tree/unix.rs    |  4 ++--
 src/copy_tree/windows.rs |  4 ++--
 3 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/copy_tree.rs b/src/copy_tree.rs
index 469d088..8424e3a 100644
--- a/src/copy_tree.rs
+++ b/src/copy_tree.rs
@@ -3,7 +3,7 @@
 //! Copy a source tree, with some exclusions, to a new temporary directory.
 
 use anyhow::Context;
-use camino::{Utf8Path, Utf8PathBuf};
+use camino::Utf8Path;
 use ignore::WalkBuilder;
 use path_slash::PathExt;
 use tempfile::TempDir;
@@ -66,11 +66,8 @@ pub fn copy_tree(
             .path()
             .strip_prefix(from_path)
             .expect("entry path is in from_path");
-        let dest_path: Utf8PathBuf = temp_dir
-            .path()
-            .join(relative_path)
-            .try_into()
-            .context("Convert path to UTF-8")?;
+        // Paths in the tree don't have to be UTF-8.
+        let dest_path = temp_dir.path().join(relative_path);
         let ft = entry
             .file_type()
             .with_context(|| format!("Expected file to have a file type: {:?}", entry.path()))?;
@@ -88,14 +85,7 @@ pub fn copy_tree(
             std::fs::create_dir_all(&dest_path)
                 .with_context(|| format!("Failed to create directory {dest_path:?}"))?;
         } else if ft.is_symlink() {
-            copy_symlink(
-                ft,
-                entry
-                    .path()
-                    .try_into()
-                    .context("Convert filename to UTF-8")?,
-                &dest_path,
-            )?;
+            copy_symlink(ft, entry.path(), &dest_path)?;
         } else {
             warn!("Unexpected file type: {:?}", entry.path());
         }
diff --git a/src/copy_tree/unix.rs b/src/copy_tree/unix.rs
index 9d35bc3..41c64cf 100644
--- a/src/copy_tree/unix.rs
+++ b/src/copy_tree/unix.rs
@@ -1,11 +1,11 @@
 use std::fs::FileType;
+use std::path::Path;
 
 use anyhow::Context;
-use camino::Utf8Path;
 
 use crate::Result;
 
-pub(super) fn copy_symlink(_ft: FileType, src_path: &Utf8Path, dest_path: &Utf8Path) -> Result<()> {
+pub(super) fn copy_symlink(_ft: FileType, src_path: &Path, dest_path: &Path) -> Result<()> {
     let link_target = std::fs::read_link(src_path)
         .with_context(|| format!("Failed to read link {src_path:?}"))?;
     std::os::unix::fs::symlink(link_target, dest_path)
diff --git a/src/copy_tree/windows.rs b/src/copy_tree/windows.rs
index 19b9147..0057fe4 100644
--- a/src/copy_tree/windows.rs
+++ b/src/copy_tree/windows.rs
@@ -1,12 +1,12 @@
 use std::fs::FileType;
 use std::os::windows::fs::FileTypeExt;
+use std::path::Path;
 
 use anyhow::Context;
-use camino::Utf8Path;
 
 use crate::Result;
 #[mutants::skip] // Mutant tests run on Linux
-pub(super) fn copy_symlink(ft: FileType, src_path: &Utf8Path, dest_path: &Utf8Path) -> Result<()> {
+pub(super) fn copy_symlink(ft: FileType, src_path: &Path, dest_path: &Path) -> Result<()> {
     let link_target =
         std::fs::read_link(src_path).with_context(|| format!("read link {src_path:?}"))?;
     if ft.is_symlink_dir() {
-- 
2.43.0


From 0ce58f62dacd1155642646758cfff33b8906be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:08 +0000
Subject: [PATCH 32/32] fix: restore the tree and stop cargo if printing panics
 because the terminal has gone away

---
 src/lab.rs     | 26 ++++++++++++++++++++++++++
 src/process.rs | 26 +++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/lab.rs b/src/lab.rs
index fd6e589..709cb15 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -11,6 +11,7 @@ use std::sync::{Arc, Mutex};
 use std::time::Instant;
 use std::{thread, vec};
 
+use camino::Utf8Path;
 use itertools::Itertools;
 use tracing::{debug, debug_span, error, trace, warn};
 
@@ -275,8 +276,14 @@ impl Worker<'_> {
         // The exact original content of the file, to be restored later: this can differ from the
         // code in memory, which has normalized line endings.
         let mut original = Vec::new();
+        let mut _revert_on_panic = None;
         if let Some(mutant) = scenario.mutant() {
             original = self.build_dir.read_file(mutant.source_file.path())?;
+            _revert_on_panic = Some(RevertOnPanic {
+                build_dir: self.build_dir,
+                path: mutant.source_file.path(),
+                original: original.clone(),
+            });
             let mutated_code = mutant.mutated_code();
             let diff = scenario.mutant().unwrap().diff(&mutated_code);
             scenario_output.write_diff(&diff)?;
@@ -337,6 +344,25 @@ impl Worker<'_> {
     }
 }
 
+/// Puts back the original content of a mutated file if testing the mutant panics.
+///
+/// In particular, printing messages panics if the terminal has gone away, and the tree must not
+/// be left mutated if it is tested in place.
+struct RevertOnPanic<'a> {
+    build_dir: &'a BuildDir,
+    path: &'a Utf8Path,
+    original: Vec<u8>,
+}
+
+impl Drop for RevertOnPanic<'_> {
+    #[mutants::skip] // only does anything in a panic
+    fn drop(&mut self) {
+        if thread::panicking() {
+            let _ = self.build_dir.overwrite_file(self.path, &self.original);
+        }
+    }
+}
+
 /// Which packages to test
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum TestsForMutant {
diff --git a/src/process.rs b/src/process.rs
index 46b811e..353fb65 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -10,7 +10,7 @@
 
 use std::ffi::OsStr;
 use std::process::{Child, Command, Stdio};
-use std::thread::sleep;
+use std::thread::{self, sleep};
 use std::time::{Duration, Instant};
 
 use anyhow::Context;
@@ -152,6 +152,30 @@ impl Process {
     }
 }
 
+impl Drop for Process {
+    /// Don't leave the subprocess running if we're unwinding from a panic, which can happen even
+    /// on an interrupt, if messages can't be printed because the terminal has gone away.
+    ///
+    /// Nothing must be logged from here, because that could panic again.
+    #[mutants::skip] // only does anything in a panic
+    fn drop(&mut self) {
+        if thread::panicking() && matches!(self.child.try_wait(), Ok(None)) {
+            let _ = terminate_child(&mut self.child);
+            let terminated = Instant::now();
+            while terminated.elapsed() < TERMINATE_GRACE
+                && matches!(self.child.try_wait(), Ok(None))
+            {
+                sleep(WAIT_POLL_INTERVAL);
+            }
+            if matches!(self.child.try_wait(), Ok(None)) {
+                let _ = kill_child(&mut self.child);
+            }
+            let _ = self.child.wait();
+            kill_remaining_group(&self.child);
+        }
+    }
+}
+
 /// The result of running a single child process.
 #[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize)]
 pub enum Exit {
-- 
2.43.0

