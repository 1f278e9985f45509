From 95a423f6b4fd7e6070e317e1b618c7beb45eb2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 01/23] hook: cfg(cbm_sim) seam reporting every image access to
 a simulator

---
 src/disk/image.rs | 18 ++++++++++++++++++
 src/disk/mod.rs   |  3 +++
 src/disk/sim.rs   | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs        |  2 ++
 4 files changed, 70 insertions(+)
 create mode 100644 src/disk/sim.rs

diff --git a/src/disk/image.rs b/src/disk/image.rs
index ccad6ed..ce931ce 100644
--- a/src/disk/image.rs
+++ b/src/disk/image.rs
@@ -67,6 +67,8 @@ impl Image {
 
     pub fn slice(&self, offset: usize, length: usize) -> io::Result<&[u8]> {
         self.check_bounds(offset + length)?;
+        #[cfg(cbm_sim)]
+        super::sim::access(super::sim::Access::Read, self.raw(), offset, length)?;
         Ok(match self {
             Image::ReadOnlyMap(mmap) => &mmap[offset..offset + length],
             Image::ReadWriteMap(mmap) => &mmap[offset..offset + length],
@@ -76,6 +78,8 @@ impl Image {
 
     pub fn slice_mut(&mut self, offset: usize, length: usize) -> io::Result<&mut [u8]> {
         self.check_bounds(offset + length)?;
+        #[cfg(cbm_sim)]
+        super::sim::access(super::sim::Access::Write, self.raw(), offset, length)?;
         match self {
             Image::ReadOnlyMap(_) => Err(DiskError::ReadOnly.into()),
             Image::ReadWriteMap(mmap) => Ok(&mut mmap[offset..offset + length]),
@@ -84,6 +88,8 @@ impl Image {
     }
 
     pub fn flush(&mut self) -> io::Result<()> {
+        #[cfg(cbm_sim)]
+        super::sim::access(super::sim::Access::Sync, self.raw(), 0, self.len())?;
         match self {
             Image::ReadOnlyMap(_) => Err(DiskError::ReadOnly.into()),
             Image::ReadWriteMap(mmap) => mmap.flush(),
@@ -91,3 +97,15 @@ impl Image {
         }
     }
 }
+
+#[cfg(cbm_sim)]
+impl Image {
+    /// The current contents of the whole image, for the simulation hook.
+    fn raw(&self) -> &[u8] {
+        match self {
+            Image::ReadOnlyMap(mmap) => mmap,
+            Image::ReadWriteMap(mmap) => mmap,
+            Image::Memory(array) => array,
+        }
+    }
+}
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 856d63f..b253084 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -106,6 +106,9 @@ pub mod directory;
 pub mod file;
 pub mod geos;
 
+#[cfg(cbm_sim)]
+pub mod sim;
+
 use std::cell::RefCell;
 use std::fmt;
 use std::io::{self, Write};
diff --git a/src/disk/sim.rs b/src/disk/sim.rs
new file mode 100644
index 0000000..7032b30
--- /dev/null
+++ b/src/disk/sim.rs
@@ -0,0 +1,47 @@
+//! A seam for deterministic simulation.  This module only exists when the crate is compiled with
+//! `--cfg cbm_sim`; it is never part of a normal build.
+//!
+//! Every access to the bytes of a disk image is reported to a per-thread hook just before it
+//! happens.  The hook may look at the whole image, and may make the access fail.
+
+use std::cell::RefCell;
+use std::io;
+
+/// The kind of access about to be made.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Access {
+    /// The given range is about to be read.
+    Read,
+    /// The given range is about to be handed out for writing.
+    Write,
+    /// The image is about to be synchronized with its medium.
+    Sync,
+}
+
+/// A hook receives the kind of access, the current contents of the whole image, and the offset and
+/// length of the range about to be accessed.
+pub type Hook = Box<dyn FnMut(Access, &[u8], usize, usize) -> io::Result<()>>;
+
+thread_local! {
+    static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
+}
+
+/// Install (or, with `None`, remove) the hook for the current thread, and return the previous one.
+pub fn set_hook(hook: Option<Hook>) -> Option<Hook> {
+    HOOK.with(|cell| cell.replace(hook))
+}
+
+pub(super) fn access(
+    access: Access,
+    image: &[u8],
+    offset: usize,
+    length: usize,
+) -> io::Result<()> {
+    HOOK.with(|cell| match cell.try_borrow_mut() {
+        Ok(mut hook) => match *hook {
+            Some(ref mut hook) => hook(access, image, offset, length),
+            None => Ok(()),
+        },
+        Err(_) => Ok(()),
+    })
+}
diff --git a/src/lib.rs b/src/lib.rs
index 207734a..aba7dc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -182,6 +182,8 @@
 //!
 //! See LICENSE-APACHE and LICENSE-MIT for details.
 
+#![allow(unexpected_cfgs)] // cfg(cbm_sim) enables the simulation seam in disk::sim.
+
 pub mod disk;
 
 mod petscii;
-- 
2.43.0


From e7855749f09004874cc3db339a160b3309ddb121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 02/23] fix: GEOSReader repeated bytes when the output buffer
 filled up

The bytes handed to the caller were not removed from the internal buffer
when they exactly filled the caller's buffer, so the stream repeated them
(and never ended for small buffers).
---
 src/disk/geos/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index dfa2a1c..347adb0 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -213,6 +213,9 @@ impl Read for GEOSReader {
             let _ = &mut buf[..bytes].copy_from_slice(&self.buffer[..bytes]);
             bytes_written += bytes;
 
+            // Reduce the input buffer
+            self.buffer.drain(0..bytes);
+
             if bytes == buf.len() {
                 // Output buffer filled -- nothing more to do for now.
                 break;
@@ -223,9 +226,6 @@ impl Read for GEOSReader {
             let value: &mut [u8] = std::mem::take(buf_ref);
             *buf_ref = &mut value[bytes..];
 
-            // Reduce the input buffer
-            self.buffer.drain(0..bytes);
-
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-- 
2.43.0


From 7dd8a0153180a4b15246b54308f0748fc9eebfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 03/23] fix: opening a writer on a cyclic chain looped forever

---
 src/disk/chain.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 03e3365..bba0119 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -220,7 +220,13 @@ impl ChainWriter {
 
             let mut block = blocks.sector(start)?;
             tail_location = start;
+            let mut visited_sectors = HashSet::new();
+            visited_sectors.insert(start);
             while let ChainLink::Next(location) = ChainLink::new(block)? {
+                // Loop detection.
+                if !visited_sectors.insert(location) {
+                    return Err(DiskError::ChainLoop.into());
+                }
                 block = blocks.sector(location)?;
                 tail_location = location;
             }
-- 
2.43.0


From 2af9db124e963fb04bfd2f1930678ed06199843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 04/23] fix: opening a damaged relative file could panic

A short final side sector was sliced out of range, and a record length of
zero caused a division by zero.
---
 src/disk/file.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index 35b6c9c..bc648fd 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -341,6 +341,10 @@ impl RelativeFile {
             _ => return Err(DiskError::InvalidRelativeFile.into()),
         };
 
+        if record_size == 0 {
+            return Err(DiskError::InvalidRelativeFile.into());
+        }
+
         // Find side sectors.  Side sector locations are stored redundantly -- once as
         // a linked chain of sectors, and also as a list within each side
         // sector.  I'm not sure how the CBM drives approach this redundancy,
@@ -353,6 +357,9 @@ impl RelativeFile {
         for sector in chain {
             let sector = sector?;
             side_sectors.push(sector.location);
+            if sector.data.len() < SIDE_SECTOR_DATA_OFFSET {
+                return Err(DiskError::InvalidRelativeFile.into());
+            }
 
             // Process the list of side sectors which is contained within each side sector.
             let list_bytes = &sector.data
-- 
2.43.0


From ce479ab58595c9e27c50c7f7de21cb1224434038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 05/23] fix: creating a file panicked if the last directory
 sector was short

---
 src/disk/directory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 3ccc898..0586822 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -716,7 +716,7 @@ where
             let ChainSector { data, location } = chain_block?;
             last_sector = location;
             let mut offset: u8 = 0;
-            for chunk in data.chunks(ENTRY_SIZE) {
+            for chunk in data.chunks_exact(ENTRY_SIZE) {
                 let entry = DirectoryEntry::from_positioned_bytes(
                     chunk,
                     Position {
-- 
2.43.0


From ac9714f62e51098a3c1d8a6722e9ed1a057200fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 06/23] fix: BAM access outside the tracks and sectors it
 covers panicked

For example when deleting a file stored on tracks 36-40 of a 40-track D64,
or a GEOS file whose info block location is damaged.
---
 src/disk/bam.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index ef90a2f..39e06eb 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -273,24 +273,46 @@ impl Bam {
         blocks_free
     }
 
+    /// Return the index of the entry for the specified track, or an error if
+    /// this BAM does not cover the track.
+    fn entry_index(&self, track: u8) -> io::Result<usize> {
+        match (track as usize).checked_sub(1) {
+            Some(index) if index < self.entries.len() => Ok(index),
+            _ => Err(DiskError::InvalidLocation.into()),
+        }
+    }
+
+    /// Return an error unless this BAM covers the specified sector.
+    pub fn check_location(&self, location: Location) -> io::Result<()> {
+        let index = self.entry_index(location.0)?;
+        if location.1 >= self.format.tracks[index + 1].sectors {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
+    }
+
     pub fn entry(&self, track: u8) -> io::Result<&BamEntry> {
         self.check_validity()?;
-        Ok(&self.entries[(track - 1) as usize])
+        let index = self.entry_index(track)?;
+        Ok(&self.entries[index])
     }
 
     pub fn entry_mut(&mut self, track: u8) -> io::Result<&mut BamEntry> {
         self.check_validity()?;
-        Ok(&mut self.entries[(track - 1) as usize])
+        let index = self.entry_index(track)?;
+        Ok(&mut self.entries[index])
     }
 
     pub fn allocate(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.allocate(location.1);
         Ok(())
     }
 
     pub fn free(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.free(location.1);
         Ok(())
     }
-- 
2.43.0


From 25c87ae82e5e2dbd234f7c4a1a67aa050ca614ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 07/23] fix: formatting with a name that is too long erased the
 disk before failing

---
 src/disk/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index b253084..693d360 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -288,6 +288,11 @@ pub trait Disk {
     fn write_format(&mut self, name: &Petscii, id: &Id) -> io::Result<()> {
         let disk_format = self.native_disk_format();
 
+        // Reject an invalid name before destroying anything.
+        if name.len() > DISK_NAME_SIZE {
+            return Err(DiskError::FilenameTooLong.into());
+        }
+
         // Zero all sectors
         let track_count = self.blocks_ref().geometry().tracks;
         for track in disk_format.first_track..=track_count {
-- 
2.43.0


From aab8fc17d8c3c9dfdfbb8cfcf26f07338994f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 08/23] fix: trailing padding let a filename be used twice

Creating or renaming a file to "A\xA0" while "A" exists passed the
availability check, but both are stored as the same name.
---
 src/disk/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 693d360..8452245 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -354,10 +354,12 @@ pub trait Disk {
 
     /// Locate a directory entry based on its filename.
     fn find_directory_entry(&self, filename: &Petscii) -> io::Result<DirectoryEntry> {
+        // Filenames are stored with padding, so trailing padding is not significant.
+        let filename = Petscii::from_padded_bytes(filename.as_bytes(), PADDING_BYTE);
         self.iter()
             .find(|x| match x {
                 Err(_) => true,
-                Ok(ref entry) => entry.filename == *filename,
+                Ok(ref entry) => entry.filename == filename,
             })
             .unwrap_or_else(|| Err(DiskError::NotFound.into()))
     }
-- 
2.43.0


From d5c496ee27568790531bd5e74005eefef432def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 09/23] fix: creating a file in the slot of a deleted relative
 or GEOS file kept the old scheme

Opening the file from the returned entry then panicked or misread it.
---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 0586822..dbe622c 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -457,6 +457,7 @@ impl DirectoryEntry {
         self.filename = Petscii::from_bytes(&[0u8; ENTRY_FILENAME_LENGTH]);
         self.extra = Extra::default();
         self.file_size = 0;
+        self.scheme = Scheme::Linear;
         // The position field must be left untouched.
     }
 
-- 
2.43.0


From af51406cf2555be1598a8a3f333d8ab245e312f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 10/23] fix: appending to a file with a damaged recorded size
 of 65535 overflowed

---
 src/disk/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index bba0119..3199d84 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -246,7 +246,7 @@ impl ChainWriter {
     fn increment_entry_blocks(&mut self) -> io::Result<()> {
         let mut blocks = self.blocks.borrow_mut();
         blocks.positioned_read(&mut self.entry)?;
-        self.entry.file_size += 1;
+        self.entry.file_size = self.entry.file_size.saturating_add(1);
         blocks.positioned_write(&self.entry)?;
         Ok(())
     }
-- 
2.43.0


From 8b43489460f8952adfb2634253501ce874de1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 11/23] fix: cdisk append opened the image read-only and always
 failed

---
 src/bin/cdisk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9551127..b25e9d0 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -319,7 +319,8 @@ fn open_cbm_reader(diskimage: &str, filename: &str) -> io::Result<Box<dyn Read>>
 
 /// Open a file on a CBM disk image for appending.
 fn open_cbm_appender(diskimage: &str, filename: &str) -> io::Result<Box<dyn Write>> {
-    Ok(Box::new(open_cbm_file(diskimage, filename)?.writer()?))
+    let disk = disk::open(diskimage, true)?;
+    Ok(Box::new(disk.open_file(&filename.into())?.writer()?))
 }
 
 /// Open an existing GEOS file from the specified disk image for reading.
-- 
2.43.0


From 8c0eaeb2a3c39ece8c2425dc6f9588771131e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 12/23] fix: VLIR record numbers were off by one

The link bytes at the start of the index block were taken for a record.
---
 src/disk/geos/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 7970c11..57142ec 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -28,7 +28,7 @@ impl GEOSFile {
         let vlir = if entry.is_vlir()? {
             let blocks = blocks.borrow();
             let index_block = blocks.sector(entry.first_sector)?;
-            let records: Vec<Option<Location>> = index_block
+            let records: Vec<Option<Location>> = index_block[2..]
                 .chunks(2)
                 .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
                 .map(|chunk| {
-- 
2.43.0


From b25a9cefd053d8a6e83987dcb8d83faca6d7e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 13/23] fix: GEOS sequential files returned data for records
 that do not exist

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 57142ec..b391a23 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -59,7 +59,8 @@ impl GEOSFile {
                 Some(location) => *location,
                 None => return Err(DiskError::InvalidRecordIndex.into()),
             },
-            None => Some(self.entry.first_sector),
+            None if index == 0 => Some(self.entry.first_sector),
+            None => return Err(DiskError::InvalidRecordIndex.into()),
         })
     }
 
-- 
2.43.0


From 966dc8b29cf261ea40c13912c53bec58f5fb36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 14/23] fix: creating an image with create_new=false neither
 created nor overwrote

It failed if no file existed, and kept the old contents if one did.
---
 src/disk/image.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disk/image.rs b/src/disk/image.rs
index ce931ce..2998f5d 100644
--- a/src/disk/image.rs
+++ b/src/disk/image.rs
@@ -34,6 +34,8 @@ impl Image {
         let file = OpenOptions::new()
             .read(true)
             .write(true)
+            .create(true)
+            .truncate(true)
             .create_new(create_new)
             .open(path)?;
         file.set_len(length as u64)?;
-- 
2.43.0


From 08b3ec564c54e271e78ff9ff20ce1f69ad5bef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:48 +0000
Subject: [PATCH 15/23] fix: deleting relative and GEOS files lost sectors, and
 failed deletions freed live ones

Side sectors and info blocks were freed in memory only, so they stayed
allocated on the image.  Sectors were freed before the directory entry was
marked as deleted, so that an error or interruption in between left a listed
file whose sectors could be reallocated.
---
 src/disk/chain.rs     | 28 ++++++++++++++++++++++------
 src/disk/file.rs      | 42 +++++++++++++-----------------------------
 src/disk/geos/file.rs | 32 ++++++++------------------------
 3 files changed, 43 insertions(+), 59 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 3199d84..43da738 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -3,7 +3,7 @@ use std::io::{self, Write};
 
 use crate::disk::bam::BamRef;
 use crate::disk::block::{BlockDeviceRef, Location, BLOCK_SIZE};
-use crate::disk::directory::DirectoryEntry;
+use crate::disk::directory::{DirectoryEntry, FileType};
 use crate::disk::error::DiskError;
 
 /// A "zero" chain link is a link that indicates that this is a tail block, and
@@ -369,15 +369,31 @@ impl io::Write for ChainWriter {
     }
 }
 
-pub fn remove_chain(blocks: BlockDeviceRef, bam: BamRef, start: Location) -> io::Result<()> {
-    // Read the whole chain first to be sure we can visit every block with no
-    // errors.
-    let locations = ChainIterator::new(blocks, start).locations()?;
+/// Delete a file, given its directory entry and the list of all sectors it occupies.
+pub fn remove_file(
+    blocks: BlockDeviceRef,
+    bam: BamRef,
+    entry: &mut DirectoryEntry,
+    locations: &[Location],
+) -> io::Result<()> {
+    // Be sure that every sector can be freed before changing anything.
+    for location in locations {
+        bam.borrow().check_location(*location)?;
+    }
+
+    // Mark the file as "DEL" and "open" (*DEL) in the directory.  This is done
+    // before any sector is freed, so that an interrupted deletion can't leave
+    // behind a file whose sectors are regarded as free.
+    let mut scratched = entry.clone();
+    scratched.file_attributes.file_type = FileType::DEL;
+    scratched.file_attributes.closed_flag = false;
+    blocks.borrow_mut().positioned_write(&scratched)?;
+    *entry = scratched;
 
     // Deallocate
     let mut bam = bam.borrow_mut();
     for location in locations {
-        bam.free(location)?;
+        bam.free(*location)?;
     }
     bam.flush()?;
 
diff --git a/src/disk/file.rs b/src/disk/file.rs
index bc648fd..3820030 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -8,7 +8,7 @@ use crate::disk::block::Location;
 use crate::disk::block::Position;
 use crate::disk::block::BLOCK_SIZE;
 use crate::disk::chain::{self, ChainIterator, ChainLink, ChainReader, ChainWriter};
-use crate::disk::directory::{DirectoryEntry, Extra, FileType};
+use crate::disk::directory::{DirectoryEntry, Extra};
 use crate::disk::geos::{GEOSFile, GEOSInfo};
 use crate::disk::{Disk, DiskError};
 use crate::petscii::Petscii;
@@ -236,19 +236,14 @@ impl FileOps for LinearFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
+        // Deallocate the chain and mark the directory entry.
+        let locations = self.occupied_sectors()?;
+        chain::remove_file(
             self.blocks.clone(),
             self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-        // Mark the file as "DEL" and "open" (*DEL) in the directory.
-        self.entry.file_attributes.file_type = FileType::DEL;
-        self.entry.file_attributes.closed_flag = false;
-        // Write the new directory entry
-        let mut blocks = self.blocks.borrow_mut();
-        blocks.positioned_write(&self.entry)?;
-        Ok(())
+            &mut self.entry,
+            &locations,
+        )
     }
 
     fn record_count(&self) -> io::Result<usize> {
@@ -476,25 +471,14 @@ impl FileOps for RelativeFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
+        // Deallocate the data and side sectors and mark the directory entry.
+        let locations = self.occupied_sectors()?;
+        chain::remove_file(
             self.blocks.clone(),
             self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate side sectors
-        for side_sector in self.side_sectors.iter() {
-            self.bam.borrow_mut().free(*side_sector)?
-        }
-
-        // Mark the file as "DEL" and "open" (*DEL) in the directory.
-        self.entry.file_attributes.file_type = FileType::DEL;
-        self.entry.file_attributes.closed_flag = false;
-        // Write the new directory entry
-        let mut blocks = self.blocks.borrow_mut();
-        blocks.positioned_write(&self.entry)?;
-        Ok(())
+            &mut self.entry,
+            &locations,
+        )
     }
 
     fn record_count(&self) -> io::Result<usize> {
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index b391a23..e8fe529 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -4,7 +4,7 @@ use crate::disk::bam::BamRef;
 use crate::disk::block::BlockDeviceRef;
 use crate::disk::block::Location;
 use crate::disk::chain::{self, ChainIterator, ChainReader};
-use crate::disk::directory::{DirectoryEntry, FileType};
+use crate::disk::directory::DirectoryEntry;
 use crate::disk::file::FileOps;
 use crate::disk::DiskError;
 
@@ -89,31 +89,15 @@ impl FileOps for GEOSFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the main chain (Sequential) or index block (VLIR).
-        chain::remove_chain(
+        // Deallocate the main chain (Sequential) or index block (VLIR), the info
+        // block (if present), and any VLIR records, and mark the directory entry.
+        let locations = self.occupied_sectors()?;
+        chain::remove_file(
             self.blocks.clone(),
             self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate the info block, if present.
-        if let Some(info_location) = self.entry.info_location()? {
-            self.bam.borrow_mut().free(info_location)?
-        }
-
-        // If this is a VLIR file, deallocate the VLIR records.
-        if let Some(ref records) = self.vlir {
-            for record in records.iter().flatten() {
-                chain::remove_chain(self.blocks.clone(), self.bam.clone(), *record)?;
-            }
-        }
-        // Mark the file as "DEL" and "open" (*DEL) in the directory.
-        self.entry.file_attributes.file_type = FileType::DEL;
-        self.entry.file_attributes.closed_flag = false;
-        // Write the new directory entry
-        let mut blocks = self.blocks.borrow_mut();
-        blocks.positioned_write(&self.entry)?;
-        Ok(())
+            &mut self.entry,
+            &locations,
+        )
     }
 
     fn record_count(&self) -> io::Result<usize> {
-- 
2.43.0


From 11dc2f68177698d99c2b0bad50f89459ca6f951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:48 +0000
Subject: [PATCH 16/23] fix: creating a file did not write its allocations to
 the image

Unless a writer happened to be flushed later, the new file's first sector and
a new directory sector stayed free on the image and were handed out again
after reopening it.  A creation that failed early also left its sector
allocated in memory.
---
 src/disk/directory.rs | 20 ++++++++++++--------
 src/disk/mod.rs       | 12 ++++++++----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index dbe622c..0e2420f 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -768,18 +768,22 @@ where
         );
     }
 
-    // Allocate the new sector in BAM
-    {
-        let mut bam = bam.borrow_mut();
-        bam.allocate(new_sector)?;
-    }
-
-    // Link to the new sector from the old sector
-    {
+    // Allocate the new sector in BAM, and only then link to the new sector from
+    // the old sector.
+    let mut bam = bam.borrow_mut();
+    bam.allocate(new_sector)?;
+    let result = bam.flush().and_then(|_| {
         let mut blocks = disk.blocks_ref_mut();
         let block = blocks.sector_mut(last_sector)?;
         block[0] = new_sector.0;
         block[1] = new_sector.1;
+        Ok(())
+    });
+    if let Err(e) = result {
+        // Roll back the allocation.
+        bam.free(new_sector)?;
+        let _ = bam.flush();
+        return Err(e);
     }
 
     // Return the new entry
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 8452245..69fa243 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -444,15 +444,15 @@ pub trait Disk {
         let bam = self.bam()?;
         let mut bam = bam.borrow_mut();
         let first_sector = bam.next_free_block(None)?;
-        bam.allocate(first_sector)?;
 
         // Initialize the first sector with link bytes [0x00,0x01] to indicate that it
         // is a tail block of zero length.
-        let mut blocks = self.blocks_ref_mut();
         {
+            let mut blocks = self.blocks_ref_mut();
             let block = blocks.sector_mut(first_sector)?;
             chain::CHAIN_LINK_ZERO.to_bytes(block);
         }
+        bam.allocate(first_sector)?;
 
         // Populate and write the directory entry for this file.
         entry.reset();
@@ -465,13 +465,17 @@ pub trait Disk {
         entry.filename = filename.clone();
         entry.file_size = 1; // One block is allocated for the first sector.
 
-        // Write the directory entry.
-        match blocks.positioned_write(&entry) {
+        // Write the BAM and the directory entry.
+        let result = bam
+            .flush()
+            .and_then(|_| self.blocks_ref_mut().positioned_write(&entry));
+        match result {
             Ok(_) => {}
             Err(e) => {
                 // If the directory entry could not be written, roll back the BAM allocation
                 // before returning an error.
                 bam.free(first_sector)?;
+                let _ = bam.flush();
                 return Err(e);
             }
         }
-- 
2.43.0


From 026408fd2408a44d16deb358e85d2defb96e872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:48 +0000
Subject: [PATCH 17/23] fix: a failed or interrupted append could lose data or
 leave used sectors marked free

The buffered tail block was cleared before the steps that can fail, so that an
error destroyed its contents, and the new sector was linked into the file
before its allocation was recorded on the image.
---
 src/disk/chain.rs | 54 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 43da738..c1c7ad3 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -264,45 +264,61 @@ impl ChainWriter {
 
         // Initialize a fresh block in memory with a link indicating a tail block with
         // zero bytes used. (Really, two bytes used for the link, but zero data
-        // bytes used.)
-        for i in 2..BLOCK_SIZE {
-            self.block[i] = 0;
-        }
-        ChainLink::Tail(2).to_bytes(&mut self.block[..]);
+        // bytes used.)  The current block is left alone until the new block has been
+        // linked, since a failed write may be retried.
+        let mut fresh_block = vec![0; BLOCK_SIZE];
+        ChainLink::Tail(2).to_bytes(&mut fresh_block[..]);
 
         // Write the fresh block to the new location
         self.blocks
             .borrow_mut()
             .sector_mut(next_location)?
-            .copy_from_slice(&self.block);
+            .copy_from_slice(&fresh_block);
 
         // Allocate the next block.
         self.bam.borrow_mut().allocate(next_location)?;
 
-        // Increment the directory entry's file size (measured in blocks)
-        self.increment_entry_blocks()?;
-
         // If allocation succeeds, only then do we link the current block to the next
         // block.
-        let mut blocks = self.blocks.borrow_mut();
-        let block = match blocks.sector_mut(self.location) {
-            Ok(block) => block,
-            Err(e) => {
-                // Roll back the allocation.
-                self.bam.borrow_mut().free(next_location)?;
-                return Err(e);
-            }
-        };
-        next_location.write_bytes(block);
+        if let Err(e) = self.link_next_block(next_location) {
+            // Roll back the allocation.
+            let mut bam = self.bam.borrow_mut();
+            bam.free(next_location)?;
+            let _ = bam.flush();
+            return Err(e);
+        }
 
         // Update state
         self.location = next_location;
+        self.block = fresh_block;
 
         // Return the available bytes in the newly loaded block, which is always two
         // less than the block size.
         Ok(BLOCK_SIZE - 2)
     }
 
+    fn link_next_block(&mut self, next_location: Location) -> io::Result<()> {
+        // The allocation must be recorded on the image before anything refers to the
+        // new block.
+        self.bam.borrow_mut().flush()?;
+
+        // Increment the directory entry's file size (measured in blocks)
+        self.increment_entry_blocks()?;
+
+        // Link the current block to the next block.
+        let mut blocks = self.blocks.borrow_mut();
+        match blocks.sector_mut(self.location) {
+            Ok(block) => next_location.write_bytes(block),
+            Err(e) => {
+                // Roll back the file size.
+                self.entry.file_size = self.entry.file_size.saturating_sub(1);
+                let _ = blocks.positioned_write(&self.entry);
+                return Err(e);
+            }
+        }
+        Ok(())
+    }
+
     fn write_current_block(&mut self) -> io::Result<()> {
         // Write the current block
         let mut blocks = self.blocks.borrow_mut();
-- 
2.43.0


From 33e060f7ecade1e5af837eac3a0ef00f1a166bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:48 +0000
Subject: [PATCH 18/23] fix: a failed write reported an error after accepting
 part of the data

A caller retrying the refused bytes (for example after making room on a full
disk) stored the accepted part twice.
---
 src/disk/chain.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index c1c7ad3..d82dc86 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -346,7 +346,13 @@ impl io::Write for ChainWriter {
                 ChainLink::Next(_) => unreachable!(), // The stored buffer is always a tail block.
                 ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {
                     // Allocate a new block
-                    let remaining = self.allocate_next_block()?;
+                    let remaining = match self.allocate_next_block() {
+                        Ok(remaining) => remaining,
+                        // Some bytes were already accepted, so report these.  The caller will
+                        // see the error when trying to write the remaining bytes.
+                        Err(_) if total_nbytes > 0 => break,
+                        Err(e) => return Err(e),
+                    };
                     (BLOCK_SIZE - remaining, remaining)
                 }
                 ChainLink::Tail(nbytes) => (nbytes, BLOCK_SIZE - nbytes),
-- 
2.43.0


From 3176a23014d7efd40fc260f28af743a4c3c50ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:35 +0000
Subject: [PATCH 19/23] fix: formatting reported success when the new format
 could not be read back

---
 src/disk/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 69fa243..bda5bea 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -339,6 +339,10 @@ pub trait Disk {
 
         self.blocks_ref_mut().flush()?;
         self.initialize();
+
+        // Initialization regards an unreadable disk as unformatted; don't claim success then.
+        self.header()?;
+        self.bam()?;
         Ok(())
     }
 
-- 
2.43.0


From 01f185b4d3725334d6b0d3cf5cf7636fe4cf32f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:43 +0000
Subject: [PATCH 20/23] fix: report an error instead of panicking when geosread
 is given a file that is not a GEOS file

---
 src/bin/cdisk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index b25e9d0..7a6f761 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -331,7 +331,12 @@ fn open_geos_file(diskimage: &str, filename: &str) -> io::Result<GEOSFile> {
     let file = match file {
         File::GEOSVLIR(f) => f,
         File::GEOSSequential(f) => f,
-        _ => unreachable!(),
+        _ => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "not a GEOS file",
+            ))
+        }
     };
     Ok(file)
 }
-- 
2.43.0


From 005fb125c55eeb19038dcafd8a5e5f7c8634e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:41 +0000
Subject: [PATCH 21/23] fix: cdisk dump and validate could not be used on an
 image that may not be written

---
 src/bin/cdisk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 7a6f761..33033cb 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -487,7 +487,7 @@ fn cmd_delete(diskimage: &str, filename: &str) -> io::Result<()> {
 }
 
 fn cmd_dump(diskimage: &str, filename: Option<&str>) -> io::Result<()> {
-    let mut disk = disk::open(diskimage, true)?;
+    let mut disk = disk::open(diskimage, false)?;
     match filename {
         Some(filename) => {
             let file = disk.open_file(&filename.into())?;
@@ -499,7 +499,7 @@ fn cmd_dump(diskimage: &str, filename: Option<&str>) -> io::Result<()> {
 }
 
 fn cmd_validate(diskimage: &str) -> io::Result<()> {
-    let disk = disk::open(diskimage, true)?;
+    let disk = disk::open(diskimage, false)?;
     let errors = disk.validate()?;
     for e in errors.iter() {
         println!("{}", e);
-- 
2.43.0


From 30acf7c4d94749970d9e6e712db7397b7a1abad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:24 +0000
Subject: [PATCH 22/23] fix: refuse to mark sectors that are not on the disk
 with cdisk bam

'cdisk image bam free 35 20' set a bit of the free map for a sector that
track 35 does not have, and counted it as a free block.
---
 src/bin/cdisk.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 33033cb..bd2cca8 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -287,9 +287,14 @@ fn cmd_bam_edit(
         Some(t) => t..=t,
         None => 1..=35,
     };
+    let all_tracks = track.is_none();
     for track in track_range {
         let entry = bam.entry_mut(track)?;
+        // Tracks differ in length, and only existing sectors may be marked.
+        let exists = |s| s < format.sectors_in_track(track);
         let sector_range = match sector {
+            Some(s) if !exists(s) && all_tracks => continue,
+            Some(s) if !exists(s) => return Err(disk::DiskError::InvalidLocation.into()),
             Some(s) => s..=s,
             None => 0..=(format.sectors_in_track(track) - 1),
         };
-- 
2.43.0


From 5f0bedb1d588b94c2d80775d39a29a0f86b4d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:24 +0000
Subject: [PATCH 23/23] fix: refuse to write a directory entry whose name is
 too long instead of panicking

The panic came after part of the entry had been written.
---
 src/disk/directory.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 0e2420f..deba268 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -517,6 +517,9 @@ impl PositionedData for DirectoryEntry {
         if buffer.len() < position.size as usize {
             return Err(DiskError::WriteUnderrun.into());
         }
+        if self.filename.len() > ENTRY_FILENAME_LENGTH {
+            return Err(DiskError::FilenameTooLong.into());
+        }
         self.to_bytes(buffer);
         Ok(())
     }
-- 
2.43.0

