From db1043a9c87bfe1f765de465c3d5aaa88af027e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 01/24] fix: create_file persists its allocation and leaves the
 disk alone when it fails

The BAM change of a newly created file was only written when a writer was
flushed later, so an image with a freshly created file had its first sector
marked free.  A create refused for lack of a free block (or on read-only
media) could already have extended the directory or changed the BAM.
---
 src/disk/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 856d63f..b38082e 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -427,13 +427,19 @@ pub trait Disk {
         directory::check_filename_validity(filename)?;
         self.check_filename_availability(filename)?;
 
+        // Refuse to create files on read-only media before anything is changed.
+        self.blocks_ref().check_writability()?;
+
+        // Find the first sector for this new file.  This must succeed before we search
+        // for a directory slot, since that may extend the directory.
+        let bam = self.bam()?;
+        let first_sector = bam.borrow().next_free_block(None)?;
+
         // Find the next available directory slot
         let mut entry = self.next_free_directory_entry()?;
 
-        // Find and allocate the first sector for this new file
-        let bam = self.bam()?;
+        // Allocate the first sector
         let mut bam = bam.borrow_mut();
-        let first_sector = bam.next_free_block(None)?;
         bam.allocate(first_sector)?;
 
         // Initialize the first sector with link bytes [0x00,0x01] to indicate that it
@@ -466,6 +472,10 @@ pub trait Disk {
             }
         }
 
+        // Persist the allocation.  (The BAM writer needs to borrow the block device.)
+        drop(blocks);
+        bam.flush()?;
+
         // Return the file handle
         Ok(File::Linear(LinearFile::new(
             self.blocks(),
-- 
2.43.0


From 4a205d137ef49a71114594bc0c84c64629880f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 02/24] fix: persist the BAM allocation of a new directory
 sector

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 3ccc898..c517eb0 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -771,6 +771,7 @@ where
     {
         let mut bam = bam.borrow_mut();
         bam.allocate(new_sector)?;
+        bam.flush()?;
     }
 
     // Link to the new sector from the old sector
-- 
2.43.0


From 0a8fc828814b88efbf39f20012455caff471a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 03/24] fix: resetting a directory entry resets its storage
 scheme

A file created in a slot left by a deleted GEOS or REL file returned a handle
whose entry still claimed the old storage scheme.
---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index c517eb0..217d230 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -456,6 +456,7 @@ impl DirectoryEntry {
         self.first_sector = Location::new(0, 0);
         self.filename = Petscii::from_bytes(&[0u8; ENTRY_FILENAME_LENGTH]);
         self.extra = Extra::default();
+        self.scheme = Scheme::Linear;
         self.file_size = 0;
         // The position field must be left untouched.
     }
-- 
2.43.0


From cc352254ce239fd3409670862c98130fad92283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 04/24] fix: ignore a partial trailing entry when searching for
 a free directory slot

A directory sector whose used size is not a multiple of the entry size made
the search panic.  The directory iterator already skips such entries.
---
 src/disk/directory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 217d230..dcc4695 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -717,7 +717,7 @@ where
             let ChainSector { data, location } = chain_block?;
             last_sector = location;
             let mut offset: u8 = 0;
-            for chunk in data.chunks(ENTRY_SIZE) {
+            for chunk in data.chunks_exact(ENTRY_SIZE) {
                 let entry = DirectoryEntry::from_positioned_bytes(
                     chunk,
                     Position {
-- 
2.43.0


From 839d626cdf74cbc69c06725d2c9f424261c95309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 05/24] fix: write the record length of relative files into
 directory entries

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index dcc4695..83ebcfa 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -282,6 +282,7 @@ impl RelativeExtra {
         assert_eq!(bytes.len(), EXTRA_SIZE);
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET] = self.first_side_sector.0;
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET + 1] = self.first_side_sector.1;
+        bytes[Self::RECORD_LENGTH_OFFSET] = self.record_length;
         (&mut bytes[Self::UNUSED_OFFSET..EXTRA_SIZE]).copy_from_slice(&self.unused);
     }
 }
-- 
2.43.0


From 694f2d543042d5a2ff4decbf6fbe03dba76349e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 06/24] fix: write the description of a GEOS info block to its
 own field

It was copied into the application field, whose size differs, so rendering an
info block always panicked.
---
 src/disk/geos/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/geos/mod.rs b/src/disk/geos/mod.rs
index 924f454..09cd212 100644
--- a/src/disk/geos/mod.rs
+++ b/src/disk/geos/mod.rs
@@ -331,7 +331,7 @@ impl GEOSInfo {
             .slice_mut(Self::RESERVED_OFFSET, Self::RESERVED_SIZE)
             .copy_from_slice(&self.reserved);
         self.description
-            .to_bytes(bytes.slice_mut(Self::APPLICATION_OFFSET, Self::APPLICATION_SIZE));
+            .to_bytes(bytes.slice_mut(Self::DESCRIPTION_OFFSET, Self::DESCRIPTION_SIZE));
     }
 }
 
-- 
2.43.0


From 4787aeae84647749f527f884cfe1ca80b739a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 07/24] fix: do not treat the link bytes of a VLIR index block
 as record 0

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 7970c11..8e02164 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -27,7 +27,8 @@ impl GEOSFile {
         // If VLIR, parse the index block.
         let vlir = if entry.is_vlir()? {
             let blocks = blocks.borrow();
-            let index_block = blocks.sector(entry.first_sector)?;
+            // Skip the link bytes, which are not part of the index.
+            let index_block = &blocks.sector(entry.first_sector)?[2..];
             let records: Vec<Option<Location>> = index_block
                 .chunks(2)
                 .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
-- 
2.43.0


From 62490eecd216402d2db8b5532fb4387a4d6be293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 08/24] fix: consume the bytes a GEOSReader hands out when the
 caller's buffer is filled

---
 src/disk/geos/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index dfa2a1c..347adb0 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -213,6 +213,9 @@ impl Read for GEOSReader {
             let _ = &mut buf[..bytes].copy_from_slice(&self.buffer[..bytes]);
             bytes_written += bytes;
 
+            // Reduce the input buffer
+            self.buffer.drain(0..bytes);
+
             if bytes == buf.len() {
                 // Output buffer filled -- nothing more to do for now.
                 break;
@@ -223,9 +226,6 @@ impl Read for GEOSReader {
             let value: &mut [u8] = std::mem::take(buf_ref);
             *buf_ref = &mut value[bytes..];
 
-            // Reduce the input buffer
-            self.buffer.drain(0..bytes);
-
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-- 
2.43.0


From fcbd32a2f2c41061dd2aa3a6dde759db3573058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 09/24] fix: report a malformed relative file instead of
 panicking

---
 src/disk/file.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index 35b6c9c..d5769d3 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -340,6 +340,9 @@ impl RelativeFile {
             Extra::Relative(ref e) => (e.record_length as usize, e.first_side_sector),
             _ => return Err(DiskError::InvalidRelativeFile.into()),
         };
+        if record_size == 0 {
+            return Err(DiskError::InvalidRelativeFile.into());
+        }
 
         // Find side sectors.  Side sector locations are stored redundantly -- once as
         // a linked chain of sectors, and also as a list within each side
@@ -354,16 +357,6 @@ impl RelativeFile {
             let sector = sector?;
             side_sectors.push(sector.location);
 
-            // Process the list of side sectors which is contained within each side sector.
-            let list_bytes = &sector.data
-                [SIDE_SECTOR_SSLIST_OFFSET..SIDE_SECTOR_SSLIST_OFFSET + MAX_SIDE_SECTORS * 2];
-            let list: Vec<Location> = list_bytes
-                .chunks(2)
-                .map(|c| Location::new(c[0], c[1]))
-                .filter(|l| l.0 != 0)
-                .collect();
-            side_sector_lists.push(list);
-
             // How many bytes are used in this side sector?
             let size = match ChainLink::new(&sector.data)? {
                 ChainLink::Next(_) => BLOCK_SIZE,
@@ -374,6 +367,16 @@ impl RelativeFile {
                 return Err(DiskError::InvalidRelativeFile.into());
             }
 
+            // Process the list of side sectors which is contained within each side sector.
+            let list_bytes = &sector.data
+                [SIDE_SECTOR_SSLIST_OFFSET..SIDE_SECTOR_SSLIST_OFFSET + MAX_SIDE_SECTORS * 2];
+            let list: Vec<Location> = list_bytes
+                .chunks(2)
+                .map(|c| Location::new(c[0], c[1]))
+                .filter(|l| l.0 != 0)
+                .collect();
+            side_sector_lists.push(list);
+
             // Extract the data locations contained in this side sector.
             let mut sectors: Vec<Location> = sector.data[SIDE_SECTOR_DATA_OFFSET..size]
                 .chunks(2)
-- 
2.43.0


From 462e1202f1141558b6fb59b4121f44cab233effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:27 +0000
Subject: [PATCH 10/24] fix: persist the release of side sectors and GEOS info
 blocks on deletion

---
 src/disk/file.rs      | 1 +
 src/disk/geos/file.rs | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index d5769d3..bf03280 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -483,6 +483,7 @@ impl FileOps for RelativeFile {
         for side_sector in self.side_sectors.iter() {
             self.bam.borrow_mut().free(*side_sector)?
         }
+        self.bam.borrow_mut().flush()?;
 
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 8e02164..c15f9f5 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -98,7 +98,9 @@ impl FileOps for GEOSFile {
 
         // Deallocate the info block, if present.
         if let Some(info_location) = self.entry.info_location()? {
-            self.bam.borrow_mut().free(info_location)?
+            let mut bam = self.bam.borrow_mut();
+            bam.free(info_location)?;
+            bam.flush()?;
         }
 
         // If this is a VLIR file, deallocate the VLIR records.
-- 
2.43.0


From b7a6d2ef729ed224ac8ef18e60d457718f5ba3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:10 +0000
Subject: [PATCH 11/24] fix: report locations outside the BAM as invalid
 instead of panicking

---
 src/disk/bam.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index ef90a2f..9cfe97f 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -275,22 +275,37 @@ impl Bam {
 
     pub fn entry(&self, track: u8) -> io::Result<&BamEntry> {
         self.check_validity()?;
-        Ok(&self.entries[(track - 1) as usize])
+        (track as usize)
+            .checked_sub(1)
+            .and_then(|index| self.entries.get(index))
+            .ok_or_else(|| DiskError::InvalidLocation.into())
     }
 
     pub fn entry_mut(&mut self, track: u8) -> io::Result<&mut BamEntry> {
         self.check_validity()?;
-        Ok(&mut self.entries[(track - 1) as usize])
+        (track as usize)
+            .checked_sub(1)
+            .and_then(move |index| self.entries.get_mut(index))
+            .ok_or_else(|| DiskError::InvalidLocation.into())
+    }
+
+    /// Return an error if the location is not covered by this BAM.
+    fn check_location(&self, location: Location) -> io::Result<()> {
+        self.entry(location.0)?;
+        if location.1 >= self.format.tracks[location.0 as usize].sectors {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
     }
 
     pub fn allocate(&mut self, location: Location) -> io::Result<()> {
-        self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.allocate(location.1);
         Ok(())
     }
 
     pub fn free(&mut self, location: Location) -> io::Result<()> {
-        self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.free(location.1);
         Ok(())
     }
-- 
2.43.0


From 0f3d221707a2e1481d9a9498401aa618577214e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:30 +0000
Subject: [PATCH 12/24] fix: a deletion that fails leaves the allocation map
 unchanged

---
 src/disk/bam.rs       | 11 +++++++++++
 src/disk/chain.rs     | 21 ++++++++++++++-------
 src/disk/file.rs      | 17 +++++------------
 src/disk/geos/file.rs | 23 ++++-------------------
 4 files changed, 34 insertions(+), 38 deletions(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index 9cfe97f..73aa8a0 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -310,6 +310,17 @@ impl Bam {
         Ok(())
     }
 
+    /// Free all the provided locations, or none of them if any is invalid.
+    pub fn free_all(&mut self, locations: &[Location]) -> io::Result<()> {
+        for location in locations {
+            self.check_location(*location)?;
+        }
+        for location in locations {
+            self.free(*location)?;
+        }
+        Ok(())
+    }
+
     pub fn next_free_block(&self, previous: Option<Location>) -> io::Result<Location> {
         self.check_validity()?;
         self.format.next_free_block(self, previous)
diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 03e3365..e934b00 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -366,14 +366,21 @@ impl io::Write for ChainWriter {
 pub fn remove_chain(blocks: BlockDeviceRef, bam: BamRef, start: Location) -> io::Result<()> {
     // Read the whole chain first to be sure we can visit every block with no
     // errors.
-    let locations = ChainIterator::new(blocks, start).locations()?;
+    let locations = ChainIterator::new(blocks.clone(), start).locations()?;
 
     // Deallocate
-    let mut bam = bam.borrow_mut();
-    for location in locations {
-        bam.free(location)?;
-    }
-    bam.flush()?;
+    remove_locations(blocks, bam, &locations)
+}
 
-    Ok(())
+/// Deallocate the provided sectors and persist the updated BAM.  If this is not
+/// possible, the BAM is left unchanged.
+pub fn remove_locations(
+    blocks: BlockDeviceRef,
+    bam: BamRef,
+    locations: &[Location],
+) -> io::Result<()> {
+    blocks.borrow().check_writability()?;
+    let mut bam = bam.borrow_mut();
+    bam.free_all(locations)?;
+    bam.flush()
 }
diff --git a/src/disk/file.rs b/src/disk/file.rs
index bf03280..ed54ae9 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -472,18 +472,11 @@ impl FileOps for RelativeFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate side sectors
-        for side_sector in self.side_sectors.iter() {
-            self.bam.borrow_mut().free(*side_sector)?
-        }
-        self.bam.borrow_mut().flush()?;
+        // Deallocate the chain and the side sectors.
+        let mut locations =
+            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
+        locations.extend(self.side_sectors.iter());
+        chain::remove_locations(self.blocks.clone(), self.bam.clone(), &locations)?;
 
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index c15f9f5..5391499 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -89,26 +89,11 @@ impl FileOps for GEOSFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the main chain (Sequential) or index block (VLIR).
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate the info block, if present.
-        if let Some(info_location) = self.entry.info_location()? {
-            let mut bam = self.bam.borrow_mut();
-            bam.free(info_location)?;
-            bam.flush()?;
-        }
+        // Deallocate the main chain (Sequential) or index block (VLIR), the info
+        // block, if present, and the VLIR records, if any.
+        let locations = self.occupied_sectors()?;
+        chain::remove_locations(self.blocks.clone(), self.bam.clone(), &locations)?;
 
-        // If this is a VLIR file, deallocate the VLIR records.
-        if let Some(ref records) = self.vlir {
-            for record in records.iter().flatten() {
-                chain::remove_chain(self.blocks.clone(), self.bam.clone(), *record)?;
-            }
-        }
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
         self.entry.file_attributes.closed_flag = false;
-- 
2.43.0


From d0ee0871e36d1e41235111fa1a4ff57855fcf8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:30 +0000
Subject: [PATCH 13/24] fix: detect chain loops when opening a file for writing

---
 src/disk/chain.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index e934b00..add39c8 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -220,7 +220,13 @@ impl ChainWriter {
 
             let mut block = blocks.sector(start)?;
             tail_location = start;
+            let mut visited_sectors = HashSet::new();
+            visited_sectors.insert(start);
             while let ChainLink::Next(location) = ChainLink::new(block)? {
+                // Loop detection.
+                if !visited_sectors.insert(location) {
+                    return Err(DiskError::ChainLoop.into());
+                }
                 block = blocks.sector(location)?;
                 tail_location = location;
             }
-- 
2.43.0


From 7585c1be22574a3bfae29590d0ab3b7bc1791b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:09 +0000
Subject: [PATCH 14/24] fix: return the data read before a broken link instead
 of discarding it

---
 src/disk/chain.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index add39c8..e755789 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -134,6 +134,9 @@ pub struct ChainReader {
     chain: ChainIterator,
     block: Option<Vec<u8>>,
     eof: bool,
+    /// An error to be reported by the next read, because the current one has data
+    /// to return.
+    error: Option<io::Error>,
 }
 
 impl ChainReader {
@@ -143,12 +146,16 @@ impl ChainReader {
             chain,
             block: None,
             eof: false,
+            error: None,
         }
     }
 }
 
 impl io::Read for ChainReader {
     fn read(&mut self, mut buf: &mut [u8]) -> io::Result<usize> {
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
         let mut total_nbytes = 0;
         while !buf.is_empty() && !self.eof {
             match self.block.take() {
@@ -183,7 +190,10 @@ impl io::Read for ChainReader {
                         }
                         Some(Err(e)) => {
                             self.eof = true;
-                            return Err(e);
+                            if total_nbytes == 0 {
+                                return Err(e);
+                            }
+                            self.error = Some(e);
                         }
                         None => self.eof = true,
                     }
-- 
2.43.0


From 2a42d5ffdc48a3b0ecbb79ced821ed99641ff477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:09 +0000
Subject: [PATCH 15/24] fix: report the bytes written before the disk is full

---
 src/disk/chain.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index e755789..4acfc90 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -340,7 +340,13 @@ impl io::Write for ChainWriter {
                 ChainLink::Next(_) => unreachable!(), // The stored buffer is always a tail block.
                 ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {
                     // Allocate a new block
-                    let remaining = self.allocate_next_block()?;
+                    let remaining = match self.allocate_next_block() {
+                        Ok(remaining) => remaining,
+                        // Some bytes have been written, so report those.  The error will be
+                        // reported by the next write.
+                        Err(_) if total_nbytes > 0 => break,
+                        Err(e) => return Err(e),
+                    };
                     (BLOCK_SIZE - remaining, remaining)
                 }
                 ChainLink::Tail(nbytes) => (nbytes, BLOCK_SIZE - nbytes),
-- 
2.43.0


From a90a7be6ad9b83e9f81b9f6f6178b73c4031b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:09 +0000
Subject: [PATCH 16/24] fix: do not overflow the block count of a directory
 entry

---
 src/disk/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 4acfc90..433d81a 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -256,7 +256,7 @@ impl ChainWriter {
     fn increment_entry_blocks(&mut self) -> io::Result<()> {
         let mut blocks = self.blocks.borrow_mut();
         blocks.positioned_read(&mut self.entry)?;
-        self.entry.file_size += 1;
+        self.entry.file_size = self.entry.file_size.saturating_add(1);
         blocks.positioned_write(&self.entry)?;
         Ok(())
     }
-- 
2.43.0


From 1fc3aad6c755e11647954c1b80def23244e0a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:23 +0000
Subject: [PATCH 17/24] fix: check the disk name before erasing the disk

---
 src/disk/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index b38082e..e5153d9 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -285,6 +285,11 @@ pub trait Disk {
     fn write_format(&mut self, name: &Petscii, id: &Id) -> io::Result<()> {
         let disk_format = self.native_disk_format();
 
+        // Refuse names that don't fit before anything is erased.
+        if name.len() > DISK_NAME_SIZE {
+            return Err(DiskError::FilenameTooLong.into());
+        }
+
         // Zero all sectors
         let track_count = self.blocks_ref().geometry().tracks;
         for track in disk_format.first_track..=track_count {
-- 
2.43.0


From 313e94afb200518aa2cb28d95aecb6608caa957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:54 +0000
Subject: [PATCH 18/24] fix: creating an image replaces an existing file or
 makes a new one

With create_new=false, the documentation promises that any existing file
is overwritten; instead a missing file was an error, and the contents of
an existing one (including an error table or an old directory) survived.
---
 src/disk/image.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disk/image.rs b/src/disk/image.rs
index ccad6ed..136f11b 100644
--- a/src/disk/image.rs
+++ b/src/disk/image.rs
@@ -34,6 +34,8 @@ impl Image {
         let file = OpenOptions::new()
             .read(true)
             .write(true)
+            .create(true)
+            .truncate(true)
             .create_new(create_new)
             .open(path)?;
         file.set_len(length as u64)?;
-- 
2.43.0


From ef6bf618848e1914d0b05aae8027937b8d03bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:19 +0000
Subject: [PATCH 19/24] fix: refuse record indices past the only record of a
 GEOS sequential file

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 5391499..e3751fb 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -60,7 +60,8 @@ impl GEOSFile {
                 Some(location) => *location,
                 None => return Err(DiskError::InvalidRecordIndex.into()),
             },
-            None => Some(self.entry.first_sector),
+            None if index == 0 => Some(self.entry.first_sector),
+            None => return Err(DiskError::InvalidRecordIndex.into()),
         })
     }
 
-- 
2.43.0


From 316d7f8c6b7fb5d5fa2a048c915098596711f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:56 +0000
Subject: [PATCH 20/24] fix: never allocate a file's first block on the 1571's
 reserved track

---
 src/disk/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/format.rs b/src/disk/format.rs
index 314d58f..cfa6259 100644
--- a/src/disk/format.rs
+++ b/src/disk/format.rs
@@ -166,7 +166,7 @@ impl DiskFormat {
             }
             // Check top half
             let track = self.directory_track + distance;
-            if track <= self.last_track {
+            if track <= self.last_track && !self.is_reserved_track(track) {
                 let entry = bam.entry(track)?;
                 if entry.has_availability() {
                     return Ok((track, entry));
-- 
2.43.0


From 73c93cb440acbc023c8d25ae6566fa62dd07d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:05 +0000
Subject: [PATCH 21/24] fix: cdisk reports failure with its exit status

---
 src/bin/cdisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9551127..31bff5f 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -200,6 +200,7 @@ fn main() {
     };
     if let Err(e) = result {
         eprintln!("Error: {}", e);
+        process::exit(EXIT_FAILURE);
     }
 }
 
-- 
2.43.0


From 15483e8bb5cac8ea74dcce614ba18c16bc754cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:05 +0000
Subject: [PATCH 22/24] fix: cdisk append opens the image for writing

---
 src/bin/cdisk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 31bff5f..38ade59 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -320,7 +320,8 @@ fn open_cbm_reader(diskimage: &str, filename: &str) -> io::Result<Box<dyn Read>>
 
 /// Open a file on a CBM disk image for appending.
 fn open_cbm_appender(diskimage: &str, filename: &str) -> io::Result<Box<dyn Write>> {
-    Ok(Box::new(open_cbm_file(diskimage, filename)?.writer()?))
+    let disk = disk::open(diskimage, true)?;
+    Ok(Box::new(disk.open_file(&filename.into())?.writer()?))
 }
 
 /// Open an existing GEOS file from the specified disk image for reading.
-- 
2.43.0


From e8d0d0bb85de56ccc719c99997009a02487ed744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 23/24] fix: cdisk geosread refuses files that are not GEOS
 files

---
 src/bin/cdisk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 38ade59..42c6ca8 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -332,7 +332,12 @@ fn open_geos_file(diskimage: &str, filename: &str) -> io::Result<GEOSFile> {
     let file = match file {
         File::GEOSVLIR(f) => f,
         File::GEOSSequential(f) => f,
-        _ => unreachable!(),
+        _ => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "not a GEOS file",
+            ))
+        }
     };
     Ok(file)
 }
-- 
2.43.0


From a6cd1e38c3fd852e681d4a9b838f8fc48296e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 24/24] fix: cdisk bam edits exactly the sectors the disk has

---
 src/bin/cdisk.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 42c6ca8..4b1d988 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -6,7 +6,7 @@ use std::process;
 use cbm::disk::directory::FileType;
 use cbm::disk::file::{File, FileOps, Scheme};
 use cbm::disk::geos::GEOSFile;
-use cbm::disk::{self, D64, D71, D81, DiskType};
+use cbm::disk::{self, DiskError, DiskType, D64, D71, D81};
 use cbm::Petscii;
 
 // Possible exit codes
@@ -225,22 +225,22 @@ fn optional_u8_validator(v: String, min: u8, max: u8) -> Result<(), String> {
     }
 }
 
-/// Require a track argument to be a number in the range 1-40 or "all".
+/// Require a track argument to be a number in the range 1-80 or "all".
 fn optional_track_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 1, 40)
+    optional_u8_validator(v, 1, 80)
 }
 
 fn optional_track_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 1, 40).unwrap()
+    optional_u8_parser(v, 1, 80).unwrap()
 }
 
-/// Require a sector argument to be a number in the range 0-20 or "all".
+/// Require a sector argument to be a number in the range 0-39 or "all".
 fn optional_sector_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 0, 20)
+    optional_u8_validator(v, 0, 39)
 }
 
 fn optional_sector_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 0, 20).unwrap()
+    optional_u8_parser(v, 0, 39).unwrap()
 }
 
 /// A FillReader is simply a reader that supplies a certain number of the
@@ -286,7 +286,7 @@ fn cmd_bam_edit(
     let mut bam = bam.borrow_mut();
     let track_range = match track {
         Some(t) => t..=t,
-        None => 1..=35,
+        None => format.first_track..=format.last_track,
     };
     for track in track_range {
         let entry = bam.entry_mut(track)?;
@@ -294,6 +294,9 @@ fn cmd_bam_edit(
             Some(s) => s..=s,
             None => 0..=(format.sectors_in_track(track) - 1),
         };
+        if *sector_range.end() >= format.sectors_in_track(track) {
+            return Err(DiskError::InvalidLocation.into());
+        }
         for sector in sector_range {
             if allocate {
                 entry.allocate(sector);
-- 
2.43.0

