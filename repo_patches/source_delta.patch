From 0f753a48d502f1db0b6f710757ae4f1678eb48ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 01/38] fix: a commit after a failed fsync of a pack no longer
 reports success

The OS may drop the dirty pages when fsync fails, so a later fsync that succeeds does not
make them durable. Latch the failure in the pack, as append failures already are.
---
 crates/storage/src/archive/pack.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/archive/pack.rs b/crates/storage/src/archive/pack.rs
index c1fabf0..cb1c782 100644
--- a/crates/storage/src/archive/pack.rs
+++ b/crates/storage/src/archive/pack.rs
@@ -357,7 +357,13 @@ where
         }
         self.failed_cause().map_err(CommitError::Failed)?;
         self.flush().map_err(CommitError::Flush)?;
-        self.data_file.sync_all().map_err(CommitError::DataFileSync)?;
+        if let Err(err) = self.data_file.sync_all() {
+            // After a failed fsync the OS may have dropped the dirty pages, so a retry that
+            // succeeds proves nothing about them: latch the failure instead of letting a later
+            // commit report bytes durable that never reached the disk.
+            self.failed = Some(Self::copy_io_error(&err));
+            return Err(CommitError::DataFileSync(err));
+        }
         Ok(())
     }
 
-- 
2.43.0


From 33463a798685341f3f8daf727c9fc4c955b628d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 02/38] fix: a partly written pack buffer is not written a
 second time

write_all reports an error without saying how much it wrote. After one, the whole buffer was
kept and written again by the next flush, commit or drop, which left a broken record in the
middle of the file under a commit that reported success.
---
 crates/storage/src/archive/data_file.rs | 40 +++++++++++++++++--------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/crates/storage/src/archive/data_file.rs b/crates/storage/src/archive/data_file.rs
index c93b5de..a5fc96e 100644
--- a/crates/storage/src/archive/data_file.rs
+++ b/crates/storage/src/archive/data_file.rs
@@ -135,9 +135,7 @@ impl DataFile {
     /// Used to truncate an incomplete record.
     pub fn set_len(&mut self, len: u64) -> Result<(), io::Error> {
         if !self.read_only && !self.write_buffer.is_empty() {
-            self.data_file.write_all(&self.write_buffer)?;
-            self.data_file_end += self.write_buffer.len() as u64;
-            self.write_buffer.clear();
+            self.write_out()?;
         }
         self.data_file.set_len(len)?;
         self.data_file_end = len;
@@ -219,6 +217,30 @@ impl DataFile {
         res.map_err(RenameError::RenameIO)
     }
 
+    /// Write the write buffer to the file.  On an error keep only the bytes the file has not
+    /// taken, so a retry does not write the start of the buffer a second time.
+    fn write_out(&mut self) -> io::Result<()> {
+        let mut written = 0;
+        let mut res = Ok(());
+        while written < self.write_buffer.len() {
+            match self.data_file.write(&self.write_buffer[written..]) {
+                Ok(0) => {
+                    res = Err(io::ErrorKind::WriteZero.into());
+                    break;
+                }
+                Ok(n) => written += n,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                Err(e) => {
+                    res = Err(e);
+                    break;
+                }
+            }
+        }
+        self.data_file_end += written as u64;
+        self.write_buffer.drain(..written);
+        res
+    }
+
     /// Copy bytes from the read buffer into buf.  This expects seek_pos to be within the
     /// read_buffer (will panic if called incorrectly).
     fn copy_read_buffer(&mut self, buf: &mut [u8]) -> io::Result<usize> {
@@ -337,9 +359,7 @@ impl Write for DataFile {
             Err(io::Error::new(io::ErrorKind::ReadOnlyFilesystem, "file not open for write"))
         } else {
             if self.write_buffer.len() >= self.write_buffer_size as usize {
-                self.data_file.write_all(&self.write_buffer)?;
-                self.data_file_end += self.write_buffer.len() as u64;
-                self.write_buffer.clear();
+                self.write_out()?;
             }
             let write_buffer_len = self.write_buffer.len();
             let write_capacity = self.write_buffer_size as usize - write_buffer_len;
@@ -349,9 +369,7 @@ impl Write for DataFile {
                 Ok(buf_len)
             } else {
                 self.write_buffer.write_all(&buf[..write_capacity])?;
-                self.data_file.write_all(&self.write_buffer)?;
-                self.data_file_end += self.write_buffer.len() as u64;
-                self.write_buffer.clear();
+                self.write_out()?;
                 Ok(write_capacity)
             }
         }
@@ -359,9 +377,7 @@ impl Write for DataFile {
 
     fn flush(&mut self) -> io::Result<()> {
         if !self.read_only {
-            self.data_file.write_all(&self.write_buffer)?;
-            self.data_file_end += self.write_buffer.len() as u64;
-            self.write_buffer.clear();
+            self.write_out()?;
         }
         Ok(())
     }
-- 
2.43.0


From 9d04e006e98dc0bf9aa098f23c9fe7acc0dd64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 03/38] fix: a failed write of an index bucket no longer drops
 the other dirty buckets

save_bucket_cache drained the dirty buckets before writing them. After one write error the rest
were gone: lookups returned what was on disk before and the next sync reported success.
---
 crates/storage/src/archive/digest_index/index.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 88ed0c3..c396620 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -510,13 +510,23 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         // Drain into a local buffer first so we can call &mut self helpers below; the heap
         // buffers are moved (not copied) so this is cheap.
         let dirty: Vec<(u64, Vec<u8>)> = self.dirty_bucket_cache.drain().collect();
-        for (bucket, mut buffer) in dirty {
+        let mut dirty = dirty.into_iter();
+        while let Some((bucket, mut buffer)) = dirty.next() {
             let bucket_pos: u64 =
                 (header_size + BLOOM_SIZE_BYTES + (bucket as usize * bucket_size)) as u64;
             add_crc32(&mut buffer[..]);
             // Seeking and writing past the file end extends it.
-            self.hdx_file.seek(SeekFrom::Start(bucket_pos))?;
-            self.hdx_file.write_all(&buffer[..])?;
+            let written = self
+                .hdx_file
+                .seek(SeekFrom::Start(bucket_pos))
+                .and_then(|_| self.hdx_file.write_all(&buffer[..]));
+            if let Err(err) = written {
+                // Keep what was not written dirty, otherwise the next sync would report success
+                // for buckets that never reached the file.
+                self.dirty_bucket_cache.insert(bucket, buffer);
+                self.dirty_bucket_cache.extend(dirty);
+                return Err(err);
+            }
             // Route through the FIFO-bounded cache so the clean cache stays capped at
             // CACHED_BUCKETS rather than retaining every bucket ever flushed.
             self.add_bucket_to_cache(bucket, buffer);
-- 
2.43.0


From efbfb6d4ebd3a84838c4a43d45a44213885cfe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 04/38] fix: a position index refuses saves after a save that
 failed part way

A failed write can leave part of a value in the write buffer. The next save appended after it, so
that every later entry was shifted and read back as garbage.
---
 .../src/archive/position_index/index.rs       | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/storage/src/archive/position_index/index.rs b/crates/storage/src/archive/position_index/index.rs
index cdff688..cc83aa3 100644
--- a/crates/storage/src/archive/position_index/index.rs
+++ b/crates/storage/src/archive/position_index/index.rs
@@ -113,6 +113,8 @@ pub struct PositionIndex<T> {
     _header: PdxHeader,
     pdx_file: DataFile,
     _index_dir: PathBuf,
+    /// Set once a value may have been written in part: the next one would land mid-stride.
+    failed: bool,
     _phantom: PhantomData<T>,
 }
 
@@ -171,8 +173,13 @@ impl<T: PosIndexValue> PositionIndex<T> {
             }
             header
         };
-        let mut index =
-            Self { _header: header, pdx_file, _index_dir: dir.to_owned(), _phantom: PhantomData };
+        let mut index = Self {
+            _header: header,
+            pdx_file,
+            _index_dir: dir.to_owned(),
+            failed: false,
+            _phantom: PhantomData,
+        };
         // The file must always be a whole number of records after the header.  A misaligned
         // tail means either a torn final record (crash mid-write) or a file written with a
         // different value type than `T`.
@@ -193,6 +200,14 @@ impl<T: PosIndexValue> PositionIndex<T> {
         Ok(index)
     }
 
+    /// The error for using an index after a write to it has failed.
+    fn failed_error(&self) -> io::Error {
+        io::Error::other(format!(
+            "{} is in failed state, reopen it to repair",
+            self.pdx_file.path().to_string_lossy()
+        ))
+    }
+
     /// Return the number of values in this index.
     pub fn len(&self) -> usize {
         let len = self.pdx_file.len() as usize;
@@ -245,7 +260,9 @@ impl<T: PosIndexValue> PositionIndex<T> {
 
 impl<T: PosIndexValue> Index<u64, T> for PositionIndex<T> {
     fn save(&mut self, key: u64, value: T) -> Result<(), AppendError> {
-        if self.len() != key as usize {
+        if self.failed {
+            Err(AppendError::WriteDataError(self.failed_error()))
+        } else if self.len() != key as usize {
             Err(AppendError::SerializeValue(format!(
                 "{} must add the next item by position, expected {} got {key}",
                 self.pdx_file.path().to_string_lossy(),
@@ -255,7 +272,10 @@ impl<T: PosIndexValue> Index<u64, T> for PositionIndex<T> {
             let mut buffer = [0_u8; VALUE_MAX_BYTES];
             let buffer_len = T::buffer_len();
             value.encode(&mut buffer[0..buffer_len]);
-            self.pdx_file.write_all(&buffer[0..buffer_len])?;
+            if let Err(err) = self.pdx_file.write_all(&buffer[0..buffer_len]) {
+                self.failed = true;
+                return Err(err.into());
+            }
             Ok(())
         }
     }
@@ -273,6 +293,9 @@ impl<T: PosIndexValue> Index<u64, T> for PositionIndex<T> {
     }
 
     fn sync(&mut self) -> Result<(), CommitError> {
+        if self.failed {
+            return Err(CommitError::IndexFileSync(self.failed_error()));
+        }
         self.pdx_file.flush().map_err(CommitError::IndexFileSync)?;
         self.pdx_file.sync_all().map_err(CommitError::IndexFileSync)?;
         Ok(())
-- 
2.43.0


From d0b913d6f82de628904060ff41d2803af2fad63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 05/38] fix: a failed read of an overflow record is an error,
 not a missing digest

A lookup answered NotFound for a digest that is stored, and splitting a bucket dropped the digests
of the overflow record that could not be read.
---
 crates/storage/src/archive/digest_index/bucket_iter.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/bucket_iter.rs b/crates/storage/src/archive/digest_index/bucket_iter.rs
index 4891ce0..86c7c52 100644
--- a/crates/storage/src/archive/digest_index/bucket_iter.rs
+++ b/crates/storage/src/archive/digest_index/bucket_iter.rs
@@ -109,9 +109,11 @@ impl<'bucket> BucketIter<'bucket> {
         // Position of the record we are about to read; the overflow log is append-only so
         // any chained overflow record it points to must live at an earlier offset.
         let current_pos = self.overflow_pos;
-        odx_file.seek(SeekFrom::Start(current_pos)).ok()?;
-        odx_file.read_exact(&mut self.overflow_buffer[..]).ok()?;
-        if !check_crc(&self.overflow_buffer) {
+        let read = odx_file
+            .seek(SeekFrom::Start(current_pos))
+            .and_then(|_| odx_file.read_exact(&mut self.overflow_buffer[..]));
+        // An overflow record that can not be read must not look like the end of the bucket.
+        if read.is_err() || !check_crc(&self.overflow_buffer) {
             self.crc_failure = true;
             return None;
         }
-- 
2.43.0


From 324d13e896204e6f835a65193fcab40cb8f32969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 06/38] fix: a failed split of an index bucket leaves the
 bucket as it was

On a read error while splitting the bucket count had already grown and the items of the bucket, if
not yet written, were gone.
---
 .../storage/src/archive/digest_index/index.rs | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index c396620..777b028 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -557,6 +557,7 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         let old_modulus = self.modulus;
         // This is the bucket that is being split.
         let split_bucket = (self.buckets() - (old_modulus / 2)) as u64;
+        let split_buffer = self.remove_bucket(split_bucket)?;
         self.inc_buckets();
         // This is the newly created bucket that the items in split_bucket will possibly be moved
         // into.
@@ -564,17 +565,34 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         // Don't want buckets and modulus to be the same, so +1
         self.modulus = (self.buckets() + 1).next_power_of_two();
 
+        match self.split_bucket_buffer(split_bucket, new_bucket, &split_buffer) {
+            Ok((buffer, buffer2)) => {
+                self.dirty_bucket_cache.insert(split_bucket, buffer);
+                self.dirty_bucket_cache.insert(new_bucket, buffer2);
+                Ok(())
+            }
+            Err(err) => {
+                // Undo, the bucket still holds all of its items and is the next one to split.
+                self.header.buckets -= 1;
+                self.modulus = old_modulus;
+                self.dirty_bucket_cache.insert(split_bucket, split_buffer);
+                Err(err)
+            }
+        }
+    }
+
+    /// Divide the items of split_bucket between buffers for itself and new_bucket.
+    fn split_bucket_buffer(
+        &mut self,
+        split_bucket: u64,
+        new_bucket: u64,
+        split_buffer: &[u8],
+    ) -> Result<(Vec<u8>, Vec<u8>), AppendError> {
         let bucket_size = self.header.bucket_size() as usize;
         let mut buffer = vec![0; bucket_size];
         let mut buffer2 = vec![0; bucket_size];
 
-        let mut _t_buf = None;
-        let mut iter = if let Ok(buffer) = self.remove_bucket(split_bucket) {
-            _t_buf = Some(buffer);
-            BucketIter::new(_t_buf.as_ref().expect("not None"))
-        } else {
-            BucketIter::new_empty()
-        };
+        let mut iter = BucketIter::new(split_buffer);
         // Make sure we only keep the first (most recent) key if we find duplicates.
         let mut rec_hashes = BTreeSet::new();
         while let Some((rec_hash, rec_pos)) = self.next_bucket_element(&mut iter) {
@@ -602,9 +620,7 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
             return Err(AppendError::CrcError);
         }
         drop(iter);
-        self.dirty_bucket_cache.insert(split_bucket, buffer);
-        self.dirty_bucket_cache.insert(new_bucket, buffer2);
-        Ok(())
+        Ok((buffer, buffer2))
     }
 
     /// Save the (hash, position) tuple to the bucket.  Handles overflow records.
-- 
2.43.0


From 1f0352f2ff2f20d22193a85e4911ce9dfb0944a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 07/38] fix: reverse iteration of a position index ignores a
 partly saved value

It counted back from the end of the file, so that after a failed save every value came out shifted.
---
 crates/storage/src/archive/position_index/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/archive/position_index/index.rs b/crates/storage/src/archive/position_index/index.rs
index cc83aa3..ea2856f 100644
--- a/crates/storage/src/archive/position_index/index.rs
+++ b/crates/storage/src/archive/position_index/index.rs
@@ -234,7 +234,9 @@ impl<T: PosIndexValue> PositionIndex<T> {
         let data_len = if len < self.len() { len } else { self.len() };
         let buffer_len = T::buffer_len();
         let mut data = vec![0_u8; data_len * buffer_len];
-        self.pdx_file.seek(SeekFrom::End(-(data_len as i64 * buffer_len as i64)))?;
+        // From the start: after a failed save the file can end in a part of a value.
+        let skip = (self.len() - data_len) * buffer_len;
+        self.pdx_file.seek(SeekFrom::Start((PDX_HEADER_SIZE + skip) as u64))?;
         self.pdx_file.read_exact(data.as_mut_slice())?;
         Ok(PositionIter::new_rev(data))
     }
-- 
2.43.0


From d8bc5e4d73236973546c410513db4a469c952b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 08/38] fix: a sync of an index after a failed fsync no longer
 reports success

The OS may drop the dirty pages when fsync fails, so a later fsync that succeeds does not make them
durable. Latch the failure in both indexes, as the pack does.
---
 crates/storage/src/archive/digest_index/index.rs  | 15 +++++++++++++--
 .../storage/src/archive/position_index/index.rs   |  9 +++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 777b028..3274efc 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -256,6 +256,9 @@ pub struct HdxIndex<
     hasher_builder: S,
     read_only: bool,
     synced: bool,
+    /// Set once an fsync has failed: the OS may have dropped the dirty pages, so a later fsync
+    /// that succeeds says nothing about them.
+    sync_failed: bool,
     bloom: Bloom,
     _index_dir: PathBuf,
 }
@@ -387,6 +390,7 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
             hasher_builder,
             read_only,
             synced: true,
+            sync_failed: false,
             bloom,
             _index_dir: dir.to_owned(),
         })
@@ -814,8 +818,15 @@ impl<const KSIZE: usize, S: BuildHasher + Default> Index<B256, u64> for HdxIndex
         } else {
             self.save_bucket_cache().map_err(CommitError::IndexFileSync)?;
             self.write_header().map_err(CommitError::IndexFileSync)?;
-            self.odx_file.sync_all().map_err(CommitError::IndexFileSync)?;
-            self.hdx_file.sync_all().map_err(CommitError::IndexFileSync)?;
+            if self.sync_failed {
+                return Err(CommitError::IndexFileSync(io::Error::other(
+                    "an earlier sync of this index failed, reopen it",
+                )));
+            }
+            if let Err(err) = self.odx_file.sync_all().and_then(|_| self.hdx_file.sync_all()) {
+                self.sync_failed = true;
+                return Err(CommitError::IndexFileSync(err));
+            }
             self.synced = true;
             Ok(())
         }
diff --git a/crates/storage/src/archive/position_index/index.rs b/crates/storage/src/archive/position_index/index.rs
index ea2856f..2c2a7d8 100644
--- a/crates/storage/src/archive/position_index/index.rs
+++ b/crates/storage/src/archive/position_index/index.rs
@@ -113,7 +113,8 @@ pub struct PositionIndex<T> {
     _header: PdxHeader,
     pdx_file: DataFile,
     _index_dir: PathBuf,
-    /// Set once a value may have been written in part: the next one would land mid-stride.
+    /// Set once a value may have been written in part (the next one would land mid-stride) or an
+    /// fsync has failed.
     failed: bool,
     _phantom: PhantomData<T>,
 }
@@ -299,7 +300,11 @@ impl<T: PosIndexValue> Index<u64, T> for PositionIndex<T> {
             return Err(CommitError::IndexFileSync(self.failed_error()));
         }
         self.pdx_file.flush().map_err(CommitError::IndexFileSync)?;
-        self.pdx_file.sync_all().map_err(CommitError::IndexFileSync)?;
+        if let Err(err) = self.pdx_file.sync_all() {
+            // The OS may have dropped the dirty pages, a later fsync says nothing about them.
+            self.failed = true;
+            return Err(CommitError::IndexFileSync(err));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 4530de3a938dd9015b801d31080397c47516f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 09/38] fix: a failed read no longer leaves half filled read
 buffer in use

A read error while filling the buffer kept the old bounds of it, so that later reads within them
returned bytes of another part of the file. A position index has no checksum to notice.
---
 crates/storage/src/archive/data_file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/storage/src/archive/data_file.rs b/crates/storage/src/archive/data_file.rs
index a5fc96e..d8abed1 100644
--- a/crates/storage/src/archive/data_file.rs
+++ b/crates/storage/src/archive/data_file.rs
@@ -145,6 +145,8 @@ impl DataFile {
                 OpenOptions::new().read(true).append(!self.read_only).open(&self.data_file_path)?;
         }
         if self.read_buffer_start + self.read_buffer_len as u64 > len {
+            // As in read, nothing is valid until the buffer is filled.
+            self.read_buffer_len = 0;
             if self.data_file_end > 0 {
                 self.data_file.rewind()?;
                 if self.data_file_end < READ_BUFFER_SIZE as u64 {
@@ -155,8 +157,6 @@ impl DataFile {
                     self.data_file.read_exact(&mut self.read_buffer[..])?;
                     self.read_buffer_len = READ_BUFFER_SIZE;
                 }
-            } else {
-                self.read_buffer_len = 0;
             }
             self.read_buffer_start = 0;
         }
@@ -304,6 +304,8 @@ impl Read for DataFile {
             }
             end = self.data_file_end - seek_pos;
             if end > 0 {
+                // The buffer holds nothing valid until it is filled, also if that fails half way.
+                self.read_buffer_len = 0;
                 self.data_file.seek(SeekFrom::Start(seek_pos))?;
                 if end < self.read_buffer_size as u64 {
                     self.data_file.read_exact(&mut self.read_buffer[..end as usize])?;
-- 
2.43.0


From 82ef1e4b36bd8b0cecb3342751f832394ab48790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 10/38] fix: the layered database thread no longer compacts
 while it holds a write txn

---
 crates/storage/src/layered_db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/layered_db.rs b/crates/storage/src/layered_db.rs
index 9f952b5..78181b3 100644
--- a/crates/storage/src/layered_db.rs
+++ b/crates/storage/src/layered_db.rs
@@ -342,7 +342,9 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
             DBMessage::Shutdown => break,
         }
         // if it has been 24 hours since last compaction then do it again.
-        if last_compact.elapsed() > Duration::from_secs(86_400) {
+        // Never with a write txn open: a compaction waits for that txn, and only this thread can
+        // end it.
+        if txn.is_none() && last_compact.elapsed() > Duration::from_secs(86_400) {
             last_compact = Instant::now();
             if let Err(e) = db.compact() {
                 tracing::error!(target: "layered_db_runner", "DB ERROR compacting DB (background): {e}");
-- 
2.43.0


From 24b247c8dd7af719105d862e054fda952d7693f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 11/38] fix: an insert reaching the disk no longer clears a
 newer value from the mem layer

---
 crates/storage/src/layered_db.rs | 93 ++++++++++++++++++++++++++------
 1 file changed, 77 insertions(+), 16 deletions(-)

diff --git a/crates/storage/src/layered_db.rs b/crates/storage/src/layered_db.rs
index 78181b3..5f883df 100644
--- a/crates/storage/src/layered_db.rs
+++ b/crates/storage/src/layered_db.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashMap,
     fmt::Debug,
     future::Future,
     marker::PhantomData,
@@ -12,9 +13,60 @@ use std::{
 };
 
 use crate::mem_db::MemDatabase;
-use tn_types::{DBIter, Database, DbTx, DbTxMut, Table};
+use parking_lot::Mutex;
+use tn_types::{encode_key, DBIter, Database, DbTx, DbTxMut, Table};
 use tokio::sync::oneshot::{self, error::TryRecvError};
 
+/// Inserts that are in the mem layer of a cache mode DB and not on disk yet, by table and key.
+///
+/// A key may be inserted again before its earlier insert is on disk. The mem layer then holds the
+/// newer value, so only the last of the inserts to reach the disk may clear the key from it.
+#[derive(Clone, Debug, Default)]
+struct PendingInserts(Arc<Mutex<HashMap<(&'static str, Vec<u8>), usize>>>);
+
+impl PendingInserts {
+    /// Put the value into the mem layer and count its insert as pending.
+    fn insert<T: Table>(
+        &self,
+        mem_db: &MemDatabase,
+        key: &T::Key,
+        value: &T::Value,
+    ) -> eyre::Result<()> {
+        let mut pending = self.0.lock();
+        mem_db.insert::<T>(key, value)?;
+        *pending.entry((T::NAME, encode_key(key))).or_default() += 1;
+        Ok(())
+    }
+
+    /// An insert of the key reached the disk, clear it from the mem layer if it was the last one.
+    fn written<T: Table>(&self, mem_db: &MemDatabase, key: &T::Key) {
+        let mut pending = self.0.lock();
+        let entry = (T::NAME, encode_key(key));
+        if let Some(count) = pending.get_mut(&entry) {
+            *count -= 1;
+            if *count > 0 {
+                return;
+            }
+            pending.remove(&entry);
+        }
+        // Best effort to avoid memory growing forever.
+        let _ = mem_db.remove::<T>(key);
+    }
+}
+
+/// Insert into the mem layer, a cache mode DB also tracks that the insert is not on disk yet.
+fn insert_mem<T: Table>(
+    mem_db: &MemDatabase,
+    pending: Option<&PendingInserts>,
+    key: &T::Key,
+    value: &T::Value,
+) -> eyre::Result<()> {
+    match pending {
+        Some(pending) => pending.insert::<T>(mem_db, key, value),
+        None => mem_db.insert::<T>(key, value),
+    }
+}
+
 #[derive(Clone)]
 pub struct LayeredDbTx<DB: Database> {
     mem_db: MemDatabase,
@@ -72,6 +124,7 @@ impl<DB: Database> Drop for TxnGuard<DB> {
 #[derive(Clone)]
 pub struct LayeredDbTxMut<DB: Database> {
     mem_db: MemDatabase,
+    pending: Option<PendingInserts>,
     db: DB,
     tx: Sender<DBMessage<DB>>,
     guard: Arc<TxnGuard<DB>>,
@@ -95,7 +148,7 @@ impl<DB: Database> DbTx for LayeredDbTxMut<DB> {
 
 impl<DB: Database> DbTxMut for LayeredDbTxMut<DB> {
     fn insert<T: Table>(&mut self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
-        self.mem_db.insert::<T>(key, value)?;
+        insert_mem::<T>(&self.mem_db, self.pending.as_ref(), key, value)?;
         let ins = Box::new(KeyValueInsert::<T> { key: key.clone(), value: value.clone() });
         self.tx.send(DBMessage::Insert(ins)).map_err(|_| eyre::eyre!("DB thread gone, FATAL!"))?;
         Ok(())
@@ -160,7 +213,7 @@ pub struct LayeredDbStats {
 fn end_txn<'a, DB: Database>(
     txn: &mut Option<(DB::TXMut<'a>, u32)>,
     committed_inserts: &mut Vec<Box<dyn InsertTrait<DB>>>,
-    mem_db: Option<&MemDatabase>,
+    mem_db: Option<&(MemDatabase, PendingInserts)>,
 ) -> Option<eyre::Result<()>> {
     let (current_txn, count) = txn.take()?;
     if count <= 1 {
@@ -169,8 +222,10 @@ fn end_txn<'a, DB: Database>(
             tracing::error!(target: "layered_db_runner", "DB TXN Commit: {e}");
         }
         if committed.is_ok() {
-            if let Some(mem_db) = mem_db {
-                committed_inserts.drain(..).for_each(|insert| insert.clear_insert_mem(mem_db));
+            if let Some((mem_db, pending)) = mem_db {
+                committed_inserts
+                    .drain(..)
+                    .for_each(|insert| insert.clear_insert_mem(mem_db, pending));
             }
         }
         Some(committed)
@@ -200,7 +255,11 @@ fn ack_pending_durable(
 
 /// Run the thread to manage the persistant DB in the background.
 /// If DB needs compaction this thread will compact on startup and once a day after that.
-fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMessage<DB>>) {
+fn db_run<DB: Database>(
+    db: DB,
+    mem_db: Option<(MemDatabase, PendingInserts)>,
+    rx: Receiver<DBMessage<DB>>,
+) {
     // Sticky durability-failure latch, owned entirely by this runner thread (issue #975). Set the
     // instant any physical commit fails and never cleared: once durability is compromised, every
     // subsequent durable-barrier ack must report failure so all externalization exits fail-stop the
@@ -282,8 +341,8 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
                     // On failure the value is not on disk, so keep the cache-mode mirror serving it
                     // (mirrors the retention gate in `end_txn`).
                     if inserted.is_ok() {
-                        if let Some(mem_db) = mem_db.as_ref() {
-                            ins.clear_insert_mem(mem_db);
+                        if let Some((mem_db, pending)) = mem_db.as_ref() {
+                            ins.clear_insert_mem(mem_db, pending);
                         }
                     }
                 }
@@ -361,6 +420,7 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
 #[derive(Clone, Debug)]
 pub struct LayeredDatabase<DB: Database> {
     mem_db: MemDatabase,
+    pending: Option<PendingInserts>, /* Only a cache mode DB clears its inserts from memory. */
     db: DB,
     tx: Sender<DBMessage<DB>>,
     thread: Option<Arc<JoinHandle<()>>>, /* Use as a ref count for shutting down the background
@@ -396,10 +456,11 @@ impl<DB: Database> LayeredDatabase<DB> {
         let (tx, rx) = mpsc::channel();
         let db_cloned = db.clone();
         let mem_db = MemDatabase::new();
-        let mem_db_clone = if full_memory { None } else { Some(mem_db.clone()) };
+        let pending = (!full_memory).then(PendingInserts::default);
+        let mirror = pending.clone().map(|pending| (mem_db.clone(), pending));
         let thread =
-            Some(Arc::new(std::thread::spawn(move || db_run(db_cloned, mem_db_clone, rx))));
-        Self { mem_db, db, tx, thread, full_memory }
+            Some(Arc::new(std::thread::spawn(move || db_run(db_cloned, mirror, rx))));
+        Self { mem_db, pending, db, tx, thread, full_memory }
     }
 
     /// Snapshot the background thread's retained-insert and open-txn counters.
@@ -454,6 +515,7 @@ impl<DB: Database> Database for LayeredDatabase<DB> {
         self.tx.send(DBMessage::StartTxn).map_err(|_| eyre::eyre!("DB thread gone, FATAL!"))?;
         Ok(LayeredDbTxMut {
             mem_db: self.mem_db.clone(),
+            pending: self.pending.clone(),
             db: self.db.clone(),
             tx: self.tx.clone(),
             guard: Arc::new(TxnGuard { tx: self.tx.clone(), committed: AtomicBool::new(false) }),
@@ -477,7 +539,7 @@ impl<DB: Database> Database for LayeredDatabase<DB> {
     }
 
     fn insert<T: Table>(&self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
-        self.mem_db.insert::<T>(key, value)?;
+        insert_mem::<T>(&self.mem_db, self.pending.as_ref(), key, value)?;
         let ins = Box::new(KeyValueInsert::<T> { key: key.clone(), value: value.clone() });
         self.tx.send(DBMessage::Insert(ins)).map_err(|_| eyre::eyre!("DB thread gone, FATAL!"))?;
         Ok(())
@@ -603,7 +665,7 @@ trait InsertTrait<DB: Database>: Send + 'static {
     fn insert(&self, db: &DB) -> eyre::Result<()>;
     fn insert_txn(&self, txn: &mut DB::TXMut<'_>) -> eyre::Result<()>;
     /// Clear the inserted data from the memdb if present.
-    fn clear_insert_mem(&self, mem_db: &MemDatabase);
+    fn clear_insert_mem(&self, mem_db: &MemDatabase, pending: &PendingInserts);
 }
 
 trait RemoveTrait<DB: Database>: Send + 'static {
@@ -638,9 +700,8 @@ impl<T: Table, DB: Database> InsertTrait<DB> for KeyValueInsert<T> {
     fn insert_txn(&self, txn: &mut DB::TXMut<'_>) -> eyre::Result<()> {
         txn.insert::<T>(&self.key, &self.value)
     }
-    fn clear_insert_mem(&self, mem_db: &MemDatabase) {
-        // Best effort to avoid memory growing forever.
-        let _ = mem_db.remove::<T>(&self.key);
+    fn clear_insert_mem(&self, mem_db: &MemDatabase, pending: &PendingInserts) {
+        pending.written::<T>(mem_db, &self.key);
     }
     fn name(&self) -> &str {
         T::NAME
-- 
2.43.0


From eacb25a713c19cadf1096918bb9e4685a79b61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 12/38] fix: iterating a cache mode DB no longer misses rows
 that reach the disk meanwhile

---
 crates/storage/src/layered_db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/layered_db.rs b/crates/storage/src/layered_db.rs
index 5f883df..31facba 100644
--- a/crates/storage/src/layered_db.rs
+++ b/crates/storage/src/layered_db.rs
@@ -582,7 +582,9 @@ impl<DB: Database> Database for LayeredDatabase<DB> {
         if self.full_memory {
             Box::new(self.mem_db.iter::<T>())
         } else {
-            Box::new(self.db.iter::<T>().chain(self.mem_db.iter::<T>()))
+            // The mem layer first: what leaves it from here on is on disk already.
+            let mem = self.mem_db.iter::<T>();
+            Box::new(self.db.iter::<T>().chain(mem))
         }
     }
 
-- 
2.43.0


From ff4e78119d43802a2488f83f0aa6b9c317bb00d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 13/38] sim: transport seam for deterministic simulation, off
 unless cfg(tn_sim)

---
 crates/network-libp2p/src/consensus.rs | 29 +++++++++++++++-----------
 crates/network-libp2p/src/lib.rs       |  3 +++
 crates/network-libp2p/src/sim.rs       | 20 ++++++++++++++++++
 3 files changed, 40 insertions(+), 12 deletions(-)
 create mode 100644 crates/network-libp2p/src/sim.rs

diff --git a/crates/network-libp2p/src/consensus.rs b/crates/network-libp2p/src/consensus.rs
index e425315..608eb0a 100644
--- a/crates/network-libp2p/src/consensus.rs
+++ b/crates/network-libp2p/src/consensus.rs
@@ -519,18 +519,23 @@ where
         let network_pubkey = keypair.public().into();
 
         // create swarm
-        let mut swarm = SwarmBuilder::with_existing_identity(keypair)
-            .with_tokio()
-            .with_quic_config(|mut config| {
-                config.handshake_timeout = network_config.quic_config().handshake_timeout;
-                config.max_idle_timeout = network_config.quic_config().max_idle_timeout;
-                config.keep_alive_interval = network_config.quic_config().keep_alive_interval;
-                config.max_concurrent_stream_limit =
-                    network_config.quic_config().max_concurrent_stream_limit;
-                config.max_stream_data = network_config.quic_config().max_stream_data;
-                config.max_connection_data = network_config.quic_config().max_connection_data;
-                config
-            })
+        let builder = SwarmBuilder::with_existing_identity(keypair).with_tokio();
+        #[cfg(not(tn_sim))]
+        let builder = builder.with_quic_config(|mut config| {
+            config.handshake_timeout = network_config.quic_config().handshake_timeout;
+            config.max_idle_timeout = network_config.quic_config().max_idle_timeout;
+            config.keep_alive_interval = network_config.quic_config().keep_alive_interval;
+            config.max_concurrent_stream_limit =
+                network_config.quic_config().max_concurrent_stream_limit;
+            config.max_stream_data = network_config.quic_config().max_stream_data;
+            config.max_connection_data = network_config.quic_config().max_connection_data;
+            config
+        });
+        #[cfg(tn_sim)]
+        let builder = builder
+            .with_other_transport(|key| crate::sim::transport(key.public().into()))
+            .map_err(|_| NetworkError::BuildSwarm)?;
+        let mut swarm = builder
             .with_behaviour(|_| behavior)
             .map_err(|_| NetworkError::BuildSwarm)?
             .with_swarm_config(|c| {
diff --git a/crates/network-libp2p/src/lib.rs b/crates/network-libp2p/src/lib.rs
index c4a691d..2e7237a 100644
--- a/crates/network-libp2p/src/lib.rs
+++ b/crates/network-libp2p/src/lib.rs
@@ -15,6 +15,7 @@
 )]
 #![deny(unused_must_use, rust_2018_idioms)]
 #![cfg_attr(docsrs, feature(doc_cfg, doc_auto_cfg))]
+#![allow(unexpected_cfgs)] // `tn_sim`
 
 mod codec;
 mod consensus;
@@ -22,6 +23,8 @@ pub mod error;
 pub mod kad;
 mod metrics;
 mod peers;
+#[cfg(tn_sim)]
+pub mod sim;
 pub mod stream;
 mod sync;
 pub mod types;
diff --git a/crates/network-libp2p/src/sim.rs b/crates/network-libp2p/src/sim.rs
new file mode 100644
index 0000000..2f89dd6
--- /dev/null
+++ b/crates/network-libp2p/src/sim.rs
@@ -0,0 +1,20 @@
+//! Seam for deterministic simulation (`--cfg tn_sim`): swarms run over a simulated transport.
+
+use libp2p::core::{muxing::StreamMuxerBox, transport::Boxed};
+pub use libp2p::{self, PeerId};
+use std::sync::OnceLock;
+
+/// Makes the transport of the swarm with this identity.
+pub type MakeTransport = fn(PeerId) -> Boxed<(PeerId, StreamMuxerBox)>;
+
+static MAKE: OnceLock<MakeTransport> = OnceLock::new();
+
+/// Choose the transport of every swarm built from now on. The first call wins.
+pub fn set_transport(make: MakeTransport) {
+    let _ = MAKE.set(make);
+}
+
+/// The transport for a new swarm.
+pub(crate) fn transport(peer: PeerId) -> Boxed<(PeerId, StreamMuxerBox)> {
+    MAKE.get().expect("set_transport was called")(peer)
+}
-- 
2.43.0


From 294087644ff3b8eb15cdc835e2be63619b99430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 14/38] fix: replace a configuration file whole instead of
 truncating it in place

A stop of the process or the host between the truncation and the end of the write left an
empty or partial file, and a node whose network-config was torn that way on its first start
never started again ("bad yaml data: EOF while parsing a value").
---
 crates/config/src/traits.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/config/src/traits.rs b/crates/config/src/traits.rs
index ea8ffc6..7d49168 100644
--- a/crates/config/src/traits.rs
+++ b/crates/config/src/traits.rs
@@ -109,14 +109,37 @@ pub trait ConfigTrait {
             serde_yaml::to_string(&cfg).with_context(|| "Failed to serialize config to yaml")?
         };
 
+        // Write a sibling, make it durable, then move it into place. Truncating the file itself
+        // would leave an empty or partial configuration behind if the process or the host stops
+        // before the write is complete, and a node refuses to start from a file it cannot parse.
+        let target = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+        let mut temp = target.clone().into_os_string();
+        temp.push(".tmp");
+        let temp = PathBuf::from(temp);
         let mut f = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path)
+            .open(&temp)
             .with_context(|| "Failed to open configuration file using OpenOptions")?;
 
-        f.write_all(s.as_bytes()).with_context(|| "Failed to write configuration file")?;
+        f.write_all(s.as_bytes())
+            .and_then(|()| match fs::metadata(&target) {
+                Ok(metadata) => f.set_permissions(metadata.permissions()),
+                Err(_) => Ok(()),
+            })
+            .and_then(|()| f.sync_all())
+            .and_then(|()| fs::rename(&temp, &target))
+            .inspect_err(|_| {
+                let _ = fs::remove_file(&temp);
+            })
+            .with_context(|| "Failed to write configuration file")?;
+        // the rename is durable once the directory is
+        if let Some(dir) = target.parent().filter(|dir| !dir.as_os_str().is_empty()) {
+            File::open(dir)
+                .and_then(|dir| dir.sync_all())
+                .with_context(|| "Failed to sync configuration directory")?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From ce60d5980ca388fb11a6973d84a497e13889c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 15/38] fix: ask for a header's missing parents before waiting
 for its author's execution

---
 .../consensus/primary/src/network/handler.rs  | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/crates/consensus/primary/src/network/handler.rs b/crates/consensus/primary/src/network/handler.rs
index 9246927..968bb45 100644
--- a/crates/consensus/primary/src/network/handler.rs
+++ b/crates/consensus/primary/src/network/handler.rs
@@ -775,20 +775,6 @@ where
             Ok(())
         })?;
 
-        // if peer is ahead, wait for execution to catch up
-        // NOTE: this doesn't hurt since this node shouldn't vote until execution is caught up
-        // ensure execution results match if this succeeds.
-        if self.consensus_bus.wait_for_execution(header.latest_execution_block()).await.is_err() {
-            error!(
-                target: "primary",
-                peer_hash = ?header.latest_execution_block(),
-                expected = ?self.consensus_bus.latest_execution_block_num_hash(),
-                "unexpected execution result received"
-            );
-            return Err(HeaderError::UnknownExecutionResult(header.latest_execution_block()).into());
-        }
-        debug!(target: "primary", ?header, round = header.round(), "Processing vote request from peer");
-
         // certifier optimistically sends header without parents
         // however, peers may request missing certificates from a proposer
         // when this happens, the proposer sends a new vote request with the missing parents
@@ -831,6 +817,25 @@ where
         // NOTE: this check is necessary for correctness.
         let parents = self.state_sync.notify_read_parent_certificates(&header).await?;
 
+        // if peer is ahead, wait for execution to catch up
+        //
+        // NOTE: this comes after the parents are accepted. The output this node has yet to execute
+        // may only be committed by these certificates, so waiting before asking for them would wait
+        // for something that cannot happen.
+        //
+        // NOTE: this doesn't hurt since this node shouldn't vote until execution is caught up
+        // ensure execution results match if this succeeds.
+        if self.consensus_bus.wait_for_execution(header.latest_execution_block()).await.is_err() {
+            error!(
+                target: "primary",
+                peer_hash = ?header.latest_execution_block(),
+                expected = ?self.consensus_bus.latest_execution_block_num_hash(),
+                "unexpected execution result received"
+            );
+            return Err(HeaderError::UnknownExecutionResult(header.latest_execution_block()).into());
+        }
+        debug!(target: "primary", ?header, round = header.round(), "Processing vote request from peer");
+
         // Verify parent certs. Ensure the parents:
         // - are from the previous round
         // - created before the header
-- 
2.43.0


From c16c03ae5116f52477dd1dd01aa422a62cbf1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 16/38] fix: re-derive the first epoch's record at restart
 instead of refusing to start

The record that stands in for epoch 0 is only in memory, so a node killed between executing
epoch 0's closing block and persisting record 0 had neither at its next start and never came up
again ("We have epoch 0 in our database if we are past epoch 0, on 1"). The recovery that
re-derives a missing record from the closing block handles epoch 0, but was never reached.
---
 crates/node/src/manager/node/run_epoch.rs | 25 ++++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/node/src/manager/node/run_epoch.rs b/crates/node/src/manager/node/run_epoch.rs
index 09097cf..09e75a9 100644
--- a/crates/node/src/manager/node/run_epoch.rs
+++ b/crates/node/src/manager/node/run_epoch.rs
@@ -220,21 +220,26 @@ where
         // Produce a "dummy" epoch 0 EpochRecord if missing.
         // This will let us use simple code to find any epoch including 0 at startup.
         if !self.consensus_chain.epochs().contains_epoch(0).await {
-            if committee.epoch() != 0 {
+            if committee.epoch() > 1 {
                 return Err(eyre::eyre!(
                     "We have epoch 0 in our database if we are past epoch 0, on {}",
                     committee.epoch()
                 ));
             }
-            // No keys for epoch 0, fix that.
-            // We are on epoch 0 so load up that committee in Db as well.
-            let committee: Vec<BlsPublicKey> = committee.bls_keys().iter().copied().collect();
-            let next_committee = committee.clone();
-            let epoch_rec =
-                EpochRecord { epoch: 0, committee, next_committee, ..Default::default() };
-            // Save the "dummy" record, should be overwritten once epoch 0 closes.
-            // This will NOT be signed.
-            self.consensus_chain.epochs().save_dummy_epoch0(epoch_rec).await?;
+            // Entering epoch 1 without it: the dummy is only in memory, so a node that was killed
+            // between executing epoch 0's closing block and persisting record 0 has neither.
+            // `recover_previous_epoch_record` below re-derives the real one from that block.
+            if committee.epoch() == 0 {
+                // No keys for epoch 0, fix that.
+                // We are on epoch 0 so load up that committee in Db as well.
+                let committee: Vec<BlsPublicKey> = committee.bls_keys().iter().copied().collect();
+                let next_committee = committee.clone();
+                let epoch_rec =
+                    EpochRecord { epoch: 0, committee, next_committee, ..Default::default() };
+                // Save the "dummy" record, should be overwritten once epoch 0 closes.
+                // This will NOT be signed.
+                self.consensus_chain.epochs().save_dummy_epoch0(epoch_rec).await?;
+            }
         }
 
         // The task manager that resets every epoch and manages
-- 
2.43.0


From 047fd921b388323189ec16773b0d089e56562dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 17/38] fix: create pack and index files whole

A file created by the first start (or by the first output of an epoch) got
its header through ordinary buffered writes. A crash before those bytes
reached the disk left a file with part of a header, or none of it, under
the final name, and the store then refused to open for good. Write the
header to a temporary file, fsync it, and rename it into place.
---
 crates/storage/src/archive/data_file.rs       |  33 +++++
 .../storage/src/archive/digest_index/index.rs | 128 ++++++++----------
 .../src/archive/digest_index/odx_header.rs    |  50 +++----
 crates/storage/src/archive/pack.rs            |  36 +++--
 .../src/archive/position_index/index.rs       |  54 ++++----
 5 files changed, 151 insertions(+), 150 deletions(-)

diff --git a/crates/storage/src/archive/data_file.rs b/crates/storage/src/archive/data_file.rs
index d8abed1..86c1afa 100644
--- a/crates/storage/src/archive/data_file.rs
+++ b/crates/storage/src/archive/data_file.rs
@@ -41,6 +41,39 @@ pub(crate) fn create_dir_synced(dir: &Path) -> Result<(), io::Error> {
     Ok(())
 }
 
+/// Create the file at `path` holding what `write` writes to it, whole or not at all.
+///
+/// The bytes go to a temporary file next to it that is fsynced before it takes the name, so a
+/// crash at any point leaves either no file (or the empty one that was there) or all of it: a
+/// header cut short would keep the file from ever being opened again.
+pub(crate) fn create_file_whole<E: From<io::Error>>(
+    path: &Path,
+    write: impl FnOnce(&mut File) -> Result<(), E>,
+) -> Result<(), E> {
+    let mut tmp = path.as_os_str().to_owned();
+    tmp.push(".new");
+    let tmp = PathBuf::from(tmp);
+    // Truncates what an interrupted attempt may have left.
+    let mut file = File::create(&tmp)?;
+    write(&mut file)?;
+    file.sync_all()?;
+    drop(file);
+    fs::rename(&tmp, path)?;
+    if let Some(parent) = path.parent() {
+        let _ = fsync_directory(parent);
+    }
+    Ok(())
+}
+
+/// True if there is no file at `path` or it has no bytes.
+pub(crate) fn missing_or_empty(path: &Path) -> Result<bool, io::Error> {
+    match fs::metadata(path) {
+        Ok(meta) => Ok(meta.len() == 0),
+        Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(true),
+        Err(e) => Err(e),
+    }
+}
+
 /// Wrapper around a file that implements read and write buffers and manages
 /// them seamlessly via standard IO traits.
 #[derive(Debug)]
diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 3274efc..6a5fecd 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -4,7 +4,7 @@ use tn_types::B256;
 
 use crate::archive::{
     crc::{add_crc32, check_crc},
-    data_file::fsync_directory,
+    data_file::{create_file_whole, fsync_directory, missing_or_empty},
     digest_index::{
         bloom::{Bloom, BLOOM_SIZE_BYTES},
         bucket_iter::BucketIter,
@@ -296,78 +296,66 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
                 let _ = fsync_directory(parent);
             }
         }
-        let mut hdx_file = if read_only {
-            OpenOptions::new().read(true).write(false).open(dir.join("index.hdx"))?
-        } else {
-            OpenOptions::new()
-                .read(true)
-                .write(true)
-                .create(true)
-                .truncate(false)
-                .open(dir.join("index.hdx"))?
-        };
-        let file_end = hdx_file.seek(SeekFrom::End(0))?;
-
-        let (header, bloom) = if file_end == 0 {
-            if read_only {
-                return Err(LoadHeaderError::ReadOnlyEmpty);
-            }
+        let hdx_path = dir.join("index.hdx");
+        if !read_only && missing_or_empty(&hdx_path)? {
             let salt = hasher_builder.hash_one(data_header.uid());
             let pepper = hasher_builder.hash_one(salt);
             let mut header = HdxHeader::from_data_header::<KSIZE, S>(data_header, salt, pepper);
-            header.write_header(&mut hdx_file)?;
-            let bloom = Bloom::new();
-            hdx_file.write_all(bloom.data())?;
-            let bucket_size = header.bucket_size() as usize;
-            let mut single_bucket = vec![0_u8; bucket_size];
-            add_crc32(&mut single_bucket[..]);
-            // Write buckets in large chunks to avoid 100k individual syscalls.
-            // All buckets are identical (zeros + CRC32), so tile a chunk buffer.
-            let chunk_buckets = 1024.min(header.buckets() as usize);
-            let chunk = single_bucket.repeat(chunk_buckets);
-            let mut remaining = header.buckets() as usize;
-            while remaining > 0 {
-                let n = chunk_buckets.min(remaining);
-                hdx_file.write_all(&chunk[..n * bucket_size])?;
-                remaining -= n;
-            }
-            // Header and initial buckets were just written; fsync the directory so the index.hdx
-            // entry is durable.
-            let _ = fsync_directory(dir);
-            (header, bloom)
-        } else {
-            let header = HdxHeader::load_header(&mut hdx_file)?;
-            // Basic validation of the odx header.
-            if header.version() != data_header.version() {
-                return Err(LoadHeaderError::InvalidIndexVersion);
-            }
-            if header.appnum() != data_header.appnum() {
-                return Err(LoadHeaderError::InvalidIndexAppNum);
-            }
-            if header.uid() != data_header.uid() {
-                return Err(LoadHeaderError::InvalidIndexUID);
-            }
-            // The on-disk bucket geometry must match this binary's compile-time layout.
-            // Reads size buffers from the header (bucket_size) while the bucket/overflow
-            // iterators index using the compile-time BUCKET_SIZE / BUCKET_ELEMENT_SIZE
-            // (derived from KSIZE and BUCKET_ELEMENTS).  A mismatch would silently corrupt
-            // reads, so reject it up front like the other header fields.
-            if header.bucket_size() != Self::BUCKET_SIZE as u16
-                || header.bucket_elements() != Self::BUCKET_ELEMENTS as u16
-            {
-                return Err(LoadHeaderError::InvalidIndexGeometry);
-            }
-            // Check the salt/pepper.  This will make sure you are using the same hasher and it
-            // seems to be stable (not the default Rust hasher for instance) since
-            // changing the hasher would invalidate the index.
-            if header.pepper() != hasher_builder.hash_one(header.salt()) {
-                return Err(LoadHeaderError::InvalidHasher);
-            }
-            let mut bloom_bits = vec![0_u8; BLOOM_SIZE_BYTES];
-            hdx_file.read_exact(&mut bloom_bits[..])?;
-            let bloom: Bloom = bloom_bits.try_into()?;
-            (header, bloom)
-        };
+            create_file_whole(&hdx_path, |hdx_file| {
+                header.write_header(hdx_file)?;
+                hdx_file.write_all(Bloom::new().data())?;
+                let bucket_size = header.bucket_size() as usize;
+                let mut single_bucket = vec![0_u8; bucket_size];
+                add_crc32(&mut single_bucket[..]);
+                // Write buckets in large chunks to avoid 100k individual syscalls.
+                // All buckets are identical (zeros + CRC32), so tile a chunk buffer.
+                let chunk_buckets = 1024.min(header.buckets() as usize);
+                let chunk = single_bucket.repeat(chunk_buckets);
+                let mut remaining = header.buckets() as usize;
+                while remaining > 0 {
+                    let n = chunk_buckets.min(remaining);
+                    hdx_file.write_all(&chunk[..n * bucket_size])?;
+                    remaining -= n;
+                }
+                Ok::<(), io::Error>(())
+            })?;
+        }
+        let mut hdx_file =
+            OpenOptions::new().read(true).write(!read_only).truncate(false).open(&hdx_path)?;
+        if hdx_file.seek(SeekFrom::End(0))? == 0 {
+            return Err(LoadHeaderError::ReadOnlyEmpty);
+        }
+
+        let header = HdxHeader::load_header(&mut hdx_file)?;
+        // Basic validation of the odx header.
+        if header.version() != data_header.version() {
+            return Err(LoadHeaderError::InvalidIndexVersion);
+        }
+        if header.appnum() != data_header.appnum() {
+            return Err(LoadHeaderError::InvalidIndexAppNum);
+        }
+        if header.uid() != data_header.uid() {
+            return Err(LoadHeaderError::InvalidIndexUID);
+        }
+        // The on-disk bucket geometry must match this binary's compile-time layout.
+        // Reads size buffers from the header (bucket_size) while the bucket/overflow
+        // iterators index using the compile-time BUCKET_SIZE / BUCKET_ELEMENT_SIZE
+        // (derived from KSIZE and BUCKET_ELEMENTS).  A mismatch would silently corrupt
+        // reads, so reject it up front like the other header fields.
+        if header.bucket_size() != Self::BUCKET_SIZE as u16
+            || header.bucket_elements() != Self::BUCKET_ELEMENTS as u16
+        {
+            return Err(LoadHeaderError::InvalidIndexGeometry);
+        }
+        // Check the salt/pepper.  This will make sure you are using the same hasher and it
+        // seems to be stable (not the default Rust hasher for instance) since
+        // changing the hasher would invalidate the index.
+        if header.pepper() != hasher_builder.hash_one(header.salt()) {
+            return Err(LoadHeaderError::InvalidHasher);
+        }
+        let mut bloom_bits = vec![0_u8; BLOOM_SIZE_BYTES];
+        hdx_file.read_exact(&mut bloom_bits[..])?;
+        let bloom: Bloom = bloom_bits.try_into()?;
         let (odx_file, _odx_header) = OdxHeader::open_odx_file(
             header.version(),
             header.uid(),
diff --git a/crates/storage/src/archive/digest_index/odx_header.rs b/crates/storage/src/archive/digest_index/odx_header.rs
index 7b47ba4..a28cffd 100644
--- a/crates/storage/src/archive/digest_index/odx_header.rs
+++ b/crates/storage/src/archive/digest_index/odx_header.rs
@@ -2,7 +2,7 @@
 
 use crate::archive::{
     crc::{add_crc32, check_crc},
-    data_file::fsync_directory,
+    data_file::{create_file_whole, missing_or_empty},
     error::load_header::LoadHeaderError,
 };
 use std::{
@@ -38,39 +38,29 @@ impl OdxHeader {
         read_only: bool,
     ) -> Result<(File, OdxHeader), LoadHeaderError> {
         let path = path.as_ref();
+        if !read_only && missing_or_empty(path)? {
+            let header = OdxHeader::new(version, uid, appnum, read_only);
+            create_file_whole(path, |file| header.write_header(file))?;
+        }
         let mut file = if read_only {
             OpenOptions::new().read(true).write(false).open(path)?
         } else {
-            OpenOptions::new().read(true).append(true).create(true).open(path)?
-        };
-        let file_end = file.seek(SeekFrom::End(0))?;
-
-        let header = if file_end == 0 {
-            if read_only {
-                return Err(LoadHeaderError::ReadOnlyEmpty);
-            }
-            let header = OdxHeader::new(version, uid, appnum, read_only);
-            header.write_header(&mut file)?;
-            // New odx file was just created and its header written; fsync the parent so the entry
-            // is durable.
-            if let Some(parent) = path.parent() {
-                let _ = fsync_directory(parent);
-            }
-            header
-        } else {
-            let header = OdxHeader::load_header(&mut file, read_only)?;
-            // Basic validation of the odx header.
-            if header.version() != version {
-                return Err(LoadHeaderError::InvalidIndexVersion);
-            }
-            if header.appnum() != appnum {
-                return Err(LoadHeaderError::InvalidIndexAppNum);
-            }
-            if header.uid() != uid {
-                return Err(LoadHeaderError::InvalidIndexUID);
-            }
-            header
+            OpenOptions::new().read(true).append(true).open(path)?
         };
+        if file.seek(SeekFrom::End(0))? == 0 {
+            return Err(LoadHeaderError::ReadOnlyEmpty);
+        }
+        let header = OdxHeader::load_header(&mut file, read_only)?;
+        // Basic validation of the odx header.
+        if header.version() != version {
+            return Err(LoadHeaderError::InvalidIndexVersion);
+        }
+        if header.appnum() != appnum {
+            return Err(LoadHeaderError::InvalidIndexAppNum);
+        }
+        if header.uid() != uid {
+            return Err(LoadHeaderError::InvalidIndexUID);
+        }
         Ok((file, header))
     }
 
diff --git a/crates/storage/src/archive/pack.rs b/crates/storage/src/archive/pack.rs
index cb1c782..e957743 100644
--- a/crates/storage/src/archive/pack.rs
+++ b/crates/storage/src/archive/pack.rs
@@ -14,7 +14,10 @@ use crate::archive::{
     pack_iter::{PackIter, MAX_RECORD_SIZE},
 };
 
-use super::{crc::add_crc32, data_file::DataFile};
+use super::{
+    crc::add_crc32,
+    data_file::{create_file_whole, missing_or_empty, DataFile},
+};
 use std::{
     fmt::Debug,
     fs::{self, File},
@@ -381,25 +384,20 @@ where
         compression: PackCompression,
         version: u16,
     ) -> Result<(DataFile, DataHeader), LoadHeaderError> {
-        let mut data_file = DataFile::open(path, ro)?;
-        let file_end = data_file.data_file_end();
-
-        let header = if file_end == 0 {
+        let path = path.as_ref();
+        if !ro && missing_or_empty(path)? {
             let header = DataHeader::new(uid_idx, compression, version);
-            header.write_header(&mut data_file)?;
-            header
-        } else {
-            let header = DataHeader::load_header(&mut data_file, uid_idx)?;
-            if header.version() > version {
-                // Do not allow a newer version than we request but allow an older.
-                return Err(LoadHeaderError::InvalidVersion);
-            }
-            if header.appnum() != 1 {
-                return Err(LoadHeaderError::InvalidAppNum);
-            }
-            header
-        };
-        data_file.flush()?;
+            create_file_whole(path, |file| header.write_header(file))?;
+        }
+        let mut data_file = DataFile::open(path, ro)?;
+        let header = DataHeader::load_header(&mut data_file, uid_idx)?;
+        if header.version() > version {
+            // Do not allow a newer version than we request but allow an older.
+            return Err(LoadHeaderError::InvalidVersion);
+        }
+        if header.appnum() != 1 {
+            return Err(LoadHeaderError::InvalidAppNum);
+        }
         Ok((data_file, header))
     }
 
diff --git a/crates/storage/src/archive/position_index/index.rs b/crates/storage/src/archive/position_index/index.rs
index 2c2a7d8..5cbc671 100644
--- a/crates/storage/src/archive/position_index/index.rs
+++ b/crates/storage/src/archive/position_index/index.rs
@@ -9,7 +9,7 @@ use std::{
 
 use crate::archive::{
     crc::{add_crc32, check_crc},
-    data_file::{fsync_directory, DataFile},
+    data_file::{create_file_whole, fsync_directory, missing_or_empty, DataFile},
     error::{
         commit::CommitError, fetch::FetchError, insert::AppendError, load_header::LoadHeaderError,
     },
@@ -75,8 +75,7 @@ impl PdxHeader {
     }
 
     /// Write this header to sync at current seek position.
-    fn write_header(&mut self, hdx_file: &mut DataFile) -> Result<(), io::Error> {
-        hdx_file.rewind()?;
+    fn write_header(&self, pdx_file: &mut fs::File) -> Result<(), io::Error> {
         let mut buffer = [0_u8; PDX_HEADER_SIZE];
         let mut pos = 0;
         buffer[pos..8].copy_from_slice(&self.type_id);
@@ -87,7 +86,7 @@ impl PdxHeader {
         pos += 8;
         buffer[pos..(pos + 4)].copy_from_slice(&self.appnum.to_le_bytes());
         add_crc32(&mut buffer[..]);
-        hdx_file.write_all(&buffer[..])?;
+        pdx_file.write_all(&buffer[..])?;
         Ok(())
     }
 
@@ -147,33 +146,26 @@ impl<T: PosIndexValue> PositionIndex<T> {
                 let _ = fsync_directory(parent);
             }
         }
-        let mut pdx_file = DataFile::open(dir.join(file_name), read_only)?;
-
-        let was_empty = pdx_file.is_empty();
-        let header = if was_empty {
-            if read_only {
-                return Err(LoadHeaderError::ReadOnlyEmpty);
-            }
-            let mut header = PdxHeader::from_data_header(data_header);
-            header.write_header(&mut pdx_file)?;
-            // index.pdx was just created and its header written; fsync the directory so the entry
-            // is durable.
-            let _ = fsync_directory(dir);
-            header
-        } else {
-            let header = PdxHeader::load_header(&mut pdx_file)?;
-            // Basic validation of the pdx header.
-            if header.version() != data_header.version() {
-                return Err(LoadHeaderError::InvalidIndexVersion);
-            }
-            if header.appnum() != data_header.appnum() {
-                return Err(LoadHeaderError::InvalidIndexAppNum);
-            }
-            if header.uid() != data_header.uid() {
-                return Err(LoadHeaderError::InvalidIndexUID);
-            }
-            header
-        };
+        let pdx_path = dir.join(file_name);
+        if !read_only && missing_or_empty(&pdx_path)? {
+            let header = PdxHeader::from_data_header(data_header);
+            create_file_whole(&pdx_path, |file| header.write_header(file))?;
+        }
+        let mut pdx_file = DataFile::open(&pdx_path, read_only)?;
+        if pdx_file.is_empty() {
+            return Err(LoadHeaderError::ReadOnlyEmpty);
+        }
+        let header = PdxHeader::load_header(&mut pdx_file)?;
+        // Basic validation of the pdx header.
+        if header.version() != data_header.version() {
+            return Err(LoadHeaderError::InvalidIndexVersion);
+        }
+        if header.appnum() != data_header.appnum() {
+            return Err(LoadHeaderError::InvalidIndexAppNum);
+        }
+        if header.uid() != data_header.uid() {
+            return Err(LoadHeaderError::InvalidIndexUID);
+        }
         let mut index = Self {
             _header: header,
             pdx_file,
-- 
2.43.0


From 43b94a199f41d01c70edb49368719f0f0646c5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 18/38] fix: remove import directories left by a crash

The sentinel in import-N is named by the process id. A node killed during
an import and restarted under the same id (always so in a container) took
the leftover for an import in progress and never fetched the epoch.
---
 crates/storage/src/consensus.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/consensus.rs b/crates/storage/src/consensus.rs
index 45fe3eb..3082b40 100644
--- a/crates/storage/src/consensus.rs
+++ b/crates/storage/src/consensus.rs
@@ -366,9 +366,12 @@ impl ConsensusChain {
         let recent_packs = Arc::new(Mutex::new(VecDeque::default()));
         let epochs = Arc::new(EpochRecordDb::open(&base_path)?);
         let pack_install = Arc::new(tokio::sync::Mutex::new(()));
-        // Any staging dirs left from a previous run are stale; start clean. The staging pack only
-        // ever holds transient, re-fetchable catch-up data.
+        // Any staging or import dirs left from a previous run are stale; start clean. They only
+        // ever hold transient, re-fetchable catch-up data. An import dir that outlives a crash
+        // must not: its sentinel is named by process id, and a restarted node that is given the
+        // same id (always so in a container) would wait for its own dead import forever.
         Self::remove_all_staging_dirs(&base_path);
+        Self::remove_all_import_dirs(&base_path);
         let staging = Arc::new(Mutex::new(None));
         Ok(Self {
             base_path,
@@ -644,9 +647,19 @@ impl ConsensusChain {
 
     /// Remove any leftover `staging-*` directories under `base_path` (stale from a prior run).
     fn remove_all_staging_dirs(base_path: &Path) {
+        Self::remove_dirs_with_prefix(base_path, "staging-");
+    }
+
+    /// Remove any leftover `import-*` directories under `base_path` (stale from a prior run).
+    fn remove_all_import_dirs(base_path: &Path) {
+        Self::remove_dirs_with_prefix(base_path, "import-");
+    }
+
+    /// Remove every directory directly under `base_path` whose name starts with `prefix`.
+    fn remove_dirs_with_prefix(base_path: &Path, prefix: &str) {
         if let Ok(entries) = std::fs::read_dir(base_path) {
             for entry in entries.flatten() {
-                if entry.file_name().to_str().is_some_and(|n| n.starts_with("staging-")) {
+                if entry.file_name().to_str().is_some_and(|n| n.starts_with(prefix)) {
                     let _ = std::fs::remove_dir_all(entry.path());
                 }
             }
-- 
2.43.0


From b0a03d629f34243c4bf3f9a55db542f064dc3eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 19/38] fix: keep the epoch an import replaces until the import
 is in place

stream_import removed epoch-N before it renamed the imported directory to
that name. A crash in between left the node without the pack of its latest
epoch, and ConsensusChain::new fails without it. Move the old directory
aside instead, and put it back at the next start if the crash came before
the rename.
---
 crates/storage/src/consensus.rs | 36 +++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/crates/storage/src/consensus.rs b/crates/storage/src/consensus.rs
index 3082b40..bed02cd 100644
--- a/crates/storage/src/consensus.rs
+++ b/crates/storage/src/consensus.rs
@@ -325,6 +325,9 @@ pub struct ConsensusChain {
     staging: Arc<Mutex<Option<StagingPack>>>,
 }
 
+/// Where an import keeps the epoch directory it replaces until the new one is in place.
+const REPLACED_DIR: &str = "replaced";
+
 impl ConsensusChain {
     /// How many recently opened pack files to maintain.
     const PACK_CACHE_SIZE: usize = 10;
@@ -335,6 +338,7 @@ impl ConsensusChain {
         committee_zero: Committee,
     ) -> Result<ConsensusChain, ConsensusChainError> {
         let latest_consensus = LatestConsensus::new(&base_path)?;
+        Self::restore_replaced_epochs(&base_path)?;
         // If we have a pack for the last epoch open it so we can read data early.
 
         let current_pack = if latest_consensus.number() == 0 && latest_consensus.epoch() == 0 {
@@ -554,14 +558,20 @@ impl ConsensusChain {
                 let replace_current = self.current_pack.lock().epoch() == epoch;
                 drop(pack);
                 // Make sure we don't have any cruft in the final dir.
-                if std::fs::exists(&base_dir).unwrap_or_default() {
+                let replaced = path.join(REPLACED_DIR);
+                let had_old = std::fs::exists(&base_dir).unwrap_or_default();
+                if had_old {
                     // If this exists it is incomplete (see check at start of function).
-                    // This remove will leave a tiny window before the rename where it is
+                    // Moving it away will leave a tiny window before the rename where it is
                     // not available.  This may produce errors that should be handled correctly if
-                    // so.
-                    let _ = std::fs::remove_dir_all(&base_dir);
+                    // so.  It is moved, not removed: after a crash in that window the next start
+                    // puts it back, a node can not open without its latest epoch.
+                    std::fs::rename(&base_dir, &replaced)?;
                 }
                 let rename_err = std::fs::rename(&path_base_dir, &base_dir);
+                if rename_err.is_err() && had_old {
+                    let _ = std::fs::rename(&replaced, &base_dir);
+                }
                 // Invalidate the cache AFTER the rename so a concurrent get_static that
                 // missed the cache and opened FDs on the old (now-unlinked) inode cannot
                 // leave a stale entry behind for other callers — any entry cached during
@@ -655,6 +665,24 @@ impl ConsensusChain {
         Self::remove_dirs_with_prefix(base_path, "import-");
     }
 
+    /// Put back the epoch directories that an import had moved away when the node went down.
+    fn restore_replaced_epochs(base_path: &Path) -> io::Result<()> {
+        for entry in std::fs::read_dir(base_path)? {
+            let entry = entry?;
+            let name = entry.file_name();
+            let Some(epoch) = name.to_str().and_then(|n| n.strip_prefix("import-")) else {
+                continue;
+            };
+            let base_dir = base_path.join(format!("epoch-{epoch}"));
+            let replaced = entry.path().join(REPLACED_DIR);
+            if std::fs::exists(&replaced)? && !std::fs::exists(&base_dir)? {
+                std::fs::rename(&replaced, &base_dir)?;
+                fsync_directory(base_path)?;
+            }
+        }
+        Ok(())
+    }
+
     /// Remove every directory directly under `base_path` whose name starts with `prefix`.
     fn remove_dirs_with_prefix(base_path: &Path, prefix: &str) {
         if let Ok(entries) = std::fs::read_dir(base_path) {
-- 
2.43.0


From a98523ea0bee6a496ffd271430148127ae08f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:20 +0000
Subject: [PATCH 20/38] fix: start at the latest output the pack really holds

A slot file is written as soon as an output is saved, the pack when it is
persisted. After a crash in between, the slot named an output the pack did
not have. The node went on from the pack's last output, and saving the
next one was refused as not above the latest number, at every restart.
---
 crates/storage/src/consensus.rs      | 23 +++++++++++++++++++----
 crates/storage/src/consensus_pack.rs | 21 +++++++++++++++++++++
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/crates/storage/src/consensus.rs b/crates/storage/src/consensus.rs
index bed02cd..717d58e 100644
--- a/crates/storage/src/consensus.rs
+++ b/crates/storage/src/consensus.rs
@@ -264,6 +264,22 @@ impl LatestConsensus {
         }
     }
 
+    /// Come down to what `pack`, just opened for the latest epoch, really holds.
+    ///
+    /// A slot is written as soon as an output is saved, the pack only when it is persisted, so
+    /// after a crash the slot can name outputs that were lost with the pack's buffers.  They are
+    /// going to be saved again, which would be refused below the latest number.
+    fn lower_to(&self, pack: &ConsensusPack) {
+        let held = pack.held_at_open();
+        let mut state = self.state.lock();
+        if state.number >= held.end {
+            state.number = held.end.saturating_sub(1);
+            if held.is_empty() {
+                state.epoch = state.epoch.saturating_sub(1);
+            }
+        }
+    }
+
     /// Persist the saved state fully to disk.
     async fn persist(&self) {
         let (tx, rx) = oneshot::channel();
@@ -362,10 +378,9 @@ impl ConsensusChain {
             // runs trunc_and_heal to repair a torn write from a hard crash mid-epoch, and leaves
             // the pack writable so the node can resume saving outputs for this epoch without
             // waiting for new_epoch to flip a read-only pack to append.
-            Arc::new(Mutex::new(ConsensusPack::open_append_exists(
-                &base_path,
-                latest_consensus.epoch(),
-            )?))
+            let pack = ConsensusPack::open_append_exists(&base_path, latest_consensus.epoch())?;
+            latest_consensus.lower_to(&pack);
+            Arc::new(Mutex::new(pack))
         };
         let recent_packs = Arc::new(Mutex::new(VecDeque::default()));
         let epochs = Arc::new(EpochRecordDb::open(&base_path)?);
diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 770e710..545a222 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -8,6 +8,7 @@ use std::{
     fmt::Display,
     hash::BuildHasherDefault,
     io::{self, Cursor},
+    ops::Range,
     path::{Path, PathBuf},
     sync::Arc,
     thread::JoinHandle,
@@ -126,6 +127,7 @@ pub struct ConsensusPack {
     compression: PackCompression,
     is_static: bool,
     version: u16, // Version of the underlying data pack file.
+    held_at_open: Range<u64>,
 }
 
 fn run_pack_loop(mut inner: Inner, mut rx: Receiver<PackMessage>) {
@@ -236,6 +238,7 @@ impl ConsensusPack {
         let epoch = committee.epoch();
         let inner = Inner::open_append(path.clone(), &previous_epoch, committee.clone(), version)?;
         let version = inner.version();
+        let held_at_open = inner.held();
         let compression = inner.data.header().compression();
         let handle = std::thread::spawn(move || run_pack_loop(inner, rx));
         Ok(Self {
@@ -246,6 +249,7 @@ impl ConsensusPack {
             compression,
             is_static: false,
             version,
+            held_at_open,
         })
     }
 
@@ -255,6 +259,7 @@ impl ConsensusPack {
         let path: PathBuf = path.into();
         let inner = Inner::open_append_exists(path.clone(), epoch)?;
         let version = inner.version();
+        let held_at_open = inner.held();
         let compression = inner.data.header().compression();
         let committee = inner.epoch_meta.committee.clone();
         let handle = std::thread::spawn(move || run_pack_loop(inner, rx));
@@ -266,6 +271,7 @@ impl ConsensusPack {
             compression,
             is_static: false,
             version,
+            held_at_open,
         })
     }
 
@@ -275,6 +281,7 @@ impl ConsensusPack {
         let path: PathBuf = path.into();
         let inner = Inner::open_static(path.clone(), epoch)?;
         let version = inner.version();
+        let held_at_open = inner.held();
         let compression = inner.data.header().compression();
         let committee = inner.epoch_meta.committee.clone();
         let handle = std::thread::spawn(move || run_pack_loop(inner, rx));
@@ -286,6 +293,7 @@ impl ConsensusPack {
             compression,
             is_static: true,
             version,
+            held_at_open,
         })
     }
 
@@ -310,6 +318,7 @@ impl ConsensusPack {
         )
         .await?;
         let version = inner.version();
+        let held_at_open = inner.held();
         let compression = inner.data.header().compression();
         let committee = inner.epoch_meta.committee.clone();
         let handle = std::thread::spawn(move || {
@@ -323,6 +332,7 @@ impl ConsensusPack {
             compression,
             is_static: true,
             version,
+            held_at_open,
         })
     }
 
@@ -331,6 +341,11 @@ impl ConsensusPack {
         self.is_static
     }
 
+    /// The numbers of the outputs this pack held when it was opened.
+    pub(crate) fn held_at_open(&self) -> Range<u64> {
+        self.held_at_open.clone()
+    }
+
     /// Return the epoch for this pack file.
     pub fn epoch(&self) -> Epoch {
         self.epoch
@@ -727,6 +742,12 @@ impl Inner {
         Ok(())
     }
 
+    /// The numbers of the outputs this pack holds.
+    fn held(&self) -> Range<u64> {
+        let start = self.epoch_meta.start_consensus_number;
+        start..start + self.consensus_pos_idx.len() as u64
+    }
+
     /// Return the version of the underlying data pack file.
     fn version(&self) -> u16 {
         self.data.version()
-- 
2.43.0


From df152e93675e348d85373b436a85d649878c0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 21/38] fix: an index dropped after a failed write keeps its
 old header

Drop wrote the header of a digest index even when its buckets could not be
written. The header's data file length then claimed that the index covered
records it did not have, so the next start did not cut them off: they
stayed in the pack but could not be found by digest.
---
 .../storage/src/archive/digest_index/index.rs   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 6a5fecd..0aeee00 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -744,15 +744,16 @@ impl<const KSIZE: usize, S: BuildHasher + Default> Drop for HdxIndex<KSIZE, S> {
             if !std::thread::panicking() {
                 tracing::warn!("HdxIndex dropped with unsynced data - caller should call sync()");
             }
-            if let Err(e) = self.save_bucket_cache() {
-                if !std::thread::panicking() {
-                    tracing::error!("HdxIndex: failed to flush bucket cache on drop: {e}");
-                }
+            if self.sync_failed {
+                return;
             }
-            if let Err(e) = self.write_header() {
+            // As in sync(), the header only follows the buckets: its data file length says that
+            // they cover the data file up to there.
+            if let Err(e) = self.save_bucket_cache().and_then(|_| self.write_header()) {
                 if !std::thread::panicking() {
-                    tracing::error!("HdxIndex: failed to write header on drop: {e}");
+                    tracing::error!("HdxIndex: failed to write buckets or header on drop: {e}");
                 }
+                return;
             }
             if let Err(e) = self.hdx_file.flush() {
                 if !std::thread::panicking() {
@@ -804,13 +805,13 @@ impl<const KSIZE: usize, S: BuildHasher + Default> Index<B256, u64> for HdxIndex
         if self.read_only {
             Err(CommitError::ReadOnly)
         } else {
-            self.save_bucket_cache().map_err(CommitError::IndexFileSync)?;
-            self.write_header().map_err(CommitError::IndexFileSync)?;
             if self.sync_failed {
                 return Err(CommitError::IndexFileSync(io::Error::other(
                     "an earlier sync of this index failed, reopen it",
                 )));
             }
+            self.save_bucket_cache().map_err(CommitError::IndexFileSync)?;
+            self.write_header().map_err(CommitError::IndexFileSync)?;
             if let Err(err) = self.odx_file.sync_all().and_then(|_| self.hdx_file.sync_all()) {
                 self.sync_failed = true;
                 return Err(CommitError::IndexFileSync(err));
-- 
2.43.0


From ac32871853c44d664f4992026c10827f000475ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:38 +0000
Subject: [PATCH 22/38] fix: write an index's bloom filter before its header

A node killed between the two writes came back with a header that covers
the new records and a filter without their digests: the records were kept,
and never found by digest.
---
 crates/storage/src/archive/digest_index/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 0aeee00..f21c509 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -439,9 +439,11 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
 
     /// Write the indexes header and bloom filter to disk.
     fn write_header(&mut self) -> Result<(), io::Error> {
-        self.header.write_header(&mut self.hdx_file)?;
+        // The header goes last: its data file length says that the index covers the data file up
+        // to there, and a digest that is not in the bloom filter is not found.
         self.hdx_file.seek(SeekFrom::Start(self.header.header_size() as u64))?;
         self.hdx_file.write_all(self.bloom.data())?;
+        self.header.write_header(&mut self.hdx_file)?;
         Ok(())
     }
 
-- 
2.43.0


From 3adbdd379c0900413c5f9a96b8ced89fff675226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 23/38] fix: keep pointing at the earlier copy of a duplicate
 batch

A power loss can cut the later copy away; the index must not point at it
while the first copy is durable. A read failure is not a missing batch.
---
 crates/storage/src/consensus_pack.rs | 33 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 545a222..c79a37d 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -1042,9 +1042,16 @@ impl Inner {
             if first_batch_pos.is_none() {
                 first_batch_pos = Some(position);
             }
-            self.batch_digests
-                .save(batch_digest, position)
-                .map_err(|e| PackError::IndexAppend(format!("batch {e}")))?;
+            // Keep pointing at an earlier copy of the batch, this one may yet be truncated.
+            let known = match self.try_batch(batch_digest) {
+                Err(e) if is_read_failure(&e) => return Err(e.into()),
+                known => matches!(known, Ok(Some(_))),
+            };
+            if !known {
+                self.batch_digests
+                    .save(batch_digest, position)
+                    .map_err(|e| PackError::IndexAppend(format!("batch {e}")))?;
+            }
             let len = self.data.file_len();
             self.consensus_digests.set_data_file_length(len);
             self.batch_digests.set_data_file_length(len);
@@ -1321,22 +1328,23 @@ impl Inner {
 
     /// Return the Batch for digest if found.
     fn batch(&mut self, digest: BlockHash) -> Option<Batch> {
-        let pos = self.batch_digests.load(digest).ok()?;
+        self.try_batch(digest).ok().flatten()
+    }
+
+    /// Load a [`Batch`], telling a batch that is not there from one that can not be read.
+    fn try_batch(&mut self, digest: BlockHash) -> Result<Option<Batch>, FetchError> {
+        let pos = self.batch_digests.load(digest)?;
         // This is not strickly needed, the fetch below will fail if
         // we try to read past the end of the file but this potentially
         // short circuits a lot of checks for a small cost.
         // Note, this could happen if a file is damaged and repaired.
         if pos >= self.data.file_len() {
-            return None;
+            return Ok(None);
         }
-        let batch = self.data.fetch(pos).ok()?.into_batch().ok()?;
         // Verify the digest.  There is an extremely unlikely edge case where
         // a repaired DB could write a new batch to the same location as an
         // old batch.  This makes sure the contract is always intact.
-        if batch.digest() != digest {
-            return None;
-        }
-        Some(batch)
+        Ok(self.data.fetch(pos)?.into_batch().ok().filter(|batch| batch.digest() == digest))
     }
 
     /// Count leaders in this pack (in rewards_counter) lower than last_executed_round.
@@ -1389,6 +1397,11 @@ pub(crate) fn fetch_error_is_absent(err: &FetchError) -> bool {
     }
 }
 
+/// True if `err` is the disk failing to read, as opposed to a record that is not there or damaged.
+fn is_read_failure(err: &FetchError) -> bool {
+    matches!(err, FetchError::IO(e) if e.kind() != io::ErrorKind::UnexpectedEof)
+}
+
 /// Gathers all the batches from consensus into an ordered Map by digest.
 fn collect_batches(consensus: &ConsensusOutput) -> BTreeMap<BlockHash, Batch> {
     let mut batches = BTreeMap::new();
-- 
2.43.0


From 029d33bae6eea5601adb1f1ffc7e487bac51a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 24/38] fix: cut a pack without outputs back to its meta data

Also fail on a read failure instead of dropping the outputs.
---
 crates/storage/src/consensus_pack.rs | 52 ++++++++++++----------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index c79a37d..0effef3 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -699,40 +699,34 @@ impl Inner {
             // remove digests, both would be expensive operations.
         }
         let pack_len = data.file_len();
-        if !consensus_pos_idx.is_empty() {
-            let mut new_pack_len = pack_len;
-            // Make sure we are not indexing any records that no longer exist.
-            // Also make sure we don not have a partial record left on a short file.
-            let start_idx = consensus_pos_idx.len() as u64 - 1;
-            let mut idx = start_idx;
-            loop {
-                if let Ok(last_record) = consensus_pos_idx.load(idx) {
-                    if idx != start_idx {
-                        // Keep the bytes index in sync with the consensus index so the two
-                        // never diverge in length after healing a damaged pack.
-                        consensus_pos_idx.truncate_to_index(idx)?;
-                    }
+        // Make sure we are not indexing any records that no longer exist.
+        // Also make sure we don not have a partial record left on a short file.
+        let start_idx = consensus_pos_idx.len() as u64;
+        let mut outputs = start_idx;
+        // Without any output only the meta data is left.
+        let mut new_pack_len = DATA_HEADER_BYTES as u64
+            + data.record_size(DATA_HEADER_BYTES as u64).map_err(PackError::from)? as u64;
+        while outputs > 0 {
+            match consensus_pos_idx.load(outputs - 1) {
+                Ok(last_record) if last_record.output_end <= pack_len => {
                     new_pack_len = last_record.output_end;
-                    if new_pack_len <= pack_len {
-                        break;
-                    }
-                }
-                if idx == 0 {
-                    if idx != start_idx {
-                        consensus_pos_idx.truncate_all()?;
-                    }
                     break;
                 }
-                idx -= 1;
-            }
-            // Only ever shrink: `truncate` is `set_len`, so a `new_pack_len` above the current
-            // length (an index entry claiming an `output_end` past the data we actually have)
-            // would zero-extend the pack.  Clamp defensively.
-            let new_pack_len = new_pack_len.min(pack_len);
-            if new_pack_len != pack_len {
-                data.truncate(new_pack_len)?;
+                // A disk that fails to read says nothing about the record, it must not be dropped.
+                Err(e) if is_read_failure(&e) => return Err(e.into()),
+                Ok(_) | Err(_) => outputs -= 1,
             }
         }
+        if outputs == 0 && start_idx > 0 {
+            consensus_pos_idx.truncate_all()?;
+        } else if outputs != start_idx {
+            // Keep the bytes index in sync with the consensus index so the two
+            // never diverge in length after healing a damaged pack.
+            consensus_pos_idx.truncate_to_index(outputs - 1)?;
+        }
+        if new_pack_len < pack_len {
+            data.truncate(new_pack_len)?;
+        }
         // Reconcile the digest indexes' tracked data file length with the (possibly truncated)
         // pack so files_consistent holds even if no save follows this heal.  Lookups use the
         // live pack length, so this only affects the consistency check on a later open.
-- 
2.43.0


From e025547c2dbd5ed9877cc6efd029ff8b9fc4533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 25/38] fix: open a pack a crash left without its meta data

And make the meta data durable before the first output.
---
 crates/storage/src/consensus_pack.rs | 45 ++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 0effef3..9064d5c 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -785,19 +785,30 @@ impl Inner {
             genesis_consensus: previous_epoch.final_consensus,
         };
 
-        if let Ok(meta) = data.fetch(DATA_HEADER_BYTES as u64) {
-            let meta = meta.into_epoch()?;
-            if epoch_meta != meta {
-                return Err(PackError::InvalidEpoch(
-                    epoch,
-                    format!("open append has unexpected meta data, expected {epoch_meta:?} got {meta:?}"),
-                ));
+        let mut consensus_pos_idx = Self::open_pdx_file(&base_dir, data.header(), false)?;
+        let mut new_pack = !have_pack;
+        match data.fetch(DATA_HEADER_BYTES as u64) {
+            Ok(meta) => {
+                let meta = meta.into_epoch()?;
+                if epoch_meta != meta {
+                    return Err(PackError::InvalidEpoch(
+                        epoch,
+                        format!("open append has unexpected meta data, expected {epoch_meta:?} got {meta:?}"),
+                    ));
+                }
+            }
+            // The meta data is durable before the first output is saved, so it can only be
+            // missing or torn in a pack without outputs.
+            Err(e) if !consensus_pos_idx.is_empty() || is_read_failure(&e) => {
+                return Err(PackError::EpochLoad(e.to_string()))
+            }
+            Err(_) => {
+                data.truncate(DATA_HEADER_BYTES as u64)?;
+                data.append(&PackRecord::EpochMeta(epoch_meta.clone()))
+                    .map_err(|e| PackError::Append(e.to_string()))?;
+                new_pack = true;
             }
-        } else {
-            data.append(&PackRecord::EpochMeta(epoch_meta.clone()))
-                .map_err(|e| PackError::Append(e.to_string()))?;
         }
-        let mut consensus_pos_idx = Self::open_pdx_file(&base_dir, data.header(), false)?;
         let builder = BuildHasherDefault::<FxHasher>::default();
         let mut consensus_digests = HdxIndex::open_hdx_file(
             base_dir.join(Self::CONSENSUS_HASH_NAME),
@@ -814,7 +825,8 @@ impl Inner {
             false,
         )
         .map_err(OpenError::IndexFileOpen)?;
-        if !have_pack {
+        let indexed = consensus_digests.data_file_length().min(batch_digests.data_file_length());
+        if new_pack {
             // If this is a new DB then update the file lengths in indexes after create.
             let len = data.file_len();
             consensus_digests.set_data_file_length(len);
@@ -827,7 +839,14 @@ impl Inner {
             &mut consensus_digests,
             &mut batch_digests,
         )?;
-        Ok(Self { data, consensus_digests, consensus_pos_idx, batch_digests, epoch_meta })
+        let mut me =
+            Self { data, consensus_digests, consensus_pos_idx, batch_digests, epoch_meta };
+        if new_pack || indexed <= DATA_HEADER_BYTES as u64 {
+            // Before the first output: the pack can not be opened again without its meta data and
+            // is only cut back to what the digest indexes cover once these know a length.
+            me.persist()?;
+        }
+        Ok(me)
     }
 
     /// Open up the files for previous epoch in append mode.  Will fail if files do not exist.
-- 
2.43.0


From d82ccd665d78a94cf78cfb3bd766502004474474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 26/38] fix: digest indexes must not cover data whose sync
 failed

---
 crates/storage/src/archive/digest_index/index.rs | 6 ++++++
 crates/storage/src/consensus_pack.rs             | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index f21c509..a5bbc81 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -384,6 +384,12 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         })
     }
 
+    /// The data file could not be synced: leave the files of this index as they are, so that they
+    /// do not cover records that may be lost.  Every later sync fails.
+    pub fn fail_sync(&mut self) {
+        self.sync_failed = true;
+    }
+
     /// Number of keys hashed in this index.
     pub fn len(&self) -> usize {
         self.header.values() as usize
diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 9064d5c..634cd44 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -1215,7 +1215,12 @@ impl Inner {
 
     fn persist(&mut self) -> Result<(), PackError> {
         if !self.data.read_only() {
-            self.data.commit().map_err(|e| PackError::PersistError(e.to_string()))?;
+            if let Err(e) = self.data.commit() {
+                // What was appended may be lost, the digest indexes must not come to cover it.
+                self.consensus_digests.fail_sync();
+                self.batch_digests.fail_sync();
+                return Err(PackError::PersistError(e.to_string()));
+            }
             self.consensus_pos_idx.sync().map_err(|e| PackError::PersistError(e.to_string()))?;
             self.consensus_digests.sync().map_err(|e| PackError::PersistError(e.to_string()))?;
             self.batch_digests.sync().map_err(|e| PackError::PersistError(e.to_string()))?;
-- 
2.43.0


From 5ce9e055a8ff66ae79dc9c2cb356684f5d7d3861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 27/38] fix: number epoch records by their index, not by the
 raw file

---
 crates/storage/src/epoch_records.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index b3d3eb9..cc43e14 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -385,10 +385,13 @@ impl EpochRecordDb {
         let (tx, rx) = mpsc::channel(1000);
         let path: PathBuf = path.into();
         let (error, _) = watch::channel(None);
-        let inner = Inner::open_append(path, 0)?;
+        let mut inner = Inner::open_append(path, 0)?;
+        // Follow the index, not the raw file: a record that a crash kept out of the index stays
+        // in the file next to the copy saved after it.
         let mut final_numbers = Vec::with_capacity(inner.epoch_idx.len());
-        for epoch in inner.records.raw_iter().map_err(|_e| EpochDbError::CorruptDb)? {
-            final_numbers.push(epoch?.final_consensus.number);
+        for idx in 0..inner.epoch_idx.len() as u64 {
+            let pos = inner.epoch_idx.load(idx)?;
+            final_numbers.push(inner.records.fetch(pos)?.final_consensus.number);
         }
         let tx_error = error.clone();
         let handle = std::thread::spawn(move || run_db_loop(inner, rx, tx_error));
-- 
2.43.0


From 6c8b6bd559f736e15f1b40d3d8f03b2f4403dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:32 +0000
Subject: [PATCH 28/38] fix: never cache a pack of an epoch that is being
 replaced

---
 crates/storage/src/consensus.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/storage/src/consensus.rs b/crates/storage/src/consensus.rs
index 717d58e..27092df 100644
--- a/crates/storage/src/consensus.rs
+++ b/crates/storage/src/consensus.rs
@@ -477,6 +477,9 @@ impl ConsensusChain {
         let pack = ConsensusPack::open_append(&self.base_path, previous_epoch, committee)?;
         pack.persist().await?; // Surface any open errors.
         *self.current_pack.lock() = pack;
+        // A reader may have opened (and cached) the new epoch's files while it was set up, that
+        // pack will never see what is saved from here on.
+        self.recent_packs.lock().retain(|p| p.epoch() != epoch);
         if let Some(staging_epoch) = self.staging_epoch() {
             // If we have moved past the staging pack then clear it.
             // Should get cleared in the normal course but this is
@@ -1268,24 +1271,24 @@ impl ConsensusChain {
 
     /// Get a static pack file from the cache if available or create and cache if not.
     async fn get_static(&self, epoch: Epoch) -> Result<ConsensusPack, PackError> {
+        // Held until the pack is cached: whoever changes the files of an epoch drops its cached
+        // pack afterwards, which must not come between opening and caching the old files.
+        let mut recents = self.recent_packs.lock();
         let pack = self.current_pack();
         if pack.epoch() == epoch {
             return Ok(pack);
         }
-        {
-            let mut recents = self.recent_packs.lock();
-            for p in recents.iter() {
-                if p.epoch() == epoch {
-                    return Ok(p.clone());
-                }
-            }
-            // Evict before the open+push below so the cache stays capped at PACK_CACHE_SIZE.
-            if recents.len() >= Self::PACK_CACHE_SIZE {
-                let _ = recents.pop_front();
+        for p in recents.iter() {
+            if p.epoch() == epoch {
+                return Ok(p.clone());
             }
         }
+        // Evict before the open+push below so the cache stays capped at PACK_CACHE_SIZE.
+        if recents.len() >= Self::PACK_CACHE_SIZE {
+            let _ = recents.pop_front();
+        }
         let pack = ConsensusPack::open_static(&self.base_path, epoch)?;
-        self.recent_packs.lock().push_back(pack.clone());
+        recents.push_back(pack.clone());
         Ok(pack)
     }
 
-- 
2.43.0


From 41721f89f28875201a2d04cc13fd03b2487f5d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:32 +0000
Subject: [PATCH 29/38] fix: the latest slot follows the epoch before its first
 output is saved

---
 crates/storage/src/consensus.rs | 76 +++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/crates/storage/src/consensus.rs b/crates/storage/src/consensus.rs
index 27092df..1dbae62 100644
--- a/crates/storage/src/consensus.rs
+++ b/crates/storage/src/consensus.rs
@@ -84,7 +84,7 @@ enum LatestConsensusCommand {
     /// Save an update to the next slot.
     Update(Epoch, Epoch, u64, ConsensusSlot),
     /// Fully persist the slot files.
-    Persist(oneshot::Sender<()>),
+    Persist(oneshot::Sender<std::io::Result<()>>),
     /// Persist then shutdown the background thread.
     Shutdown,
 }
@@ -157,11 +157,14 @@ impl LatestConsensus {
 
         let (tx, mut rx) = mpsc::channel(1000);
         let handle = std::thread::spawn(move || {
-            fn sync_all_with_log(f: &File) {
-                if let Err(e) = f.sync_all() {
-                    error!(target: "consensus_chain", ?e, "failed to sync a file");
-                }
+            fn sync_all_with_log(f: &File) -> std::io::Result<()> {
+                f.sync_all().inspect_err(
+                    |e| error!(target: "consensus_chain", ?e, "failed to sync a file"),
+                )
             }
+            // The latest update's slot and whether it reached the file.  A failed sync may have
+            // dropped the dirty pages, so it counts until the next update is written.
+            let mut latest: Option<(ConsensusSlot, std::io::Result<()>)> = None;
             while let Some(com) = rx.blocking_recv() {
                 match com {
                     LatestConsensusCommand::Update(old_epoch, epoch, number, slot) => {
@@ -170,26 +173,38 @@ impl LatestConsensus {
                             ConsensusSlot::Slot2 => &mut slot2,
                         };
                         let buffer = LatestConsensus::encode_slot(epoch, number);
-                        if let Err(e) = f.seek(SeekFrom::Start(0)) {
-                            error!(target: "consensus_chain", ?e, ?slot, "failed to sync a latest consensus state file");
-                            continue;
-                        }
-                        if let Err(e) = f.write_all(&buffer) {
+                        let mut written =
+                            f.seek(SeekFrom::Start(0)).and_then(|_| f.write_all(&buffer));
+                        if let Err(e) = &written {
                             error!(target: "consensus_chain", ?e, ?slot, "failed to write to a latest consensus state file");
-                            continue;
-                        }
-                        if old_epoch != epoch {
-                            sync_all_with_log(f);
+                        } else if old_epoch != epoch {
+                            written = sync_all_with_log(f);
                         }
+                        latest = Some((slot, written));
                     }
                     LatestConsensusCommand::Persist(tx) => {
-                        sync_all_with_log(&slot1);
-                        sync_all_with_log(&slot2);
-                        let _ = tx.send(());
+                        let synced1 = sync_all_with_log(&slot1);
+                        let synced2 = sync_all_with_log(&slot2);
+                        let result = match &mut latest {
+                            Some((slot, written)) => {
+                                if written.is_ok() {
+                                    *written = match slot {
+                                        ConsensusSlot::Slot1 => synced1,
+                                        ConsensusSlot::Slot2 => synced2,
+                                    };
+                                }
+                                written
+                                    .as_ref()
+                                    .map(|_| ())
+                                    .map_err(|e| std::io::Error::new(e.kind(), e.to_string()))
+                            }
+                            None => Ok(()),
+                        };
+                        let _ = tx.send(result);
                     }
                     LatestConsensusCommand::Shutdown => {
-                        sync_all_with_log(&slot1);
-                        sync_all_with_log(&slot2);
+                        let _ = sync_all_with_log(&slot1);
+                        let _ = sync_all_with_log(&slot2);
                         break;
                     }
                 }
@@ -280,11 +295,18 @@ impl LatestConsensus {
         }
     }
 
-    /// Persist the saved state fully to disk.
-    async fn persist(&self) {
+    /// Persist the saved state fully to disk.  Fails if the latest state could not be written.
+    async fn sync(&self) -> Result<(), ConsensusChainError> {
         let (tx, rx) = oneshot::channel();
-        let _ = self.tx.send(LatestConsensusCommand::Persist(tx)).await;
-        let _ = rx.await;
+        let closed = || std::io::Error::other("the latest consensus thread is gone");
+        self.tx.send(LatestConsensusCommand::Persist(tx)).await.map_err(|_| closed())?;
+        rx.await.map_err(|_| closed())??;
+        Ok(())
+    }
+
+    /// [`Self::sync`] when only the number can be behind, the packs know better then.
+    async fn persist(&self) {
+        let _ = self.sync().await;
     }
 
     /// Return the current Epoch.
@@ -829,6 +851,14 @@ impl ConsensusChain {
             // If this an open pack file then save.
             // Note, saving an output that is already in the pack is a no-op, not an error
             // so this is fine.
+            if epoch != self.latest_consensus.epoch() {
+                // A restart starts with the epoch of the latest slot: it must not stay behind
+                // once the new epoch's pack holds an output. A slot that is ahead of its pack
+                // comes down to it at the next start.
+                self.latest_consensus.update(epoch, number).await;
+                self.latest_consensus.sync().await?;
+                return Ok(pack.save_consensus_output(consensus).await?);
+            }
             let output_bytes = pack.save_consensus_output(consensus).await?;
             self.latest_consensus.update(epoch, number).await;
             Ok(output_bytes)
-- 
2.43.0


From e7a3cd11b011512c7e9cb49d437015ea84c78262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:29 +0000
Subject: [PATCH 30/38] fix: the first record of an epoch keeps its final
 number

A later record for an epoch that already has one is ignored by the store, yet
its final consensus number replaced the stored one, so numbers resolved to
wrong epochs until the next restart.
---
 crates/storage/src/epoch_records.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index cc43e14..c089081 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -491,9 +491,8 @@ impl EpochRecordDb {
         if epoch > finals_len {
             return Err(EpochDbError::EpochOutOfOrder(finals_len as u32, epoch as u32));
         }
-        if epoch < finals_len {
-            finals[epoch] = number;
-        } else {
+        // The record that is stored first stays.
+        if epoch == finals_len {
             finals.push(number);
         }
         Ok(())
-- 
2.43.0


From fc15bbcccf789f8b1d9d05f5ee73bb9b8a132885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:29 +0000
Subject: [PATCH 31/38] fix: no digest index outlives epoch records that failed
 to commit

After a failed commit the digest indexes were still written when the store was
dropped: they then covered records and certificates that are not there.
---
 crates/storage/src/epoch_records.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index c089081..c101145 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -1443,9 +1443,17 @@ impl Inner {
 
     fn persist(&mut self) -> Result<(), EpochDbError> {
         if !self.records.read_only() {
-            self.records.commit().map_err(|e| EpochDbError::PersistError(e.to_string()))?;
-            self.certs.commit().map_err(|e| EpochDbError::PersistError(e.to_string()))?;
-            self.epoch_idx.sync().map_err(|e| EpochDbError::PersistError(e.to_string()))?;
+            // What was appended may be lost if a commit fails: no digest index may cover it.
+            let committed = self.records.commit().and_then(|_| self.certs.commit());
+            if let Err(e) = committed {
+                self.record_digests.fail_sync();
+                self.cert_digests.fail_sync();
+                return Err(EpochDbError::PersistError(e.to_string()));
+            }
+            if let Err(e) = self.epoch_idx.sync() {
+                self.record_digests.fail_sync();
+                return Err(EpochDbError::PersistError(e.to_string()));
+            }
             self.record_digests.sync().map_err(|e| EpochDbError::PersistError(e.to_string()))?;
             self.cert_digests.sync().map_err(|e| EpochDbError::PersistError(e.to_string()))?;
         }
-- 
2.43.0


From 1a8c01bb7dfb2515710eaa159dd7d1b0d888fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:29 +0000
Subject: [PATCH 32/38] fix: open epoch records by rolling the digest indexes
 forward

Opening cut the record and certificate files down to what the digest indexes
covered, or did not cut what they did not: after a crash between the syncs of
one persist() this lost durable records or left them without an index entry,
and a read error was taken for damage.
---
 crates/storage/src/consensus_pack.rs |  2 +-
 crates/storage/src/epoch_records.rs  | 98 ++++++++++++++++++----------
 2 files changed, 65 insertions(+), 35 deletions(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 634cd44..ccf115a 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -1416,7 +1416,7 @@ pub(crate) fn fetch_error_is_absent(err: &FetchError) -> bool {
 }
 
 /// True if `err` is the disk failing to read, as opposed to a record that is not there or damaged.
-fn is_read_failure(err: &FetchError) -> bool {
+pub(crate) fn is_read_failure(err: &FetchError) -> bool {
     matches!(err, FetchError::IO(e) if e.kind() != io::ErrorKind::UnexpectedEof)
 }
 
diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index c101145..b451f92 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -36,7 +36,7 @@ use crate::{
         pack::{Pack, PackCompression, DATA_HEADER_BYTES},
         position_index::index::PositionIndex,
     },
-    consensus_pack::fetch_error_is_absent,
+    consensus_pack::{fetch_error_is_absent, is_read_failure},
     error_latch::latch_first_error,
 };
 
@@ -1113,54 +1113,84 @@ impl Inner {
     /// Sentinel pack-header tag for the certs file.
     const CERT_PACK_EPOCH: u64 = 1;
 
-    /// Truncate records and its indexes back to a consistent state.
+    /// Bring records and its indexes back to a consistent state.
     fn heal_records(
         records: &mut Pack<EpochRecord>,
         epoch_idx: &mut PositionIndex<u64>,
-        record_digests: &HdxIndex,
+        record_digests: &mut HdxIndex,
     ) -> Result<(), EpochDbError> {
         let records_len = records.file_len();
-        let digest_final = record_digests.data_file_length();
-        if records_len > digest_final && digest_final > DATA_HEADER_BYTES as u64 {
-            records.truncate(digest_final)?;
-        }
-        let records_len = records.file_len();
-        if !epoch_idx.is_empty() {
-            let mut new_len = records_len;
-            let start_idx = epoch_idx.len() as u64 - 1;
-            let mut idx = start_idx;
-            loop {
-                if let Ok(last_record) = epoch_idx.load(idx) {
-                    let size_res = records.record_size(last_record);
-                    if size_res.is_ok() {
-                        epoch_idx.truncate_to_index(idx)?;
-                        new_len = last_record + size_res.unwrap_or_default() as u64;
-                        break;
-                    }
-                }
-                if idx == 0 {
-                    epoch_idx.truncate_all()?;
+        let indexed = record_digests.data_file_length();
+        let start_len = epoch_idx.len() as u64;
+        let mut len = start_len;
+        // Without any record left only the header is.
+        let mut new_len = DATA_HEADER_BYTES as u64;
+        while len > 0 {
+            let last = epoch_idx
+                .load(len - 1)
+                .and_then(|pos| Ok((pos, pos + records.record_size(pos)? as u64)));
+            match last {
+                Ok((_, end)) => {
+                    new_len = end;
                     break;
                 }
-                idx -= 1;
+                // A disk that fails to read says nothing about the record.
+                Err(e) if is_read_failure(&e) => return Err(e.into()),
+                Err(_) => len -= 1,
             }
-            if new_len != records_len {
-                records.truncate(new_len)?;
+        }
+        let mut first_missing = len;
+        while first_missing > 0 && epoch_idx.load(first_missing - 1)? >= indexed {
+            first_missing -= 1;
+        }
+        // A crash can come before the digest index is synced: index what it misses.
+        for idx in first_missing..len {
+            let pos = epoch_idx.load(idx)?;
+            match records.fetch(pos) {
+                Ok(record) => record_digests
+                    .save(record.digest().into(), pos)
+                    .map_err(|e| EpochDbError::IndexAppend(format!("record digest: {e}")))?,
+                Err(e) if is_read_failure(&e) => return Err(e.into()),
+                Err(_) => {
+                    len = idx;
+                    new_len = pos;
+                    break;
+                }
             }
         }
+        if len == 0 && start_len > 0 {
+            epoch_idx.truncate_all()?;
+        } else if len < start_len {
+            epoch_idx.truncate_to_index(len - 1)?;
+        }
+        if start_len > 0 && new_len < records_len {
+            records.truncate(new_len)?;
+        }
+        record_digests.set_data_file_length(records.file_len());
         Ok(())
     }
 
-    /// Truncate the certs file back to a consistent state.
+    /// Bring certs and its index back to a consistent state.
     fn heal_certs(
         certs: &mut Pack<EpochCertificate>,
-        cert_digests: &HdxIndex,
+        cert_digests: &mut HdxIndex,
     ) -> Result<(), EpochDbError> {
-        let certs_len = certs.file_len();
-        let digest_final = cert_digests.data_file_length();
-        if certs_len > digest_final && digest_final > DATA_HEADER_BYTES as u64 {
-            certs.truncate(digest_final)?;
+        // A crash can come before the digest index is synced, or while it is: it may or may not
+        // know of the certs past the length it covers.
+        let mut pos = cert_digests.data_file_length().max(DATA_HEADER_BYTES as u64);
+        while pos < certs.file_len() {
+            match certs.fetch(pos).and_then(|cert| Ok((cert, certs.record_size(pos)?))) {
+                Ok((cert, size)) => {
+                    cert_digests
+                        .save(cert.epoch_hash.into(), pos)
+                        .map_err(|e| EpochDbError::IndexAppend(format!("cert digest: {e}")))?;
+                    pos += size as u64;
+                }
+                Err(e) if is_read_failure(&e) => return Err(e.into()),
+                Err(_) => certs.truncate(pos)?,
+            }
         }
+        cert_digests.set_data_file_length(certs.file_len());
         Ok(())
     }
 
@@ -1214,8 +1244,8 @@ impl Inner {
             cert_digests.set_data_file_length(certs.file_len());
         }
 
-        Self::heal_records(&mut records, &mut epoch_idx, &record_digests)?;
-        Self::heal_certs(&mut certs, &cert_digests)?;
+        Self::heal_records(&mut records, &mut epoch_idx, &mut record_digests)?;
+        Self::heal_certs(&mut certs, &mut cert_digests)?;
 
         // Derive start_epoch from the first stored record if present.
         let start_epoch = if !epoch_idx.is_empty() {
-- 
2.43.0


From 3e3d8ad512f890301d496a1f797532c4d83ea0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:17 +0000
Subject: [PATCH 33/38] hook: drive the peer manager under simulation

---
 crates/network-libp2p/src/peers/manager.rs |   6 +
 crates/network-libp2p/src/peers/mod.rs     |   2 +
 crates/network-libp2p/src/peers/sim.rs     | 247 +++++++++++++++++++++
 crates/network-libp2p/src/sim.rs           |   4 +
 4 files changed, 259 insertions(+)
 create mode 100644 crates/network-libp2p/src/peers/sim.rs

diff --git a/crates/network-libp2p/src/peers/manager.rs b/crates/network-libp2p/src/peers/manager.rs
index 353f187..7a914b0 100644
--- a/crates/network-libp2p/src/peers/manager.rs
+++ b/crates/network-libp2p/src/peers/manager.rs
@@ -700,6 +700,12 @@ impl PeerManager {
         self.peers.get_peer(peer_id).map(|peer| peer.score().aggregate_score())
     }
 
+    /// The connection status kept of a peer, for simulation.
+    #[cfg(tn_sim)]
+    pub(super) fn sim_status(&self, peer_id: &PeerId) -> Option<ConnectionStatus> {
+        self.peers.get_peer(peer_id).map(|peer| *peer.connection_status())
+    }
+
     /// Bool indicating if the peer is operator-allowlisted or a validator.
     pub(crate) fn peer_is_important(&self, peer_id: &PeerId) -> bool {
         self.is_peer_validator(peer_id)
diff --git a/crates/network-libp2p/src/peers/mod.rs b/crates/network-libp2p/src/peers/mod.rs
index af11d02..fc1d6e4 100644
--- a/crates/network-libp2p/src/peers/mod.rs
+++ b/crates/network-libp2p/src/peers/mod.rs
@@ -7,6 +7,8 @@ mod cache;
 mod manager;
 mod peer;
 mod score;
+#[cfg(tn_sim)]
+pub(crate) mod sim;
 mod status;
 mod types;
 pub(crate) use manager::PeerManager;
diff --git a/crates/network-libp2p/src/peers/sim.rs b/crates/network-libp2p/src/peers/sim.rs
new file mode 100644
index 0000000..a659da8
--- /dev/null
+++ b/crates/network-libp2p/src/peers/sim.rs
@@ -0,0 +1,247 @@
+//! Seam for deterministic simulation (`--cfg tn_sim`): the peer manager without a swarm.
+
+use super::{cache::BannedPeerCache, manager::PeerManager, status::ConnectionStatus, PeerEvent};
+use crate::{metrics::PeerManagerMetrics, types::{NetworkInfo, NetworkResult, NetworkType}, Penalty};
+use libp2p::{
+    core::{transport::PortUse, ConnectedPoint, Endpoint},
+    swarm::{
+        behaviour::ConnectionEstablished, dial_opts::PeerCondition, ConnectionClosed, ConnectionId, DialError, DialFailure,
+        FromSwarm, NetworkBehaviour as _, ToSwarm,
+    },
+    Multiaddr, PeerId,
+};
+use std::{
+    collections::HashSet,
+    task::{Context, Poll},
+    time::Duration,
+};
+use tn_config::PeerConfig;
+use tn_types::BlsPublicKey;
+use tokio::sync::oneshot;
+
+/// What the peer manager asks of its swarm.
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub enum PeerOutput {
+    /// The peer counts as connected.
+    Connected(PeerId),
+    /// The peer counts as disconnected.
+    Disconnected(PeerId),
+    /// Close the connections to the peer, with a list of other peers if set.
+    Disconnect(PeerId, bool),
+    /// Take no messages from the peer.
+    Banned(PeerId),
+    /// Take messages from the peer again.
+    Unbanned(PeerId),
+    /// Look for these authorities.
+    Missing(Vec<BlsPublicKey>),
+    /// Look for more peers.
+    Discovery,
+    /// Dial the peer.
+    Dial(PeerId),
+}
+
+/// A peer manager.
+#[allow(missing_debug_implementations)]
+pub struct Peers(PeerManager);
+
+impl Peers {
+    /// A new one. Needs a tokio runtime.
+    pub fn new(local: PeerId, config: &PeerConfig) -> Self {
+        Self(PeerManager::new(
+            local,
+            config,
+            PeerManagerMetrics::new_for(&NetworkType::Worker(0)),
+        ))
+    }
+    /// The next thing it asks for.
+    pub fn poll(&mut self, cx: &mut Context<'_>) -> Option<PeerOutput> {
+        match self.0.poll(cx) {
+            Poll::Ready(ToSwarm::GenerateEvent(event)) => Some(match event {
+                PeerEvent::PeerConnected(peer, _) => PeerOutput::Connected(peer),
+                PeerEvent::PeerDisconnected(peer) => PeerOutput::Disconnected(peer),
+                PeerEvent::DisconnectPeer(peer) => PeerOutput::Disconnect(peer, false),
+                PeerEvent::DisconnectPeerX(peer, _) => PeerOutput::Disconnect(peer, true),
+                PeerEvent::Banned(peer) => PeerOutput::Banned(peer),
+                PeerEvent::Unbanned(peer) => PeerOutput::Unbanned(peer),
+                PeerEvent::MissingAuthorities(keys) => PeerOutput::Missing(keys),
+                PeerEvent::Discovery => PeerOutput::Discovery,
+            }),
+            Poll::Ready(ToSwarm::Dial { opts }) => opts.get_peer_id().map(PeerOutput::Dial),
+            _ => None,
+        }
+    }
+    /// Someone connects from this address.
+    pub fn inbound_pending(&mut self, addr: &Multiaddr) -> bool {
+        let id = ConnectionId::new_unchecked(0);
+        self.0.handle_pending_inbound_connection(id, &Multiaddr::empty(), addr).is_ok()
+    }
+    /// It turned out to be this peer.
+    pub fn inbound(&mut self, peer: PeerId, addr: &Multiaddr) -> bool {
+        let id = ConnectionId::new_unchecked(0);
+        self.0.handle_established_inbound_connection(id, peer, &Multiaddr::empty(), addr).is_ok()
+    }
+    /// The swarm is about to dial this peer.
+    pub fn outbound_pending(&mut self, peer: PeerId) -> bool {
+        let id = ConnectionId::new_unchecked(0);
+        self.0.handle_pending_outbound_connection(id, Some(peer), &[], Endpoint::Dialer).is_ok()
+    }
+    /// The peer was reached.
+    pub fn outbound(&mut self, peer: PeerId, addr: &Multiaddr) -> bool {
+        let id = ConnectionId::new_unchecked(0);
+        let (role, port) = (Endpoint::Dialer, PortUse::Reuse);
+        self.0.handle_established_outbound_connection(id, peer, addr, role, port).is_ok()
+    }
+    fn endpoint(addr: &Multiaddr, dialed: bool) -> ConnectedPoint {
+        if dialed {
+            ConnectedPoint::Dialer {
+                address: addr.clone(),
+                role_override: Endpoint::Dialer,
+                port_use: PortUse::Reuse,
+            }
+        } else {
+            ConnectedPoint::Listener { local_addr: Multiaddr::empty(), send_back_addr: addr.clone() }
+        }
+    }
+    /// A connection stands.
+    pub fn established(&mut self, peer: PeerId, addr: &Multiaddr, dialed: bool, others: usize) {
+        self.0.on_swarm_event(FromSwarm::ConnectionEstablished(ConnectionEstablished {
+            peer_id: peer,
+            connection_id: ConnectionId::new_unchecked(0),
+            endpoint: &Self::endpoint(addr, dialed),
+            failed_addresses: &[],
+            other_established: others,
+        }));
+    }
+    /// A connection was closed.
+    pub fn closed(&mut self, peer: PeerId, addr: &Multiaddr, dialed: bool, remaining: usize) {
+        self.0.on_swarm_event(FromSwarm::ConnectionClosed(ConnectionClosed {
+            peer_id: peer,
+            connection_id: ConnectionId::new_unchecked(0),
+            endpoint: &Self::endpoint(addr, dialed),
+            cause: None,
+            remaining_established: remaining,
+        }));
+    }
+    /// A dial failed.
+    pub fn dial_failed(&mut self, peer: PeerId) {
+        self.0.on_swarm_event(FromSwarm::DialFailure(DialFailure {
+            peer_id: Some(peer),
+            error: &DialError::Aborted,
+            connection_id: ConnectionId::new_unchecked(0),
+        }));
+    }
+    /// The swarm refused to dial since there is a connection.
+    pub fn dial_condition_failed(&mut self, peer: PeerId) {
+        self.0.on_swarm_event(FromSwarm::DialFailure(DialFailure {
+            peer_id: Some(peer),
+            error: &DialError::DialPeerConditionFalse(PeerCondition::Disconnected),
+            connection_id: ConnectionId::new_unchecked(0),
+        }));
+    }
+    /// The application reports a peer.
+    pub fn penalty(&mut self, peer: PeerId, penalty: Penalty) {
+        self.0.process_penalty(peer, penalty);
+    }
+    /// A new epoch.
+    pub fn committees(
+        &mut self,
+        previous: HashSet<BlsPublicKey>,
+        current: HashSet<BlsPublicKey>,
+        next: HashSet<BlsPublicKey>,
+    ) {
+        self.0.update_committees(previous, current, next);
+    }
+    /// The application is about to dial these.
+    pub fn prepare_committee_dial(&mut self, committee: HashSet<BlsPublicKey>) {
+        self.0.prepare_committee_dial(committee);
+    }
+    /// The operator trusts this peer.
+    pub fn trusted(
+        &mut self,
+        key: BlsPublicKey,
+        info: NetworkInfo,
+        reply: oneshot::Sender<NetworkResult<()>>,
+    ) {
+        self.0.add_trusted_peer_and_dial(key, info, reply);
+    }
+    /// A record was found.
+    pub fn discovered(&mut self, key: BlsPublicKey, info: NetworkInfo) {
+        self.0.add_discovered_peer(key, info);
+    }
+    /// A peer sent its own record.
+    pub fn self_advertised(&mut self, source: PeerId, key: BlsPublicKey, info: NetworkInfo) {
+        self.0.add_self_advertised_peer(source, key, info);
+    }
+    /// The application dials a peer.
+    pub fn dial(
+        &mut self,
+        peer: PeerId,
+        addrs: Vec<Multiaddr>,
+        reply: oneshot::Sender<NetworkResult<()>>,
+    ) {
+        self.0.dial_peer(peer, addrs, Some(reply));
+    }
+    /// Would the peer be turned away?
+    pub fn banned(&self, peer: &PeerId) -> bool {
+        self.0.peer_banned(peer)
+    }
+    /// The peer's score.
+    pub fn score(&self, peer: &PeerId) -> Option<f64> {
+        self.0.peer_score(peer)
+    }
+    /// Is the peer a validator or trusted?
+    pub fn important(&self, peer: &PeerId) -> bool {
+        self.0.peer_is_important(peer)
+    }
+    /// Where an authority is.
+    pub fn authority(&self, key: BlsPublicKey) -> Option<PeerId> {
+        self.0.auth_to_peer(key).map(|(peer, _)| peer)
+    }
+    /// Connected and dialed peers.
+    pub fn connected_or_dialing(&self) -> Vec<PeerId> {
+        self.0.connected_or_dialing_peers()
+    }
+    /// What is kept of a peer: `c`onnected, `d`ialing, disconnectin`g`, `b`anned, `o`ff or `u`nknown.
+    pub fn status(&self, peer: &PeerId) -> Option<char> {
+        self.0.sim_status(peer).map(|status| match status {
+            ConnectionStatus::Connected { .. } => 'c',
+            ConnectionStatus::Dialing { .. } => 'd',
+            ConnectionStatus::Disconnecting { .. } => 'g',
+            ConnectionStatus::Banned { .. } => 'b',
+            ConnectionStatus::Disconnected { .. } => 'o',
+            ConnectionStatus::Unknown => 'u',
+        })
+    }
+}
+
+/// A cache of banned keys.
+#[derive(Debug)]
+pub struct Bans(BannedPeerCache<u64>);
+
+impl Bans {
+    /// A new one.
+    pub fn new(duration: Duration, max: usize) -> Self {
+        Self(BannedPeerCache::new(duration, max))
+    }
+    /// Ban: was it new, and whose ban is lifted for it?
+    pub fn insert(&mut self, key: u64) -> (bool, Option<u64>) {
+        self.0.insert(key)
+    }
+    /// Lift a ban.
+    pub fn remove(&mut self, key: u64) -> bool {
+        self.0.remove(&key)
+    }
+    /// Lift the bans whose time is up.
+    pub fn heartbeat(&mut self) -> Vec<u64> {
+        self.0.heartbeat()
+    }
+    /// Is it banned?
+    pub fn contains(&self, key: u64) -> bool {
+        self.0.contains(&key)
+    }
+    /// How many are.
+    #[allow(clippy::len_without_is_empty)]
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+}
diff --git a/crates/network-libp2p/src/sim.rs b/crates/network-libp2p/src/sim.rs
index 2f89dd6..c4c7387 100644
--- a/crates/network-libp2p/src/sim.rs
+++ b/crates/network-libp2p/src/sim.rs
@@ -1,6 +1,10 @@
 //! Seam for deterministic simulation (`--cfg tn_sim`): swarms run over a simulated transport.
 
 use libp2p::core::{muxing::StreamMuxerBox, transport::Boxed};
+pub use crate::{
+    peers::sim::{Bans, PeerOutput, Peers},
+    types::NetworkInfo,
+};
 pub use libp2p::{self, PeerId};
 use std::sync::OnceLock;
 
-- 
2.43.0


From f091ea8faafea4ad6bd95627491b9621d3d8731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 34/38] fix: keep a peer banned by its reputation blacklisted
 when its temporary ban ends

---
 crates/network-libp2p/src/peers/all_peers.rs | 10 ++++++++++
 crates/network-libp2p/src/peers/manager.rs   | 13 +++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/network-libp2p/src/peers/all_peers.rs b/crates/network-libp2p/src/peers/all_peers.rs
index 718d796..30c3ee7 100644
--- a/crates/network-libp2p/src/peers/all_peers.rs
+++ b/crates/network-libp2p/src/peers/all_peers.rs
@@ -831,6 +831,16 @@ impl AllPeers {
         self.bls_by_peer_id.get(peer_id).copied()
     }
 
+    /// Resolve a [BlsPublicKey] to the libp2p [PeerId] of its confirmed record, if there is one.
+    pub(super) fn peer_for_bls(&self, bls_key: &BlsPublicKey) -> Option<PeerId> {
+        self.peers.get(&PeerIdentity::Confirmed(*bls_key)).and_then(|peer| peer.peer_id())
+    }
+
+    /// Boolean indicating if this peer is banned by its own reputation.
+    pub(super) fn reputation_banned(&self, peer_id: &PeerId) -> bool {
+        self.get_peer(peer_id).is_some_and(|peer| peer.reputation().banned())
+    }
+
     /// Boolean indicating if this peer is a validator in the previous, current, or next committee.
     ///
     /// Membership spans all three tracked committees so peers from the just-completed epoch are not
diff --git a/crates/network-libp2p/src/peers/manager.rs b/crates/network-libp2p/src/peers/manager.rs
index 7a914b0..8a4a1ea 100644
--- a/crates/network-libp2p/src/peers/manager.rs
+++ b/crates/network-libp2p/src/peers/manager.rs
@@ -356,7 +356,16 @@ impl PeerManager {
     fn temporarily_ban(&mut self, peer_id: PeerId) {
         let (_is_new, evicted) = self.temporarily_banned.insert(peer_id);
         if let Some(evicted_peer) = evicted {
-            self.push_event(PeerEvent::Unbanned(evicted_peer));
+            self.temporary_ban_lifted(evicted_peer);
+        }
+    }
+
+    /// Emit [`PeerEvent::Unbanned`] for a peer that left the temporary-ban cache.
+    ///
+    /// A peer whose reputation still bans it stays banned until its score recovers.
+    fn temporary_ban_lifted(&mut self, peer_id: PeerId) {
+        if !self.peers.reputation_banned(&peer_id) {
+            self.push_event(PeerEvent::Unbanned(peer_id));
         }
     }
 
@@ -637,7 +646,7 @@ impl PeerManager {
     /// Peers are temporarily "banned" when trying to connect while this node has excess peers.
     fn unban_temp_banned_peers(&mut self) {
         for peer_id in self.temporarily_banned.heartbeat() {
-            self.push_event(PeerEvent::Unbanned(peer_id));
+            self.temporary_ban_lifted(peer_id);
         }
     }
 
-- 
2.43.0


From aedb88477af5cd5f36465ee1f1a72475429ddfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 35/38] fix: lift the temporary ban of every confirmed
 committee member

---
 crates/network-libp2p/src/peers/manager.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/network-libp2p/src/peers/manager.rs b/crates/network-libp2p/src/peers/manager.rs
index 8a4a1ea..0b48099 100644
--- a/crates/network-libp2p/src/peers/manager.rs
+++ b/crates/network-libp2p/src/peers/manager.rs
@@ -790,7 +790,9 @@ impl PeerManager {
     /// [`Self::add_known_peer`]).
     fn forgive_temporarily_banned(&mut self, committee: &HashSet<BlsPublicKey>) {
         for bls_key in committee {
-            if let Some((peer_id, _)) = self.auth_to_peer(*bls_key) {
+            let peer_id = self.auth_to_peer(*bls_key).map(|(peer_id, _)| peer_id);
+            // a peer that advertised itself before it was a member is confirmed but not cached
+            if let Some(peer_id) = peer_id.or_else(|| self.peers.peer_for_bls(bls_key)) {
                 if self.temporarily_banned.remove(&peer_id) {
                     warn!(target: "peer-manager", ?peer_id, "removed committee member from temporarily banned list");
                 }
@@ -997,6 +999,9 @@ impl PeerManager {
         // (closing the trust window) instead of waiting for the next epoch's `update_committees`.
         // `upsert_peer` just re-keyed it onto its `Confirmed` identity, so the trust pass can
         // resolve its peer id immediately.
+        if self.peers.is_committee_member(&bls_key) {
+            self.forgive_temporarily_banned(&HashSet::from([bls_key]));
+        }
         let unban_actions = self.peers.apply_membership_if_committee(bls_key);
         self.apply_unban_actions(unban_actions);
     }
-- 
2.43.0


From 5dc7d68f1469e1aef0b6b32f3d31fdc3a325b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 36/38] fix: never prune the records of trusted peers and
 validators

---
 crates/network-libp2p/src/peers/all_peers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/network-libp2p/src/peers/all_peers.rs b/crates/network-libp2p/src/peers/all_peers.rs
index 30c3ee7..051d7b1 100644
--- a/crates/network-libp2p/src/peers/all_peers.rs
+++ b/crates/network-libp2p/src/peers/all_peers.rs
@@ -1025,6 +1025,11 @@ impl AllPeers {
         let mut excess_peers = BinaryHeap::with_capacity(excess);
 
         for (id, peer) in &self.peers {
+            // the record is what identifies a validator and what makes a peer trusted: peers that
+            // come and go must not be able to push it out
+            if self.trust_basis_for(id).is_some() {
+                continue;
+            }
             if let Some(instant) = filter(peer.connection_status()) {
                 // max-heap by instant: the heap's top (peek) is the NEWEST collected peer
                 let entry = (instant, *id, peer.known_ip_addresses().collect::<Vec<_>>());
-- 
2.43.0


From d9a8acd194760e4dec313e4963de0fb0965f08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 37/38] fix: a ban lasts its minimum time from now, not from a
 stale score update

---
 crates/network-libp2p/src/peers/score.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/network-libp2p/src/peers/score.rs b/crates/network-libp2p/src/peers/score.rs
index a92d289..01109e5 100644
--- a/crates/network-libp2p/src/peers/score.rs
+++ b/crates/network-libp2p/src/peers/score.rs
@@ -150,7 +150,8 @@ impl Score {
             let config = global_score_config();
 
             // ban the peer for at least BANNED_BEFORE_DECAY seconds
-            self.last_updated += config.banned_before_decay();
+            // (the score of a peer that was exempt may not have been updated for long)
+            self.last_updated = Instant::now() + config.banned_before_decay();
         }
     }
 
-- 
2.43.0


From bdea1f36ca2d2ba1a827abfcd31f51ae1b8e3979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 38/38] fix: announce that a peer disconnected whenever its
 last connection closes

---
 crates/network-libp2p/src/peers/behavior.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/network-libp2p/src/peers/behavior.rs b/crates/network-libp2p/src/peers/behavior.rs
index 277d275..72c8df5 100644
--- a/crates/network-libp2p/src/peers/behavior.rs
+++ b/crates/network-libp2p/src/peers/behavior.rs
@@ -292,13 +292,14 @@ impl PeerManager {
             return;
         }
 
-        // there are no more connections
-        if self.is_peer_connected_or_disconnecting(&peer_id) {
-            // if the peer's connection status is either `Connected` or `Disconnecting`,
-            // ensure the application layer is notified the peer has disconnected
-            self.push_event(PeerEvent::PeerDisconnected(peer_id));
-            debug!(target: "peer-manager", ?peer_id, "peer disconnected");
+        // there are no more connections: ensure the application layer is notified the peer has
+        // disconnected, even if a dial that failed while the connection was being closed has
+        // already registered the peer as disconnected or banned
+        if !self.is_peer_connected_or_disconnecting(&peer_id) {
+            debug!(target: "peer-manager", ?peer_id, "connection closed for disconnected peer");
         }
+        self.push_event(PeerEvent::PeerDisconnected(peer_id));
+        debug!(target: "peer-manager", ?peer_id, "peer disconnected");
 
         // if this node has too many peers, disconnect from the peer.
         // when this happens, the peer manager still needs to register this peer
-- 
2.43.0

