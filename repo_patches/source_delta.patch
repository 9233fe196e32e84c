From 8a9b78096741866b1d6298dfcea483394d53065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 01/22] fix: don't panic on an htree node whose count exceeds
 the block

---
 src/dir_block.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index b7138ee..1ef1763 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -68,7 +68,7 @@ impl DirBlock<'_> {
         let actual_checksum = if block_type == DirBlockType::Leaf {
             self.calc_leaf_checksum(block)
         } else {
-            self.calc_internal_checksum(block, block_type)
+            self.calc_internal_checksum(block, block_type)?
         };
 
         if actual_checksum.finalize() == expected_checksum {
@@ -105,7 +105,7 @@ impl DirBlock<'_> {
         &self,
         block: &[u8],
         block_type: DirBlockType,
-    ) -> Checksum {
+    ) -> Result<Checksum, Ext4Error> {
         let tail_entry_size = 8;
 
         // OK to unwrap: minimum block size is 1024.
@@ -131,11 +131,15 @@ impl DirBlock<'_> {
             .unwrap();
 
         let mut checksum = self.checksum_base.clone();
-        checksum.update(&block[..num_bytes]);
+        // `count` comes from disk, so it may be too large for the block.
+        let entries = block
+            .get(..num_bytes)
+            .ok_or(CorruptKind::DirBlockChecksum(self.dir_inode))?;
+        checksum.update(entries);
         checksum.update_u32_le(read_u32le(block, tail_entry_offset));
         checksum.update_u32_le(0);
 
-        checksum
+        Ok(checksum)
     }
 
     fn get_block_type(&self, block: &[u8]) -> DirBlockType {
-- 
2.43.0


From 68725ab062b54d1759ee53f1c7ebb28758565624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 02/22] fix: reject 64-bit block group descriptors smaller than
 64 bytes

---
 src/block_group.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 47be0a7..5e1ac5e 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -27,6 +27,10 @@ pub(crate) struct BlockGroupDescriptor {
 impl BlockGroupDescriptor {
     const BG_CHECKSUM_OFFSET: usize = 0x1e;
 
+    /// Minimum size in bytes of a descriptor when the 64-bit feature is
+    /// enabled.
+    const MIN_SIZE_64BIT: usize = 64;
+
     fn from_bytes(superblock: &Superblock, bytes: &[u8]) -> Self {
         const BG_INODE_TABLE_HI_OFFSET: usize = 0x28;
 
@@ -79,9 +83,21 @@ impl BlockGroupDescriptor {
         reader: &mut dyn Ext4Read,
         bgd_index: BlockGroupIndex,
     ) -> Result<Self, Ext4Error> {
-        // Allocate a byte vec to read the raw data into.
         let block_group_descriptor_size =
             usize::from(sb.block_group_descriptor_size);
+
+        // With the 64-bit feature enabled, descriptors are at least 64
+        // bytes long; anything smaller cannot hold all the fields that
+        // are read below.
+        if sb
+            .incompatible_features
+            .contains(IncompatibleFeatures::IS_64BIT)
+            && block_group_descriptor_size < Self::MIN_SIZE_64BIT
+        {
+            return Err(CorruptKind::BlockGroupDescriptor(bgd_index).into());
+        }
+
+        // Allocate a byte vec to read the raw data into.
         let mut data = vec![0; block_group_descriptor_size];
 
         let start = Self::get_start_byte(sb, bgd_index)
-- 
2.43.0


From 002b8e494213b8fd7031f7d07719495877d589c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 03/22] fix: don't preallocate block group descriptors for an
 untrusted count

---
 src/block_group.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 5e1ac5e..84c5b8b 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -12,7 +12,7 @@ use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::features::{IncompatibleFeatures, ReadOnlyCompatibleFeatures};
 use crate::superblock::Superblock;
-use crate::util::{read_u16le, read_u32le, u64_from_hilo, usize_from_u32};
+use crate::util::{read_u16le, read_u32le, u64_from_hilo};
 use alloc::vec;
 use alloc::vec::Vec;
 
@@ -146,8 +146,9 @@ impl BlockGroupDescriptor {
         sb: &Superblock,
         reader: &mut dyn Ext4Read,
     ) -> Result<Vec<Self>, Ext4Error> {
-        let mut block_group_descriptors =
-            Vec::with_capacity(usize_from_u32(sb.num_block_groups));
+        // Don't preallocate: `num_block_groups` comes from the
+        // superblock, so it may be far larger than the actual data.
+        let mut block_group_descriptors = Vec::new();
 
         for bgd_index in 0..sb.num_block_groups {
             let bgd = Self::read(sb, reader, bgd_index)?;
-- 
2.43.0


From caff7da9d5ac6f4e335c8275c9038f15bad2d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 04/22] fix: reject block sizes larger than 64KiB

---
 src/superblock.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/superblock.rs b/src/superblock.rs
index da99256..2c82713 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -79,6 +79,10 @@ impl Superblock {
 
         let block_size = BlockSize::from_superblock_value(s_log_block_size)
             .ok_or(CorruptKind::InvalidBlockSize)?;
+        // Ext4 allows a block size of at most 64KiB.
+        if block_size.to_u32() > 65536 {
+            return Err(CorruptKind::InvalidBlockSize.into());
+        }
 
         if s_magic != 0xef53 {
             return Err(CorruptKind::SuperblockMagic.into());
-- 
2.43.0


From 095d35e0f4fb116a8bc83e9229e90cdc9b808b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 05/22] fix: reject extent nodes with a depth that doesn't
 match the parent

---
 src/iters/extents.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 4236c8a..9b9d41b 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -207,7 +207,8 @@ impl Extents {
             return Ok(None);
         };
 
-        if item.depth == 0 {
+        let depth = item.depth;
+        if depth == 0 {
             let ee_block = read_u32le(entry, 0);
             let ee_len = read_u16le(entry, 4);
             let ee_start_hi = read_u16le(entry, 6);
@@ -234,6 +235,13 @@ impl Extents {
             let child_header =
                 NodeHeader::from_bytes(&child_header, self.inode)?;
 
+            // Each level of the tree must be exactly one less deep than
+            // its parent. This also ensures that iteration terminates
+            // if a node refers to itself or one of its ancestors.
+            if child_header.depth.checked_add(1) != Some(depth) {
+                return Err(CorruptKind::ExtentDepth(self.inode).into());
+            }
+
             // The checksum is written in the four bytes directly after
             // the node.
             let checksum_offset = child_header.checksum_offset();
-- 
2.43.0


From f65bbe3757038bbd66dd365a82e0798da0460442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 06/22] fix: read unwritten extents as zeros

---
 src/iters/extents.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 9b9d41b..1be9d71 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -19,6 +19,10 @@ use alloc::vec::Vec;
 /// entry).
 const ENTRY_SIZE_IN_BYTES: usize = 12;
 
+/// Maximum number of blocks in an initialized extent. Larger values
+/// indicate an unwritten extent.
+const MAX_INITIALIZED_EXTENT_LEN: u16 = 32768;
+
 /// Header at the start of a node in an extent tree.
 ///
 /// An extent tree is made up of nodes. Each node may be internal or
@@ -214,6 +218,13 @@ impl Extents {
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
+            // The length of an unwritten (preallocated) extent is stored
+            // with an offset of 32768. The blocks have been allocated,
+            // but must be read as zeros, so treat the range as a hole.
+            if ee_len > MAX_INITIALIZED_EXTENT_LEN {
+                return Ok(None);
+            }
+
             let start_block =
                 u64_from_hilo(u32::from(ee_start_hi), ee_start_low);
 
-- 
2.43.0


From 73b22829b8709ce29e2409d3275de8488089a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 07/22] fix: treat missing indirect blocks as holes

---
 src/iters/file_blocks/block_map.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iters/file_blocks/block_map.rs b/src/iters/file_blocks/block_map.rs
index c9a316b..8726b83 100644
--- a/src/iters/file_blocks/block_map.rs
+++ b/src/iters/file_blocks/block_map.rs
@@ -191,7 +191,11 @@ struct IndirectBlockIter {
 impl IndirectBlockIter {
     fn new(fs: Ext4, block_index: u32) -> Result<Self, Ext4Error> {
         let mut block = vec![0u8; fs.0.superblock.block_size.to_usize()];
-        fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        // If `block_index` is zero, the whole range covered by this block
+        // is a hole. Leave the block filled with zeros in that case.
+        if block_index != 0 {
+            fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        }
 
         Ok(Self {
             block,
-- 
2.43.0


From 81deab4e27bd7119eacae6d30deceeb44e81d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 08/22] fix: don't panic when reading a file after an error

---
 src/file.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index c9e6b7c..bfb9dce 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,7 @@
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::Inode;
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
@@ -126,10 +126,19 @@ impl File {
         let block_index = if let Some(block_index) = self.block_index {
             block_index
         } else {
-            // OK to unwrap: already checked that the position is not at
-            // the end of the file, so there must be at least one more
-            // block to read.
-            let block_index = self.file_blocks.next().unwrap()?;
+            let block_index = match self.file_blocks.next() {
+                Some(block_index) => block_index?,
+                None => {
+                    // The position is not at the end of the file, so
+                    // either an earlier call failed (which ends the
+                    // iterator), or the inode cannot map this many
+                    // blocks. Start over from the current position.
+                    self.seek_to(self.position)?;
+                    self.file_blocks
+                        .next()
+                        .ok_or(CorruptKind::TooManyBlocksInFile)??
+                }
+            };
 
             self.block_index = Some(block_index);
 
-- 
2.43.0


From 21480d408f287fa12522434c643af29e5a17d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 09/22] fix: propagate errors when seeking, and stop at the end
 of the file

---
 src/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index bfb9dce..1f03595 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -223,7 +223,13 @@ impl File {
         // `position`.
         let num_blocks = position / self.fs.0.superblock.block_size.to_nz_u64();
         for _ in 0..num_blocks {
-            self.file_blocks.next();
+            match self.file_blocks.next() {
+                Some(block_index) => {
+                    block_index?;
+                }
+                // Reached the end of the file.
+                None => break,
+            }
         }
 
         self.position = position;
-- 
2.43.0


From a1da86e26110c7b872e0bb0f858fe3045b04ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 10/22] fix: apply journal revocations to earlier transactions

---
 src/journal/block_map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 95ca2a3..2e5ebeb 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -81,7 +81,8 @@ struct BlockMapLoader<'a> {
     /// Revoked blocks in the current transaction. When a commit block
     /// is reached, any keys in `uncommitted_block_map` that are in this
     /// revoked list will be deleted instead of committing them to
-    /// `block_map`.
+    /// `block_map`. They are also deleted from `block_map`, since a
+    /// revocation applies to earlier transactions as well.
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
@@ -230,11 +231,13 @@ impl<'a> BlockMapLoader<'a> {
     fn process_commit_block(&mut self) -> Result<(), Ext4Error> {
         validate_commit_block_checksum(self.superblock, &self.block)?;
 
-        // Remove any revoked blocks from uncommitted blocks.
+        // Remove any revoked blocks.
         for block_index in &self.revoked_blocks {
             // Don't check the `remove` return value, as a revoked block
             // wasn't necessarily reused later in the transaction.
             self.uncommitted_block_map.remove(block_index);
+            // A revocation also applies to all earlier transactions.
+            self.block_map.remove(block_index);
         }
         self.revoked_blocks.clear();
 
-- 
2.43.0


From 3a0239376d380057caba5ffdff88a678c01c0023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 11/22] fix: handle a clean journal

---
 src/journal.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 6fe4346..eef65a7 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -48,6 +48,12 @@ impl Journal {
 
         let journal_inode = Inode::read(fs, journal_inode)?;
         let superblock = JournalSuperblock::load(fs, &journal_inode)?;
+
+        // A start block of zero means the journal is clean.
+        if superblock.start_block == 0 {
+            return Ok(Self::empty());
+        }
+
         let block_map = load_block_map(fs, &superblock, &journal_inode)?;
 
         Ok(Self { block_map })
-- 
2.43.0


From 1132b6f1c4f38e91944baff49844245517446d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 12/22] fix: follow the journal around its end

The log is circular: after the last block of the journal it continues
at the first block after the journal superblock. Transactions past that
point were ignored.
---
 src/journal/block_map.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 2e5ebeb..fa9914e 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -25,7 +25,7 @@ use crate::util::usize_from_u32;
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::Skip;
+use core::iter::{Chain, Skip, Take};
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -86,8 +86,10 @@ struct BlockMapLoader<'a> {
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
-    /// iterator is advanced to the journal start block.
-    journal_block_iter: Skip<FileBlocks>,
+    /// iterator is advanced to the journal start block. The log is
+    /// circular: after the last block in the journal inode, it continues
+    /// at the first block after the journal superblock.
+    journal_block_iter: Chain<Skip<FileBlocks>, Skip<Take<FileBlocks>>>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -120,12 +122,21 @@ impl<'a> BlockMapLoader<'a> {
         superblock: &'a JournalSuperblock,
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
-        // Get an iterator over the journal's block indices.
-        let journal_block_iter = FileBlocks::new(fs.clone(), journal_inode)?;
+        let start_block = usize_from_u32(superblock.start_block);
 
-        // Skip forward to the start block.
-        let journal_block_iter =
-            journal_block_iter.skip(usize_from_u32(superblock.start_block));
+        // Get an iterator over the journal's block indices, starting at
+        // the start block.
+        let from_start_block =
+            FileBlocks::new(fs.clone(), journal_inode)?.skip(start_block);
+
+        // The log is circular, so after reaching the end of the journal
+        // it wraps around to the first block after the journal
+        // superblock.
+        let wrapped = FileBlocks::new(fs.clone(), journal_inode)?
+            .take(start_block)
+            .skip(1);
+
+        let journal_block_iter = from_start_block.chain(wrapped);
 
         Ok(Self {
             fs,
-- 
2.43.0


From b297bb213f49552ee2db1203885efc9e3953233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 13/22] fix: do not panic on a path with more than 1000
 components

A path of at most 4096 bytes can have over 2000 components, which
triggered the assertion meant to catch infinite loops.
---
 src/resolve.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 4ae6d68..17c168a 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -55,9 +55,10 @@ pub(crate) enum FollowSymlinks {
 ///
 /// # Panics
 ///
-/// This function panics if path resolution takes over 1000
-/// iterations. This should never occur in practice due to other
-/// restrictions, this is just a hedge against unforeseen bugs.
+/// This function panics if path resolution takes more iterations than
+/// is possible with the limits on symlinks and path length. This should
+/// never occur in practice due to other restrictions, this is just a
+/// hedge against unforeseen bugs.
 pub(crate) fn resolve_path(
     fs: &Ext4,
     path: Path<'_>,
@@ -70,10 +71,11 @@ pub(crate) fn resolve_path(
     // enforce a path length limit, but during path resolution the
     // length can grow quite a bit due to symlinks.
     const MAX_PATH_LEN: usize = 4096;
-    // Maximum number of iterations. This limit should never be reached
-    // in practice, this is just to guard against unknown bugs that
-    // could cause an infinite loop.
-    const MAX_ITERATIONS: usize = 1000;
+    // Maximum number of iterations. A path has fewer components than
+    // bytes, and the path can be replaced once per symlink. This limit
+    // should never be reached in practice, this is just to guard against
+    // unknown bugs that could cause an infinite loop.
+    const MAX_ITERATIONS: usize = (MAX_SYMLINKS + 1) * MAX_PATH_LEN;
 
     if !path.is_absolute() {
         return Err(Ext4Error::NotAbsolute);
-- 
2.43.0


From db019083a4cb709f219fb622a43e24ab4d81224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 14/22] fix: return an error if a file is too large to allocate

The size comes from the inode. Reading a file with a huge size panicked
(capacity overflow) or aborted (allocation failure).
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f8aceb..e2b9aca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -368,12 +368,17 @@ impl Ext4 {
     /// Holes are filled with zero.
     ///
     /// Fails with `FileTooLarge` if the size of the file is too large
-    /// to fit in a [`usize`].
+    /// to fit in a [`usize`], or to be allocated.
     fn read_inode_file(&self, inode: &Inode) -> Result<Vec<u8>, Ext4Error> {
         // Get the file size and initialize the output vector.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
-        let mut dst = vec![0; file_size_in_bytes];
+        // The size is not trustworthy, so don't abort if the allocation
+        // fails.
+        let mut dst = Vec::new();
+        dst.try_reserve_exact(file_size_in_bytes)
+            .map_err(|_| Ext4Error::FileTooLarge)?;
+        dst.resize(file_size_in_bytes, 0);
 
         // Use `File` to read the data in chunks.
         let mut file = File::open_inode(self, inode.clone())?;
-- 
2.43.0


From 59dc9023503877b295d4cb7b4aa3d1e60de4f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 15/22] fix: do not treat unused cache entries as block zero

Until the cache filled up, a read of block zero (in a filesystem with a
block size larger than 1024) returned zeros instead of reading the
block.
---
 src/block_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block_cache.rs b/src/block_cache.rs
index c1b6b2f..184b9b4 100644
--- a/src/block_cache.rs
+++ b/src/block_cache.rs
@@ -103,7 +103,9 @@ impl BlockCache {
 
         let entries = vec![
             CacheEntry {
-                block_index: 0,
+                // Not a valid block index, so that an unused entry is
+                // never mistaken for a cached block.
+                block_index: FsBlockIndex::MAX,
                 data: vec![0; opts.block_size.to_usize()].into_boxed_slice(),
             };
             opts.num_entries
-- 
2.43.0


From ec3ee004ccfd09a77f8553d16b54ce46922b032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 16/22] fix: do not produce the reserved directory hash

Linux reserves the hash 0xfffffffe as the end-of-directory marker, and
uses 0xfffffffc for names that hash to it.
---
 src/dir_entry_hash.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index 96710f5..16e841e 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -109,8 +109,14 @@ impl HashAlg {
             }
         };
 
-        // Finalize the hash.
-        hash & !1
+        // Finalize the hash. The highest value is reserved as an
+        // end-of-directory marker.
+        let hash = hash & !1;
+        if hash == 0xffff_fffe {
+            0xffff_fffc
+        } else {
+            hash
+        }
     }
 }
 
-- 
2.43.0


From 33fdc0249e25136d1dfbafc918ebf9f830400315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 17/22] fix: find names whose hash collides across htree leaf
 blocks

When entries with the same hash are split across leaf blocks, the lowest
bit of the hash key of each continuation block is set. Only the first of
these blocks was searched, so names in the others were not found.
---
 src/dir_htree.rs | 184 ++++++++++++++++++++++++++++-------------------
 1 file changed, 112 insertions(+), 72 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 8b1457c..6e328a4 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -23,6 +23,11 @@ use alloc::vec;
 
 type DirHash = u32;
 
+/// Maximum depth of an htree (not counting the root and leaf
+/// levels). Deeper trees require the `large_dir` feature, which is not
+/// supported.
+const MAX_DEPTH: u8 = 1;
+
 // Internal node of an htree.
 //
 // This stores a reference to the raw bytes of entries in an internal
@@ -152,12 +157,9 @@ impl<'a> InternalNode<'a> {
         self.entries.len() / Self::ENTRY_SIZE
     }
 
-    /// Perform a binary search to find the child block index for the
+    /// Perform a binary search to find the index of the entry for the
     /// `lookup_hash`.
-    fn lookup_block_by_hash(
-        &self,
-        lookup_hash: DirHash,
-    ) -> Option<FileBlockIndex> {
+    fn lookup_index_by_hash(&self, lookup_hash: DirHash) -> Option<usize> {
         // Left/right entry index.
         let mut left = 0;
         let mut right = self.num_entries().checked_sub(1)?;
@@ -172,7 +174,17 @@ impl<'a> InternalNode<'a> {
             }
         }
 
-        let index = left.checked_sub(1)?;
+        left.checked_sub(1)
+    }
+
+    /// Perform a binary search to find the child block index for the
+    /// `lookup_hash`.
+    #[cfg(test)]
+    fn lookup_block_by_hash(
+        &self,
+        lookup_hash: DirHash,
+    ) -> Option<FileBlockIndex> {
+        let index = self.lookup_index_by_hash(lookup_hash)?;
         Some(self.get_entry(index).1)
     }
 }
@@ -285,39 +297,28 @@ fn block_from_file_block(
     }
 }
 
-/// Traverse the htree to find the leaf node that might contain `name`.
+/// Find the directory entry for `name` in an internal node (including
+/// the root node) of the htree. `depth` is the number of levels of
+/// internal nodes below this one.
 ///
-/// On success, `block` will contain the leaf node's directory block
-/// data.
-fn find_leaf_node(
+/// `hash` is the hash of `name`.
+fn find_entry_in_internal_node(
     fs: &Ext4,
     inode: &Inode,
     name: DirEntryName<'_>,
-    block: &mut [u8],
-) -> Result<(), Ext4Error> {
-    // Read the htree's hash type from the root block.
-    let hash_alg = HashAlg::from_u8(block[0x1c])?;
-
-    // Read the htree's depth from the root block. The depth is the
-    // number of levels in the tree excluding the root and leaf
-    // levels. So for example, a depth of one means there is a root
-    // node, one level of internal nodes, and one level of leaf nodes.
-    let depth = block[0x1e];
-
-    // Get the node structure from the root block.
-    let root_node = InternalNode::from_root_block(block, inode.index)?;
-
-    let hash = hash_alg.hash(name, &fs.0.superblock.htree_hash_seed);
-    let mut child_block_relative = root_node
-        .lookup_block_by_hash(hash)
+    hash: DirHash,
+    node: &InternalNode<'_>,
+    depth: u8,
+) -> Result<DirEntry, Ext4Error> {
+    let mut index = node
+        .lookup_index_by_hash(hash)
         .ok_or(CorruptKind::DirEntry(inode.index))?;
+    let mut block = vec![0; fs.0.superblock.block_size.to_usize()];
 
-    // Descend through the tree one level at a time. The first iteration
-    // of the loop goes from the root node to a child. The last
-    // iteration (which may also be the first iteration) will read the
-    // leaf node data into `block`.
-    for level in 0..=depth {
-        // Get the absolute block index and read the block's data.
+    loop {
+        // Get the absolute block index of the child and read the
+        // block's data.
+        let child_block_relative = node.get_entry(index).1;
         let block_index =
             block_from_file_block(fs, inode, child_block_relative)?;
         let dir_block = DirBlock {
@@ -328,21 +329,73 @@ fn find_leaf_node(
             has_htree: true,
             checksum_base: inode.checksum_base.clone(),
         };
-        dir_block.read(block)?;
-
-        // If the block is an internal node, find the next child
-        // block. Otherwise, we've reached a leaf node and there's
-        // nothing more to do.
-        if level != depth {
-            let inner_node =
-                InternalNode::from_non_root_block(block, inode.index)?;
-            child_block_relative = inner_node
-                .lookup_block_by_hash(hash)
-                .ok_or(CorruptKind::DirEntry(inode.index))?;
+        dir_block.read(&mut block)?;
+
+        // Search the child, which is either a leaf node or an internal
+        // node.
+        let result = if let Some(child_depth) = depth.checked_sub(1) {
+            let child = InternalNode::from_non_root_block(&block, inode.index)?;
+            find_entry_in_internal_node(
+                fs,
+                inode,
+                name,
+                hash,
+                &child,
+                child_depth,
+            )
+        } else {
+            find_entry_in_leaf_node(fs, inode, name, &block)
+        };
+        match result {
+            Err(Ext4Error::NotFound) => {}
+            result => return result,
+        }
+
+        // Entries with the same hash can be split across multiple
+        // blocks. If so, the lowest bit of the hash key is set for each
+        // block that continues the previous block.
+        //
+        // OK to unwrap: `index` is at most 2^16-1.
+        index = index.checked_add(1).unwrap();
+        if index >= node.num_entries() || node.get_entry(index).0 != hash | 1 {
+            return Err(Ext4Error::NotFound);
+        }
+    }
+}
+
+/// Do a linear search through the leaf `block` for the directory entry
+/// for `name`.
+fn find_entry_in_leaf_node(
+    fs: &Ext4,
+    inode: &Inode,
+    name: DirEntryName<'_>,
+    block: &[u8],
+) -> Result<DirEntry, Ext4Error> {
+    // The entry's `path()` method will not be called, so the value of
+    // the base path does not matter.
+    let path = Rc::new(PathBuf::empty());
+
+    let mut offset_within_block = 0;
+    while offset_within_block < block.len() {
+        let (dir_entry, entry_size) = DirEntry::from_bytes(
+            fs.clone(),
+            &block[offset_within_block..],
+            inode.index,
+            path.clone(),
+        )?;
+        offset_within_block = offset_within_block
+            .checked_add(entry_size.get())
+            .ok_or(CorruptKind::DirEntry(inode.index))?;
+        let Some(dir_entry) = dir_entry else {
+            continue;
+        };
+
+        if dir_entry.file_name() == name {
+            return Ok(dir_entry);
         }
     }
 
-    Ok(())
+    Err(Ext4Error::NotFound)
 }
 
 /// Find a directory entry via a directory htree. The htree is a tree of
@@ -373,36 +426,23 @@ pub(crate) fn get_dir_entry_via_htree(
         return Ok(entry);
     }
 
-    // Find the leaf node that might contain the entry. This will update
-    // `block` to contain the leaf node's block data.
-    find_leaf_node(fs, inode, name, &mut block)?;
-
-    // The entry's `path()` method will not be called, so the value of
-    // the base path does not matter.
-    let path = Rc::new(PathBuf::empty());
-
-    // Do a linear search through the leaf block for the right entry.
-    let mut offset_within_block = 0;
-    while offset_within_block < block.len() {
-        let (dir_entry, entry_size) = DirEntry::from_bytes(
-            fs.clone(),
-            &block[offset_within_block..],
-            inode.index,
-            path.clone(),
-        )?;
-        offset_within_block = offset_within_block
-            .checked_add(entry_size.get())
-            .ok_or(CorruptKind::DirEntry(inode.index))?;
-        let Some(dir_entry) = dir_entry else {
-            continue;
-        };
+    // Read the htree's hash type from the root block.
+    let hash_alg = HashAlg::from_u8(block[0x1c])?;
 
-        if dir_entry.file_name() == name {
-            return Ok(dir_entry);
-        }
+    // Read the htree's depth from the root block. The depth is the
+    // number of levels in the tree excluding the root and leaf
+    // levels. So for example, a depth of one means there is a root
+    // node, one level of internal nodes, and one level of leaf nodes.
+    let depth = block[0x1e];
+    if depth > MAX_DEPTH {
+        return Err(CorruptKind::DirEntry(inode.index).into());
     }
 
-    Err(Ext4Error::NotFound)
+    // Get the node structure from the root block.
+    let root_node = InternalNode::from_root_block(&block, inode.index)?;
+
+    let hash = hash_alg.hash(name, &fs.0.superblock.htree_hash_seed);
+    find_entry_in_internal_node(fs, inode, name, hash, &root_node, depth)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9a99ee4401f71c6a97ceeea555fc3d849b79a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 18/22] fix: reject extents that are empty or out of order

The blocks of such extents were returned at the wrong offset within the
file. Also, since nodes could be shared, visiting all nodes of a small
but malformed tree could take practically forever.
---
 src/iters/extents.rs | 56 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 1be9d71..8fe6076 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -126,6 +126,11 @@ impl ToVisitItem {
             return Err(CorruptKind::ExtentNotEnoughData(inode).into());
         }
 
+        // Internal nodes are never empty.
+        if header.depth > 0 && header.num_entries == 0 {
+            return Err(CorruptKind::ExtentNotEnoughData(inode).into());
+        }
+
         // Remove unused data at the end (e.g. checksum data).
         node.truncate(header.node_size_in_bytes());
 
@@ -159,6 +164,15 @@ pub(crate) struct Extents {
     to_visit: Vec<ToVisitItem>,
     checksum_base: Checksum,
     is_done: bool,
+
+    /// Lowest block within the file that the next extent can start
+    /// at. Wider than a block index because the last extent can end just
+    /// after the maximum block index.
+    min_extent_block: u64,
+
+    /// Lowest key that the next index entry pointing to a leaf node can
+    /// have.
+    min_leaf_key: u64,
 }
 
 impl Extents {
@@ -172,6 +186,8 @@ impl Extents {
             )?],
             checksum_base: inode.checksum_base.clone(),
             is_done: false,
+            min_extent_block: 0,
+            min_leaf_key: 0,
         })
     }
 
@@ -218,10 +234,31 @@ impl Extents {
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
-            // The length of an unwritten (preallocated) extent is stored
-            // with an offset of 32768. The blocks have been allocated,
-            // but must be read as zeros, so treat the range as a hole.
-            if ee_len > MAX_INITIALIZED_EXTENT_LEN {
+            // Get the actual number of blocks. The length of an
+            // unwritten (preallocated) extent is stored with an offset
+            // of 32768.
+            let is_unwritten = ee_len > MAX_INITIALIZED_EXTENT_LEN;
+            let num_blocks = if is_unwritten {
+                // OK to unwrap: just checked that `ee_len` is larger.
+                ee_len.checked_sub(MAX_INITIALIZED_EXTENT_LEN).unwrap()
+            } else {
+                ee_len
+            };
+
+            // Extents must not be empty, and must be sorted and not
+            // overlap.
+            if num_blocks == 0 || u64::from(ee_block) < self.min_extent_block {
+                return Err(CorruptKind::ExtentBlock(self.inode).into());
+            }
+            // OK to unwrap: the sum of a `u32` and a `u16` fits in a
+            // `u64`.
+            self.min_extent_block = u64::from(ee_block)
+                .checked_add(u64::from(num_blocks))
+                .unwrap();
+
+            // The blocks of an unwritten extent have been allocated, but
+            // must be read as zeros, so treat the range as a hole.
+            if is_unwritten {
                 return Ok(None);
             }
 
@@ -238,6 +275,17 @@ impl Extents {
             let ei_leaf_hi = read_u16le(entry, 8);
             let child_block = u64_from_hilo(u32::from(ei_leaf_hi), ei_leaf_lo);
 
+            // Leaf nodes must be sorted. This also bounds the number of
+            // nodes that are visited if nodes are shared.
+            if depth == 1 {
+                let ei_block = u64::from(read_u32le(entry, 0));
+                if ei_block < self.min_leaf_key {
+                    return Err(CorruptKind::ExtentBlock(self.inode).into());
+                }
+                // OK to unwrap: `ei_block` fits in a `u32`.
+                self.min_leaf_key = ei_block.checked_add(1).unwrap();
+            }
+
             // Read just the header of the child node. This is needed to
             // find out how much data is in the full child node.
             let mut child_header = [0; ENTRY_SIZE_IN_BYTES];
-- 
2.43.0


From ff34b911405eb9367d1ac3b3eda76c3481d3ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 19/22] fix: read directory entries that fill a 64KiB block

The size of such an entry does not fit in the rec_len field, so it is
stored as 65535 (or zero).
---
 src/dir_block.rs |  6 ++++--
 src/dir_entry.rs | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index 1ef1763..cbe6265 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -9,6 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
+use crate::dir_entry::decode_rec_len;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::InodeIndex;
 use crate::util::{read_u16le, read_u32le};
@@ -155,8 +156,9 @@ impl DirBlock<'_> {
 
         // Other internal nodes are identified by the first record
         // having a length equal to the whole block.
-        let first_rec_len = read_u16le(block, 4);
-        if first_rec_len == self.fs.0.superblock.block_size {
+        let block_size = self.fs.0.superblock.block_size;
+        let first_rec_len = decode_rec_len(read_u16le(block, 4), block_size);
+        if first_rec_len == block_size.to_usize() {
             DirBlockType::Internal
         } else {
             DirBlockType::Leaf
diff --git a/src/dir_entry.rs b/src/dir_entry.rs
index 36db391..1aab094 100644
--- a/src/dir_entry.rs
+++ b/src/dir_entry.rs
@@ -7,6 +7,7 @@
 // except according to those terms.
 
 use crate::Ext4;
+use crate::block_size::BlockSize;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::file_type::FileType;
 use crate::format::{BytesDisplay, format_bytes_debug};
@@ -220,6 +221,18 @@ pub struct DirEntry {
     file_type: FileType,
 }
 
+/// Get the size in bytes of a directory entry from its `rec_len` field.
+///
+/// The size is usually stored directly. The exception is an entry that
+/// fills a whole 64KiB block, since that size doesn't fit in a `u16`.
+pub(crate) fn decode_rec_len(rec_len: u16, block_size: BlockSize) -> usize {
+    if block_size.to_u32() == 65536 && (rec_len == 65535 || rec_len == 0) {
+        block_size.to_usize()
+    } else {
+        usize::from(rec_len)
+    }
+}
+
 impl DirEntry {
     /// Read a `DirEntry` from a byte slice.
     ///
@@ -256,8 +269,8 @@ impl DirEntry {
         let points_to_inode = read_u32le(bytes, 0);
 
         // Get the full size of the entry.
-        let rec_len = read_u16le(bytes, 4);
-        let rec_len = usize::from(rec_len);
+        let rec_len =
+            decode_rec_len(read_u16le(bytes, 4), fs.0.superblock.block_size);
 
         // Check that the rec_len is somewhat reasonable. Too small a
         // value could indicate the wrong data is being read. And
-- 
2.43.0


From 5f7977dc28018b0c99e7c7f55577e44aa3a4e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 20/22] fix: do not return the ciphertext of encrypted files
 and symlinks

---
 src/file.rs  | 7 ++++++-
 src/inode.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 1f03595..06c60e9 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -9,7 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::error::{CorruptKind, Ext4Error};
-use crate::inode::Inode;
+use crate::inode::{Inode, InodeFlags};
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
 use crate::path::Path;
@@ -59,6 +59,11 @@ impl File {
         fs: &Ext4,
         inode: Inode,
     ) -> Result<Self, Ext4Error> {
+        // Without the key, only the ciphertext could be returned.
+        if inode.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         Ok(Self {
             fs: fs.clone(),
             position: 0,
diff --git a/src/inode.rs b/src/inode.rs
index 15ad801..28b3ae8 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -32,7 +32,7 @@ bitflags! {
         /// File is immutable.
         const IMMUTABLE = 0x10;
 
-        /// Directory is encrypted.
+        /// Directory, file data, or symlink target is encrypted.
         const DIRECTORY_ENCRYPTED = 0x800;
 
         /// Directory has hashed indexes.
@@ -267,6 +267,11 @@ impl Inode {
             return Err(Ext4Error::NotASymlink);
         }
 
+        // Without the key, only the ciphertext could be returned.
+        if self.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         // An empty symlink target is not allowed.
         if self.metadata.size_in_bytes == 0 {
             return Err(CorruptKind::SymlinkTarget(self.index).into());
-- 
2.43.0


From 17d4ed23a862035f390a22d674e45f488af651e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 21/22] fix: reject a journal whose log starts beyond its end

---
 src/journal/superblock.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/journal/superblock.rs b/src/journal/superblock.rs
index 9037e63..3e6a768 100644
--- a/src/journal/superblock.rs
+++ b/src/journal/superblock.rs
@@ -89,6 +89,11 @@ impl JournalSuperblock {
             return Err(CorruptKind::JournalBlockSize.into());
         }
 
+        // The log must start within the journal.
+        if superblock.start_block >= journal_inode.file_size_in_blocks() {
+            return Err(CorruptKind::JournalSize.into());
+        }
+
         Ok(superblock)
     }
 
-- 
2.43.0


From 0eb53fede58b3fd30a003ed7d8855352f13acad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:35 +0000
Subject: [PATCH 22/22] fix: verify 16-bit inode checksums

The upper half of an inode's checksum is only stored if the inode is bigger
than 128 bytes and its i_extra_isize reaches over the field. Inodes without
it, such as every inode of a filesystem made with 128-byte inodes, were
rejected.
---
 src/inode.rs | 62 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/inode.rs b/src/inode.rs
index 28b3ae8..88ab011 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -119,6 +119,18 @@ impl Inode {
     const L_I_CHECKSUM_LO_OFFSET: usize = 0x74 + 0x8;
     const I_CHECKSUM_HI_OFFSET: usize = 0x82;
 
+    /// Check if the upper half of the checksum is stored in the inode.
+    ///
+    /// The `i_checksum_hi` field is only present if the inode is bigger
+    /// than 128 bytes, and if `i_extra_isize` says that it is in use.
+    fn has_checksum_hi(data: &[u8]) -> bool {
+        const I_EXTRA_ISIZE_OFFSET: usize = 0x80;
+        const MIN_EXTRA_ISIZE: u16 = 4;
+
+        data.len() >= Self::I_CHECKSUM_HI_OFFSET + 2
+            && read_u16le(data, I_EXTRA_ISIZE_OFFSET) >= MIN_EXTRA_ISIZE
+    }
+
     /// Load an inode from `bytes`.
     ///
     /// If successful, returns a tuple containing the inode and its
@@ -137,18 +149,6 @@ impl Inode {
             .into());
         }
 
-        // If metadata checksums are enabled, the inode must be big
-        // enough to include the checksum fields.
-        if ext4.has_metadata_checksums()
-            && data.len() < (Self::I_CHECKSUM_HI_OFFSET + 2)
-        {
-            return Err(CorruptKind::InodeTruncated {
-                inode: index,
-                size: data.len(),
-            }
-            .into());
-        }
-
         let i_mode = read_u16le(data, 0x0);
         let i_uid = read_u16le(data, 0x2);
         let i_size_lo = read_u32le(data, 0x4);
@@ -164,7 +164,11 @@ impl Inode {
         {
             (
                 read_u16le(data, Self::L_I_CHECKSUM_LO_OFFSET),
-                read_u16le(data, Self::I_CHECKSUM_HI_OFFSET),
+                if Self::has_checksum_hi(data) {
+                    read_u16le(data, Self::I_CHECKSUM_HI_OFFSET)
+                } else {
+                    0
+                },
             )
         } else {
             // If metadata checksums aren't enabled then these values
@@ -229,8 +233,8 @@ impl Inode {
         if ext4.has_metadata_checksums() {
             let mut checksum = inode.checksum_base.clone();
 
-            // Hash all the inode data, but treat the two checksum
-            // fields as zeroes.
+            // Hash all the inode data, but treat the checksum fields as
+            // zeroes.
 
             // Up to the l_i_checksum_lo field.
             checksum.update(&data[..Self::L_I_CHECKSUM_LO_OFFSET]);
@@ -238,19 +242,27 @@ impl Inode {
             // Zero'd field.
             checksum.update_u16_le(0);
 
-            // Up to the i_checksum_hi field.
-            checksum.update(
-                &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
-                    ..Self::I_CHECKSUM_HI_OFFSET],
-            );
+            let actual_checksum = if Self::has_checksum_hi(&data) {
+                // Up to the i_checksum_hi field.
+                checksum.update(
+                    &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
+                        ..Self::I_CHECKSUM_HI_OFFSET],
+                );
 
-            // Zero'd field.
-            checksum.update_u16_le(0);
+                // Zero'd field.
+                checksum.update_u16_le(0);
+
+                // Rest of the inode.
+                checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
 
-            // Rest of the inode.
-            checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
+                checksum.finalize()
+            } else {
+                // Rest of the inode.
+                checksum.update(&data[Self::L_I_CHECKSUM_LO_OFFSET + 2..]);
 
-            let actual_checksum = checksum.finalize();
+                // Only the low 16 bits are stored.
+                checksum.finalize() & 0xffff
+            };
             if actual_checksum != expected_checksum {
                 return Err(CorruptKind::InodeChecksum(inode.index).into());
             }
-- 
2.43.0

