#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the
properties for which scenarios.py has scenarios."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from scenarios import PROPERTIES  # noqa: E402

TESTS = "The tests read a handful of images made by mke2fs and a few hand-written structures; "

# id: (title, statement, over, quantifier, why tests can't, files, mechanism [(name, where)], level note)
T = {}


def p(pid, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, title
    T[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note)


p("C01", "Superblocks are accepted exactly when well-formed, never with a panic",
  "Loading a filesystem from any superblock bytes ends with success or an error, never a panic, abort or hang. A superblock with the right magic, a block size of 1 to 64 KiB, consistent geometry, a supported feature set and (where enabled) a matching checksum is accepted; otherwise loading fails, as incompatible for an unsupported feature and as corrupt for damage. Bytes that do not describe the geometry do not change what is read.",
  ["inputs", "configurations"], "every content of the 1024 superblock bytes, for every block size",
  TESTS + "only a few superblock fields are varied, one value each.",
  ["src/superblock.rs", "src/lib.rs", "src/block_size.rs", "src/block_group.rs"],
  [("superblock parsing", "src/superblock.rs Superblock::from_bytes"), ("loading", "src/lib.rs Ext4::load"), ("descriptor table", "src/block_group.rs BlockGroupDescriptor::read_all")],
  "all 1024 superblock bytes symbolic; the device ends after the superblock or the image is small, so the geometry check is observed through which reads happen")
p("C02", "A filesystem loads iff all its incompatible features are supported",
  "A filesystem whose superblock has any incompatible feature bit outside the supported set, or lacks the file-type feature, is refused as incompatible; every combination of supported incompatible features loads. Compatible and read-only-compatible feature bits never prevent loading a filesystem that is otherwise consistent.",
  ["configurations"], "all 2^96 combinations of the three feature words",
  TESTS + "they contain a few feature combinations only.",
  ["src/features.rs", "src/superblock.rs"],
  [("feature check", "src/features.rs check_incompat_features"), ("loading", "src/superblock.rs Superblock::from_bytes")],
  "feature words fully symbolic on an image that is otherwise good")
p("C03", "With metadata checksums on, damaged metadata is never used",
  "With metadata checksums enabled, every superblock, block group descriptor, inode, directory block, hash-index node and extent-tree block whose stored checksum differs from the checksum of its content (over the uuid-derived or stored seed, as the format defines) makes the operation that needs it fail as corrupt. With a matching checksum the structure is accepted.",
  ["inputs"], "every content of the protected bytes and every stored checksum value",
  TESTS + "each checksum is tested with one good value and at most one bad one.",
  ["src/checksum.rs", "src/superblock.rs", "src/block_group.rs", "src/inode.rs", "src/dir_block.rs", "src/dir_htree.rs", "src/iters/extents.rs"],
  [("crc32c", "src/checksum.rs Checksum"), ("directory blocks", "src/dir_block.rs DirBlock::read"), ("inodes", "src/inode.rs Inode::read"), ("extent nodes", "src/iters/extents.rs")],
  "protected bytes and stored checksum symbolic in windows; the reference checksum is computed by independent code")
p("C04", "Reads stay inside the filesystem and caching never changes a result",
  "Once a filesystem is loaded, no operation reads device bytes beyond the number of blocks the superblock declares or uses the bytes before the superblock. Whatever was read before, any block read gives the device's bytes of that block, and a block reference outside the filesystem is reported as an error.",
  ["inputs", "histories"], "all block references and all histories of reads within the bound",
  TESTS + "they do not watch where the device is read, and histories are short.",
  ["src/block_cache.rs", "src/lib.rs", "src/block_index.rs"],
  [("block cache", "src/block_cache.rs BlockCache"), ("bounds", "src/lib.rs read_from_block")],
  "the device asserts the position of every read; references near and beyond the end are symbolic")
p("C05", "Extent-mapped files read as the mapped bytes, holes and unwritten as zeros",
  "Reading a file whose blocks are mapped by an extent tree of any shape yields, at every position below the file size, the bytes of the mapped block, or zeros where no extent covers the block or the extent is marked unwritten. Block numbers use all 48 bits of the format, an extent may have any length the format allows, and the end of the file is where its size says.",
  ["inputs"], "all extent trees within the bound and all positions in the file",
  TESTS + "their files have few extents; unwritten extents and 48-bit block numbers never occur.",
  ["src/extent.rs", "src/iters/extents.rs", "src/iters/file_blocks/extents_blocks.rs", "src/iters/file_blocks.rs", "src/file.rs"],
  [("extent tree walk", "src/iters/extents.rs Extents"), ("file blocks", "src/iters/file_blocks.rs FileBlocks"), ("reading", "src/file.rs File::read_bytes")],
  "extent positions, lengths, flags, block numbers and reading position symbolic; device blocks carry their own number, so a wrong block is seen")
p("C06", "Block-mapped files read as the mapped bytes at every level of indirection",
  "Reading a file mapped by direct, single, double or triple indirect pointers yields at every position below the file size the bytes of the block that the pointers lead to. A zero pointer, at any level, is a hole and reads as zeros.",
  ["inputs"], "all pointer values and all positions within the windows examined",
  TESTS + "one small file of a few levels is read in order.",
  ["src/iters/file_blocks/block_map.rs", "src/iters/file_blocks.rs", "src/file.rs"],
  [("block map", "src/iters/file_blocks/block_map.rs BlockMap"), ("reading", "src/file.rs File::read_bytes")],
  "pointers symbolic in a window around each level's start and end; the rest of the map is holes")
p("C07", "Reads and seeks in any order and size observe one consistent content",
  "However a file is read - whole, or by any sequence of reads of any size and seeks to any position, directly or through the standard I/O traits - each read returns the bytes at the current position up to the end of the file, never bytes beyond it, and moves the position by the number returned. A seek lands at the requested offset, may lie beyond the end (then reads return nothing), and fails without moving for a negative or overflowing target.",
  ["histories", "inputs"], "all 64-bit positions and offsets, all operation sequences up to the bound",
  TESTS + "they try a few positions and read sizes.",
  ["src/file.rs", "src/lib.rs"],
  [("read and seek", "src/file.rs File"), ("whole-file reads", "src/lib.rs Ext4::read")],
  "positions and offsets fully symbolic; histories up to three operations")
p("C08", "Malformed extent trees end in an error or data, never a panic or hang",
  "Reading a file whose extent tree is arbitrary bytes terminates with data or an error. A tree that is not well-formed (bad magic, more entries than fit, wrong depth, empty or out-of-order extents, blocks outside the filesystem) is reported as corrupt instead of yielding bytes from the wrong place.",
  ["inputs"], "all bytes of the root node, and of the child nodes within the bound",
  TESTS + "only well-formed trees occur, and a few corrupted headers.",
  ["src/iters/extents.rs", "src/extent.rs", "src/iters/file_blocks/extents_blocks.rs"],
  [("node validation", "src/iters/extents.rs"), ("file blocks", "src/iters/file_blocks/extents_blocks.rs")],
  "the 60 root bytes fully symbolic; child nodes have symbolic headers and first entries and share one content")
p("C09", "Directory iteration yields exactly the live entries, and rejects malformed ones",
  "Iterating a directory yields every live entry of every block exactly once and in order, with its name, type and full path, and skips deleted entries and checksum or index records. A record too short for its header, with an unknown type, or with a name that is empty, invalid or runs past the block is reported as corrupt, once, and nothing is yielded afterwards; an encrypted directory is refused.",
  ["inputs"], "all bytes of a directory block within the window, all liveness patterns",
  TESTS + "directories written by mke2fs, plus a few hand-made damaged records.",
  ["src/iters/read_dir.rs", "src/dir_entry.rs", "src/dir.rs", "src/dir_block.rs"],
  [("iteration", "src/iters/read_dir.rs ReadDir"), ("records", "src/dir_entry.rs DirEntry::from_bytes")],
  "an independent parser of the same symbolic bytes decides what must be yielded")
p("C10", "Looking up a name agrees with iterating the directory",
  "A path component resolves in a directory exactly when iteration yields a live entry with that name, and leads to that entry's inode, in plain and in hash-indexed directories of any supported depth, including names whose hashes collide across leaf blocks. Looking up a name in a damaged index ends with an answer or an error, never a panic or hang.",
  ["inputs", "configurations"], "all names of the lengths tried, all index boundaries, all bytes of index nodes within the window",
  TESTS + "one large indexed directory; no collisions, no damaged indexes.",
  ["src/dir.rs", "src/dir_htree.rs", "src/dir_entry.rs"],
  [("lookup", "src/dir.rs get_dir_entry_inode_by_name"), ("htree", "src/dir_htree.rs get_dir_entry_via_htree")],
  "names, boundaries and node bytes symbolic; answers compared with the list of live entries")
p("C11", "Directory name hashes equal the reference hash for every name and seed",
  "In a hash-indexed directory using half-MD4 or TEA, the hash by which a name is searched equals the one the filesystem's writer used, for every name of any length up to 255 bytes, any seed (an all-zero seed standing for the default), any byte values, and for both byte signednesses a filesystem can declare.",
  ["inputs"], "all names of the lengths tried",
  TESTS + "a few known hashes of ASCII names and one non-ASCII name.",
  ["src/dir_entry_hash.rs", "src/dir_htree.rs"],
  [("hash", "src/dir_entry_hash.rs HashAlg::hash")],
  "name bytes symbolic; the boundary in the index is the reference hash expression itself, so any difference makes the name unreachable")
p("C12", "Paths resolve as a reference walk says, with the documented limits",
  "Every absolute path resolves to the inode found by walking its components from the root, following symbolic links (at most 40) relative to their directory or the root, with '.' and '..' as stored in the directory; symlink_metadata, read_link and the like do not follow the last component. The result does not depend on repeated or trailing separators, except that a trailing one requires a directory; each failure is reported with the documented error, and the canonical path resolves to the same inode and has no links, dots or double separators.",
  ["inputs"], "all byte strings as path up to the length bound, all symlink targets up to the bound",
  TESTS + "a few dozen literal paths.",
  ["src/resolve.rs", "src/path.rs", "src/lib.rs"],
  [("resolution", "src/resolve.rs resolve_path"), ("operations", "src/lib.rs Ext4")],
  "path bytes and symlink targets symbolic over a small tree; the reference is an independent component walk")
p("C13", "Symbolic link targets are the stored bytes, inline or in blocks",
  "The target of a symbolic link of any length is exactly the bytes stored in the inode (up to 59 bytes) or in its data blocks (longer). A zero-length target or one that is not a valid path is reported as corrupt, and asking for the target of something else fails as not a symbolic link.",
  ["inputs"], "all target bytes and lengths within the bound",
  TESTS + "two links, one short and one long.",
  ["src/inode.rs", "src/lib.rs"],
  [("target", "src/inode.rs Inode::symlink_target"), ("read_link", "src/lib.rs Ext4::read_link")],
  "size and bytes symbolic around the inline limit")
p("C14", "Metadata reported for a file is that of its inode, wherever it is stored",
  "The type, permission bits, size, owner and group reported for a path equal the fields of the inode its directory entry names, using all bits the format gives them. The inode is found from its number in the group and table slot the superblock and descriptors define; a number of zero or beyond the inode count is reported as corrupt.",
  ["inputs", "configurations"], "all inode numbers, all inode field values",
  TESTS + "a few inodes of group zero.",
  ["src/inode.rs", "src/metadata.rs", "src/file_type.rs", "src/block_group.rs"],
  [("location", "src/inode.rs get_inode_location"), ("decoding", "src/inode.rs Inode::from_bytes")],
  "inode bytes and directory entry's inode number symbolic over an image of several groups")
p("C15", "A dirty journal is replayed exactly as far as it is committed and intact",
  "With a journal to recover, every block reads as the last committed transaction left it: transactions are applied in order up to the first one that is uncommitted, out of sequence or has a wrong checksum, and a revocation cancels earlier writes of its block. A journal that wraps around its end reads the same as one that does not; nothing of an incomplete transaction is ever visible.",
  ["crash_points", "inputs", "histories"], "all block type and sequence patterns up to the length bound, all checksum values",
  TESTS + "two images with a small well-formed journal.",
  ["src/journal/block_map.rs", "src/journal/descriptor_block.rs", "src/journal/revocation_block.rs", "src/journal/commit_block.rs", "src/journal.rs"],
  [("replay", "src/journal/block_map.rs load_block_map"), ("descriptors", "src/journal/descriptor_block.rs")],
  "journal block headers, tags, revocations and checksums symbolic; reference replay by independent code")
p("C16", "The journal superblock is validated before the journal is used",
  "When the journal needs recovery its superblock must have the right magic, type, block size, checksum, checksum kind and features; anything else makes loading fail, as incompatible for unsupported features and as corrupt for damage. A journal that is absent or marked clean leaves the filesystem as it is.",
  ["inputs"], "all contents of the journal superblock",
  TESTS + "one good superblock and one variation per field.",
  ["src/journal/superblock.rs", "src/journal.rs"],
  [("journal superblock", "src/journal/superblock.rs JournalSuperblock"), ("loading", "src/journal.rs Journal::load")],
  "journal superblock bytes symbolic")
p("C17", "Paths are valid iff every component fits; join and components are exact",
  "A byte string converts to a path exactly when it has no NUL byte and no component longer than 255 bytes. Its components are the maximal runs between separators with the root, '.' and '..' distinguished; joining inserts exactly one separator where needed and an absolute argument replaces the base; formatting, comparison and conversion keep the bytes.",
  ["inputs"], "all byte strings up to the length bound",
  TESTS + "a few literal paths.",
  ["src/path.rs"], [("Path", "src/path.rs Path, PathBuf, Components")],
  "path bytes symbolic")
p("C18", "Directory entry names are valid iff 1 to 255 bytes without NUL or separator",
  "A byte string converts to a directory entry name exactly when it is 1 to 255 bytes long and contains neither a NUL byte nor a separator, and the error names the reason. Names compare, convert and print as their bytes.",
  ["inputs"], "all byte strings up to the length bound and at the limit",
  TESTS + "one example per error.",
  ["src/dir_entry.rs"], [("DirEntryName", "src/dir_entry.rs DirEntryName::try_from")],
  "name bytes symbolic")
p("C19", "Each operation applies only to the kind of file it is for",
  "Opening or reading as a file fails for a directory and for anything that is not a regular file, listing fails for anything that is not a directory, and reading a link fails for anything that is not a symbolic link, each with its documented error; the data of encrypted files and links is refused as encrypted. 'exists' is false exactly for paths that are not found and passes on every other error; reading to a string fails exactly when the bytes are not UTF-8.",
  ["inputs"], "all file modes and inode flags, all file contents up to the bound",
  TESTS + "one file per kind.",
  ["src/lib.rs", "src/inode.rs", "src/file_type.rs"],
  [("operations", "src/lib.rs Ext4"), ("opening", "src/file.rs File::open_inode")],
  "mode, flags and content symbolic")
p("C20", "Device errors surface as I/O errors and leave no trace",
  "If the device fails on any read, the operation that needed it returns an I/O error carrying the device's error: it never panics, never reports success with wrong or partial bytes, and never reports the error as something else. After the device recovers, repeating the operation succeeds with the right result.",
  ["fault_sequences"], "every position of the failing read in every operation of the scenario",
  TESTS + "no reader ever fails part-way.",
  ["src/lib.rs", "src/block_cache.rs", "src/file.rs", "src/reader.rs", "src/journal/block_map.rs"],
  [("cache fill", "src/block_cache.rs"), ("reading", "src/lib.rs read_from_block")],
  "the index of the failing read is symbolic, one-off or persistent")
p("C21", "Labels, UUIDs and names print and convert exactly as their bytes",
  "The volume label is the bytes before the first NUL; it, paths and names convert to a string exactly when they are UTF-8 and otherwise display with replacement characters. A UUID prints as its 16 bytes in lower-case hexadecimal grouped 8-4-4-4-12.",
  ["inputs"], "all 16 label bytes, all 16 uuid bytes, all names up to the bound",
  TESTS + "one label and one uuid.",
  ["src/label.rs", "src/uuid.rs", "src/format.rs"],
  [("Label", "src/label.rs"), ("Uuid", "src/uuid.rs"), ("format", "src/format.rs")],
  "bytes symbolic")
p("C22", "Block group descriptors are read from the place the format defines",
  "Each block group's inode table is found in the descriptor at index * size in the table after the superblock block, for every block size, descriptor size and number of groups, combining low and high halves only on 64-bit filesystems.",
  ["configurations", "inputs"], "all descriptor contents, block sizes 1-64 KiB, group counts up to the bound",
  TESTS + "one or two geometries.",
  ["src/block_group.rs", "src/superblock.rs"],
  [("descriptors", "src/block_group.rs BlockGroupDescriptor::read_all")],
  "descriptor bytes symbolic, geometry by configuration")
p("C23", "Errors convert to standard I/O errors with the documented kind",
  "Converting an error to a standard I/O error gives each error its one fixed kind. A device I/O error keeps the device's error reachable inside it, and so do corrupt, incompatible, path-too-long and too-many-symlinks errors keep the crate's error. Reading a file through the standard traits reports the same condition as reading it directly.",
  ["inputs"], "all error variants",
  TESTS + "a few variants.",
  ["src/error.rs", "src/file.rs"], [("conversion", "src/error.rs From<Ext4Error> for std::io::Error")],
  "errors produced by real operations over symbolic damage")
p("C24", "Reading from an in-memory image never goes beyond the image",
  "Reading any range from an in-memory image copies exactly the requested bytes when the range lies inside it, and otherwise fails without touching the destination, for every offset up to the largest 64-bit number.",
  ["inputs"], "all 64-bit offsets and lengths up to the bound",
  TESTS + "two ranges.",
  ["src/reader.rs"], [("Ext4Read for Vec<u8>", "src/reader.rs")],
  "offset and length symbolic")
p("C25", "A file size larger than memory is an error, not an abort",
  "A damaged or huge file size in an inode never aborts or panics the process: opening, seeking and reading in pieces work for every 64-bit size, and reading the whole file either succeeds or returns an error when it cannot be held in memory.",
  ["inputs"], "all 64-bit sizes",
  TESTS + "no file is larger than a few MiB.",
  ["src/lib.rs", "src/file.rs"], [("whole-file reads", "src/lib.rs Ext4::read"), ("file", "src/file.rs File")],
  "size fully symbolic; allocations above 64 MiB fail as they may for a user")
p("C26", "Operations are repeatable: handles and earlier calls never change a result",
  "Any operation gives the same result however often it is repeated, in whatever order with other operations, through whichever clone of the filesystem handle, with several open files and iterators interleaved.",
  ["histories"], "all interleavings of operations up to the bound",
  TESTS + "each operation is tried on a fresh filesystem.",
  ["src/lib.rs", "src/block_cache.rs", "src/file.rs", "src/iters/read_dir.rs"],
  [("shared state", "src/lib.rs Ext4"), ("cache", "src/block_cache.rs")],
  "interleavings chosen symbolically")
p("C27", "An image file is read whole whatever the operating system returns",
  "A filesystem loaded from a path, and any read through an opened image file, gets exactly the bytes of the range asked for, wherever the file's position was before and however the operating system splits or interrupts the reads. If opening, seeking or reading fails, or the file ends before the range does, the operation fails with an I/O error that carries the operating system's error, the file is opened read-only, and it is closed once.",
  ["inputs", "fault_sequences"], "every sequence of short reads, interruptions and errors in a window of calls at any place, all 64-bit offsets",
  TESTS + "the operating system always delivers regular files at once.",
  ["src/reader.rs", "src/lib.rs"],
  [("Ext4Read for std::fs::File", "src/reader.rs"), ("load_from_path", "src/lib.rs Ext4::load_from_path")],
  "open, lseek, read and close are replaced by a model with symbolic outcomes, in the engine and in the native replay")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for k in sorted(PROPERTIES):
            t = T[k]
            f.write(json.dumps({
                "id": k, "title": t["title"], "statement": t["statement"],
                "quantifier": {"over": t["over"], "text": t["text"]}, "why_tests_cant": t["why"],
                "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]],
                            "observe_at": ["the public API of the crate, over a simulated block device"], "hook_needed": None},
            }) + "\n")
    checks = [{
        "property": k, "quick_cmd": "python3 run.py %s" % k, "thorough_cmd": "python3 run.py %s --tier thorough" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": "symbolic execution of the crate's LLVM IR with Z3 (bounded), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every input within the bounds of each scenario (listed in the evidence): %s. Trusted: the executor's LLVM semantics (sampled paths are re-run natively each run), Z3's unsat answers, the reference code in /verif/harness." % T[k]["note"],
    } for k in sorted(PROPERTIES)]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo: scenarios use the crate's public API over a simulated device. Generated by gen.py from scenarios.py."}, f, indent=1)
        f.write("\n")


main()
