"""Scenarios of every property: which harness entry, with which parameters,
what it claims and within which bounds. Loaded by run.py."""


def S(entry, params=(), what="", bounds="", reach=(0,), secs=300, cost=1, tier="quick", **opts):
    return {"entry": entry, "params": list(params), "what": what, "bounds": bounds, "reach": list(reach),
            "secs": secs, "cost": cost, "tier": tier, "opts": {k.replace("_", "-"): v for k, v in opts.items()}}


PROPERTIES = {}


def P(pid, scenarios, outside="", assumptions=()):
    PROPERTIES[pid] = {"scenarios": scenarios, "outside": outside, "assumptions": list(assumptions)}


P("C01", [
    *[S("h_sb_decide", (lb, c, g), reach=(0, 1, 2), cost=20 if c else 8,
        what="a superblock of 1024 arbitrary bytes is accepted exactly when the format allows it; rejected as corrupt/incompatible otherwise; no panic, no abort",
        bounds="block size 1024<<%d, %s, %s" % (lb, "metadata_csum on" if c else "metadata_csum off", "blocks per group %d" % g if g else "any blocks per group, under 2^32 blocks"))
      for lb in range(0, 7) for c, g in ((0, 0), (0, 8192), (1, 1))],
    S("h_sb_decide", (255, 0, 0), reach=(1,), what="block sizes above 64 KiB are rejected", bounds="any log_block_size > 6"),
    S("h_sb_irrelevant", (), what="bytes outside the fields that define the geometry do not change what is read", bounds="fixed image, all other superblock bytes symbolic"),
])

P("C05", [
    *[S("h_ext", p, cost=c, what="every byte range of an extent-mapped file reads as the mapped block, as zeros in a hole or unwritten extent",
        bounds="up to %d extents (leaves of %d and %d), tree depth %d, %s, block size %d, file size %d, the paths to the two leaves parting at level %d; positions, lengths, unwritten flags and 48-bit block numbers symbolic" % (p[0] + p[1], p[0], p[1], p[2], "metadata_csum" if p[3] else "no checksums", 1024 << p[4], p[5], p[6]), **o)
      for p, c, o in (((1, 0, 0, 0, 0, 6144, 1), 1, {}), ((2, 0, 0, 0, 0, 6144, 1), 3, {}), ((2, 0, 0, 1, 0, 5136, 1), 3, {}), ((1, 1, 1, 0, 0, 6144, 1), 3, {}),
                      ((1, 1, 2, 0, 0, 6144, 1), 3, {}), ((1, 1, 1, 1, 0, 6144, 1), 4, {}), ((1, 0, 0, 0, 2, 16384 + 100, 1), 2, {}), ((1, 1, 2, 1, 0, 6144, 2), 4, {}),
                      ((1, 1, 3, 0, 2, 16484, 3), 3, {}), ((1, 1, 4, 1, 0, 6144, 2), 5, {}), ((1, 1, 5, 0, 0, 6144, 5), 3, {}), ((1, 1, 5, 1, 0, 6144, 1), 4, {}), ((2, 1, 3, 0, 0, 6144, 2), 7, {}),
                      ((3, 0, 0, 0, 0, 7168, 1), 40, {"tier": "thorough"}), ((2, 2, 4, 1, 0, 7168, 3), 60, {"tier": "thorough"}))],
    *[S("h_ext_long", (u, 0), what="one extent of any length up to the format's maximum, read at any of its blocks", bounds="lengths 1..=32768 (initialized) or 1..=32767 (unwritten), any position in it, any of 2^28 start blocks", cost=5) for u in (0, 1)],
    *[S("h_ext_long", (u, 1), what="as above, at the end of the longest extents", bounds="lengths 32765..=32768 or unwritten 32764..=32767 from block 1 on, blocks 32764..=32770 of the file", cost=20 - 15 * u) for u in (0, 1)],
    *[S("h_ext_gap", p, what="a long hole between two extents, read around both ends", bounds="holes of %d to %d blocks, any of 2^28 start blocks" % (p[0], p[0] + p[1] - 1), cost=5) for p in ((254, 4), (32766, 4), (65534, 4), (131071, 3), (300000, 1))],
    S("h_ext_far", (), what="an index entry and extents with large block numbers in a filesystem of 2^44 blocks", bounds="any lower 31 and upper 12 bits of the child's block, any upper 12 bits of the extents' blocks", cost=2),
    *[S("h_ext_many", p, cost=c, what="a full node: every entry of it is found, in order and by seeking", bounds="%s, %s, block size %d; one entry's 48-bit block number symbolic" % ("a leaf" if p[0] == 0 else "an index node", "metadata_csum" if p[1] else "no checksums", 1024 << p[2]))
      for p, c in (((0, 0, 0), 1), ((0, 1, 0), 2), ((1, 0, 0), 1), ((1, 1, 0), 4), ((0, 0, 2), 1), ((0, 1, 2), 7), ((1, 0, 2), 2))],
    *[S("h_hole_read", (lb,), what="the hole after the last extent, and sizes which are no multiple of the block size", bounds="block size %d" % (1024 << lb), cost=5) for lb in (0, 2)],
    *[S("h_ref_bad", (k, *p), cost=3, reach=r, what="%s anywhere: inside the filesystem it is followed, outside it is an error" % ("an extent", "", "", "an extent tree node", "", "", "", "an extent crossing the end")[k], bounds="any 48-bit block number, %d blocks of %d bytes" % (p[1], 1024 << p[0]))
      for k, r in ((0, (0, 1)), (3, (1,)), (7, (0, 1, 2))) for p in ((0, 60), (2, 10000000000))],
    S("h_symlink", (0, 2060, 0, 1), cost=3, reach=(0,), what="symlinks by extents", bounds="length 2060"),
    *[S("h_htree", p, cost=c, what="an indexed directory by extents: its blocks are where the extents say", bounds="blocks %s" % ("", "in two extents", "", "in three extents below an index node")[p[4]]) for p, c in (((2, 4, 0, 1, 1), 18), ((1, 4, 1, 1, 3), 16))],
], outside="more than four extents; several leaves per index node beyond two; inline data (unsupported by the crate)")

P("C06", [
    *[S("h_map", p, cost=c, what="block-mapped files: direct, single, double and triple indirect blocks lead to the right block; a zero pointer at any level is a hole",
      bounds="window of six blocks around the boundary of level %d at entry positions %d,%d,%d; pointers symbolic 32-bit; %s; block size %d" % (p[0], p[1], p[2], p[3], "pointer of level %d missing" % p[4] if p[4] != 9 else "all levels present", 1024 << p[5]))
    for c, p in ((1, (0, 0, 0, 0, 9, 0)), (1, (0, 0, 0, 9, 9, 0)), (1, (1, 0, 0, 0, 9, 0)), (1, (1, 0, 0, 5, 9, 0)), (1, (1, 0, 0, 253, 9, 0)), (1, (1, 0, 0, 0, 0, 0)), (1, (2, 0, 0, 0, 9, 0)), (1, (2, 0, 1, 0, 9, 0)),
                 (2, (2, 0, 255, 253, 9, 0)), (1, (2, 0, 0, 0, 0, 0)), (1, (2, 0, 1, 0, 1, 0)), (3, (3, 0, 0, 0, 9, 0)), (3, (3, 0, 1, 2, 9, 0)), (3, (3, 1, 0, 0, 9, 0)), (3, (3, 0, 0, 0, 0, 0)), (3, (3, 0, 0, 0, 1, 0)), (3, (3, 0, 0, 0, 2, 0)),
                 (5, (3, 2, 0, 0, 9, 0)), (3, (3, 1, 0, 0, 1, 0)), (3, (3, 2, 3, 0, 2, 0)), (6, (3, 3, 255, 253, 9, 0)), (1, (2, 0, 5, 0, 9, 0)), (1, (2, 0, 5, 7, 1, 0)),
                 (1, (0, 0, 0, 9, 9, 2)), (1, (1, 0, 0, 1022, 9, 2)), (1, (1, 0, 0, 0, 9, 6)), (1, (2, 0, 1, 0, 9, 2)), (1, (2, 0, 3, 1022, 9, 2)), (2, (2, 0, 0, 0, 9, 1)), (1, (2, 0, 0, 1022, 9, 3)), (1, (2, 0, 1, 0, 1, 2)), (5, (3, 0, 0, 0, 9, 1)), (20, (3, 0, 0, 0, 9, 2)))],
    *[S("h_ref_bad", (k, *p), cost=3, reach=r, what="%s anywhere: inside the filesystem it is followed, outside it is an error" % ("", "a direct pointer", "an indirect pointer")[k], bounds="any 32-bit block number, %d blocks of %d bytes" % (p[1], 1024 << p[0]))
      for k, r in ((1, (0, 1)), (2, (1,))) for p in ((0, 60), (2, 4000000000))],
    *[S("h_symlink", p, cost=3, reach=(0,), what="symlinks by block map", bounds="length %d" % p[1]) for p in ((0, 1025, 1, 0), (0, 4095, 1, 0))],
    S("h_htree", (1, 3, 0, 0, 2), cost=2, what="an indexed directory by block map: its blocks are where the map says", bounds="five blocks"),
], outside="windows elsewhere in the map; triple-indirect blocks of block sizes above 4096")

P("C07", [
    S("h_seek1", (1, 0, 0), mux=4096, cost=10, what="seek anywhere, then read: the byte of the content or end of file", bounds="any 64-bit position, one-byte read, file of four blocks with a hole and a partial last block"),
    S("h_seek1", (9, 1020, 8), mux=4096, cost=10, what="a read across a block boundary returns what the file holds there", bounds="positions 1020..1028, nine bytes"),
    *[S("h_chunks", p, cost=c, tier=t, what="a sequence of reads and seeks observes exactly the content: position, lengths, bytes", bounds="any %d operations of the scenario, %s, block size %d, %s" % (p[0], ("two extents", "direct and indirect blocks", "an unwritten extent", "two leaf nodes")[p[1]], 1024 << p[2], "std::io" if p[3] else "read_bytes and seek_to"))
      for p, c, t in (((3, 0, 0, 0), 4, "quick"), ((3, 1, 0, 0), 4, "quick"), ((3, 2, 0, 1), 8, "quick"), ((3, 3, 2, 0), 6, "quick"), ((2, 0, 6, 1), 6, "quick"), ((3, 1, 2, 1), 20, "quick"), ((4, 0, 0, 0), 60, "thorough"), ((4, 1, 0, 1), 120, "thorough"))],
    *[S("h_seek_far", (n,), cost=10, what="around the 2^32nd byte of a file every read gives the bytes of its position", bounds="eight positions around six places, %d bytes, block size 65536" % n) for n in (9, 70000)],
    S("h_seek_io", (0,), mux=4096, cost=30, reach=(0, 1, 2), what="std::io::Seek from the current position: arithmetic, rejection of negative/overflowing positions, no change of position on error", bounds="any 64-bit current position and any 64-bit offset"),
    S("h_seek_io", (1,), mux=4096, cost=30, reach=(0, 1, 2), what="std::io::Seek from the end", bounds="as above"),
], outside="histories longer than three (thorough: four) operations")

P("C08", [
    S("h_ext_bad", (6, 1, 0, 0), cost=8, reach=(0, 1), what="any 60 bytes as extent root: reading ends with data or an error, no panic, no hang", bounds="file of one block, 60 arbitrary bytes"),
    S("h_ext_bad", (6, 2, 0, 0), cost=15, reach=(0, 1), what="as above", bounds="file of two blocks"),
    S("h_ext_bad", (6, 1, 12, 0), cost=15, reach=(0, 1), what="as above, every child node has arbitrary header", bounds="file of one block, 12 arbitrary bytes per child"),
    S("h_ext_bad", (6, 1, 24, 0), cost=20, reach=(0, 1), what="as above, arbitrary header and first entry", bounds="file of one block, 24 arbitrary bytes per child"),
    S("h_ext_bad", (6, 2, 36, 0), cost=30, reach=(0, 1), what="as above, arbitrary header and two entries", bounds="file of two blocks, 36 arbitrary bytes per child"),
    *[S("h_ext_shared", (m,), cost=4, max_steps=20000000, what="a tree of maximum depth whose nodes are shared so that a full walk takes 10^8 to 10^10 visits: reading ends", bounds="%s below; first key of every node the same, arbitrary below 8, keys increasing or equal; 4 KiB blocks" % t)
      for m, t in enumerate(("an index node without entries at any level", "an empty leaf", "a leaf of one extent", "a leaf of one unwritten extent"))],
    S("h_ext_child", (1, 1), cost=20, reach=(0, 1), what="a child node that is not a valid continuation of the tree (magic, depth, order, emptiness) is reported as corrupt; a valid one is read", bounds="one child of an arbitrary header and one arbitrary entry"),
    S("h_ext_child", (2, 2), cost=60, reach=(0, 1), tier="thorough", what="as above", bounds="two entries, root depth 2"),
], outside="children differing from one another; nodes with more than four arbitrary entries")

P("C25", [
    *[S("h_huge", (e, op), cost=8, what="an arbitrary 64-bit file size never aborts the process: opening, reading in chunks, seeking and whole-file reads work or return an error", bounds="any size, %d extents, operation %d; allocations above 64 MiB fail" % (e, op), reach=(0,))
      for e in (0, 1) for op in (0, 1, 2)],
    *[S("h_huge", (e, 3), cost=3, what="seeking to an arbitrary 64-bit position and reading there works", bounds="any block, three offsets in it, %d extents, three file sizes" % e, reach=(0, 1)) for e in (0, 1)],
], outside="sizes of symlinks and directories (C13, C09); positions more than four blocks into a file")

NAMES = [
    *[S("h_readdir_long", p, cost=2, what="names of every length are listed whole, found, and not found by a prefix", bounds="lengths %d to %d, arbitrary first and last byte" % p[:2]) for p in ((1, 64, 0), (65, 128, 0), (129, 192, 0), (193, 255, 0), (248, 255, 1))],
    *[S("h_readdir_many", p, cost=3, reach=(0, 1, 2), what="a directory of many blocks is listed whole and in order, and a name is found exactly when it is one of them", bounds="%d blocks, any name of four bytes" % p[0]) for p in ((500, 1, 0), (580, 0, 0), (100, 0, 1))],
]

P("C09", [
    S("h_readdir", (12, 0), cost=5, reach=(0, 1), what="iteration yields exactly the live entries in order with name, type and path, and reports a malformed block as corrupt", bounds="12 arbitrary bytes between fixed entries, 1 KiB block"),
    S("h_readdir", (20, 0), cost=30, reach=(0, 1), what="as above", bounds="20 arbitrary bytes"),
    S("h_readdir", (8, 1), cost=5, reach=(0, 1), what="as above, with block checksum", bounds="8 arbitrary bytes"),
    S("h_readdir", (12, 1), cost=8, reach=(0, 1), what="as above, with block checksum", bounds="12 arbitrary bytes"),
    S("h_readdir", (24, 0), cost=90, reach=(0, 1), tier="thorough", what="as above", bounds="24 arbitrary bytes"),
    *NAMES,
    S("h_readdir_blocks", (2, 2), cost=5, what="entries of several blocks in order; deleted ones skipped", bounds="2 blocks of 2 entries, each live or deleted"),
    S("h_readdir_blocks", (3, 3), cost=10, what="as above", bounds="3 blocks of 3 entries"),
    S("h_rec64k", (0, 0), cost=5, what="64 KiB blocks: both encodings of the block-filling record length", bounds="encoding 0, plain directory"),
    S("h_rec64k", (1, 0), cost=5, what="as above", bounds="encoding 1, plain directory"),
    *[S("h_dir_enc", (h,), cost=2, reach=(0, 1), what="an encrypted directory is refused for iteration and lookup, whatever the other flags", bounds="32 arbitrary flag bits other than the mapping ones, %s directory" % ("plain", "hash-indexed")[h]) for h in (0, 1)],
], outside="entry names beyond the symbolic window; blocks after a malformed block")

P("C10", [
    *NAMES,
    *[S("h_lookup", p, cost=8, reach=(0, 1), what="looking up a name succeeds exactly when iteration yields a live entry of that name, and leads to its inode",
        bounds="three entries in two blocks, arbitrary names of lengths %d,%d,%d, live or deleted; arbitrary query of length %d; %s" % (*p[:4], "metadata_csum" if p[4] else "no checksums"))
      for p in ((1, 2, 3, 2, 0), (2, 2, 2, 2, 0), (5, 5, 1, 5, 0), (1, 1, 2, 1, 1))],
    *[S("h_htree", p, cost=c, what="hash-indexed directories: wherever the boundaries lie every stored name is found and an absent one is not",
        bounds="algorithm %d, %d leaves, depth %d, %s, directory blocks %s; symbolic hash boundaries" % (p[0], p[1], p[2], "metadata_csum" if p[3] else "no checksums", ("consecutive", "in two extents", "by a block map", "in three extents below an index node")[p[4]]))
      for p, c in (((1, 3, 0, 0, 0), 2), ((2, 4, 0, 1, 1), 20), ((2, 4, 1, 0, 1), 9), ((1, 3, 1, 1, 0), 4), ((1, 3, 0, 0, 2), 2), ((1, 4, 1, 1, 3), 16), ((1, 3, 1, 1, 2), 4))],
    *[S("h_htree_collide", (d, a, n), cost=1, what="a run of names sharing one hash that continues into following leaves is searched to its end", bounds="depth %d, name in leaf %d of five%s" % (d, a, ", a name whose raw hash is the end-of-directory marker" if n else ""))
      for n in (0, 1) for d in (0, 1) for a in range(5)],
    *[S("h_htree_full", p, cost=c, what="a full index node: wherever among its entries a name's hash falls, its leaf is found", bounds="%s, %s, block size %d; hash at or just above %s entry" % ("the root" if p[0] == 0 else "a node below the root", "metadata_csum" if p[1] else "no checksums", 1024 << p[2], "each" if p[2] == 0 else "each of twelve"))
      for p, c in (((0, 0, 0), 1), ((1, 0, 0), 1), ((0, 1, 0), 10), ((1, 1, 0), 10), ((0, 0, 2), 1), ((1, 1, 2), 10))],
    *[S("h_htree_leaf", p, cost=c, reach=r, what="looking a name up in a leaf agrees with a reference parse of its bytes: found, absent or corrupt",
        bounds="%d arbitrary bytes, %s, %s" % (p[0], "leaf checksum" if p[1] else "no checksums", "arbitrary query of %d bytes" % p[2] if p[2] else "fixed query"))
      for p, c, r in (((12, 0, 2), 9, (0, 1, 2)), ((12, 1, 2), 20, (0, 2)), ((16, 0, 0), 9, (0, 1, 2)))],
    *[S("h_lookup_bad", p, cost=c, reach=r, what="looking a name up in a plain directory agrees with a reference parse of its bytes: found, absent or corrupt",
        bounds="%d arbitrary bytes after the dot entries, %s, %s" % (p[0], "checksum" if p[1] else "no checksums", "arbitrary query of %d bytes" % p[2] if p[2] else "fixed query"))
      for p, c, r in (((12, 0, 2), 9, (0, 1, 2)), ((12, 0, 0), 6, (0, 1, 2)), ((12, 1, 1), 11, (0, 1, 2)))],
    *[S("h_htree_dots", p, cost=1, reach=(0, 1), what=". and .. of a hash-indexed directory are the entries stored in its root, whatever they are", bounds="arbitrary inode, type, name length and name bytes of %s, %s" % ("..." [:p[0] + 1], "checksums" if p[1] else "no checksums"))
      for p in ((0, 0), (1, 0), (1, 1))],
    *[S("h_htree_bad", p, cost=30, what="any bytes in the index nodes: the lookup ends with an answer or an error, no panic, no hang", bounds="%d arbitrary bytes in the root, %d in the node below" % (p[0], p[1]))
      for p in ((4, 0, 0), (8, 0, 0), (20, 0, 0), (0, 16, 0))],
    *[S("h_rec64k", (e, 1), cost=5, what="64 KiB blocks: htree root whose record fills the block", bounds="encoding %d" % e) for e in (0, 1)],
], outside="htrees deeper than two levels (rejected as incompatible); SipHash directories (rejected)")

P("C11", [
    *[S("h_hash", p, cost=3, what="the hash of any name equals the reference hash: the name is found behind the boundary equal to its hash and not looked for behind the next",
        bounds="algorithm %s, length %d, last %d bytes arbitrary, %s seed%s" % ("half-MD4" if p[0] == 1 else "TEA", p[1], p[2], ("given", "zero", "partly zero", "partly zero", "partly zero", "three words arbitrary")[p[3]], "" if p[4] else ", bytes below 0x80"))
      for p in ((1, 3, 3, 0, 0), (1, 8, 8, 0, 1), (1, 32, 32, 0, 1), (1, 40, 40, 0, 1), (1, 36, 4, 0, 1), (1, 255, 8, 0, 1), (1, 8, 8, 1, 1), (1, 5, 2, 2, 1), (1, 5, 2, 3, 1), (1, 5, 2, 4, 1), (1, 5, 2, 5, 1),
                (2, 3, 3, 0, 1), (2, 8, 8, 0, 1), (2, 15, 15, 0, 0), (2, 16, 4, 0, 1), (2, 17, 4, 0, 1), (2, 255, 6, 0, 1), (2, 8, 8, 1, 1), (2, 5, 2, 2, 1), (2, 5, 2, 5, 1))],
    *[S("h_htree_collide", (0, a, 1), cost=1, what="a name whose raw hash is the end-of-directory marker", bounds="name in leaf %d" % a) for a in (2, 4)],
    S("h_hash_unsigned", (1, 3, 3, 0, 1), cost=3, what="the superblock's unsigned-hash flag is honoured", bounds="half-MD4, three arbitrary bytes"),
], outside="names of other lengths; legacy and SipHash algorithms (rejected as incompatible)")

P("C12", [
    *[S("h_resolve", p, cost=c, reach=(0, 1, 2, 3) if p[0] >= 6 else (1, 2, 3), what="resolving a path gives the target, error or canonical path a reference walk over the same tree gives, through every public operation that takes a path",
        bounds="every path of %d bytes over the tree of the scenario (directories, files, relative/absolute/dangling/looping symlinks), symlink target variant %d%s" % (p[0], p[1], ", first byte arbitrary too" if p[2] else ""), tier=t)
      for p, c, t in (((4, 0, 0), 1, "quick"), ((7, 0, 0), 5, "quick"), ((7, 3, 0), 8, "quick"), ((7, 4, 0), 8, "quick"), ((7, 5, 0), 8, "quick"), ((8, 0, 0), 15, "quick"), ((8, 1, 0), 18, "quick"),
                      ((6, 2, 1), 8, "quick"), ((8, 2, 0), 45, "quick"), ((9, 0, 0), 60, "thorough"), ((9, 2, 0), 200, "thorough"))],
    *[S("h_resolve_link", p, cost=12, what="as above, with the target of the symlink arbitrary", bounds="every target of %d bytes, path variant %d" % p)
      for p in ((5, 0), (6, 1), (6, 2), (6, 3), (6, 4))],
    *[S("h_links", p, cost=35, what="chains of symlinks: up to 40 are followed, the 41st is an error", bounds="chain length symbolic 0..45, %s targets%s" % ("absolute" if p[0] else "relative", ", trailing slash" if p[1] else ""))
      for p in ((0, 0), (1, 0), (0, 1))],
    S("h_long_walk", (6,), cost=8, what="walks of thousands of components within the limits on symlinks and length end normally", bounds="1..6 links, each to 2040 components"),
    S("h_long_walk", (40,), tier="thorough", cost=900, secs=2400, what="as above", bounds="1..40 links"),
    *[S("h_path_len", (m,), cost=1, what="paths longer than the limit are errors, also when a symlink makes them so", bounds="mode %d, length symbolic around the limit" % m) for m in (0, 1, 2)],
], outside="path bytes beyond the window; deeper trees; other counts of symlinks interleaved with other components")

P("C13", [
    *[S("h_symlink", p, cost=3, reach=(0, 1) if not p[1] else (0,), what="read_link returns exactly the target the inode stores, inline or in blocks, and reports bad ones",
        bounds="%s, %s, %s" % ("length symbolic 0..%d" % p[0] if not p[1] else "length %d" % p[1], "block map" if p[2] else "extents", "metadata_csum" if p[3] else "no checksums"))
      for p in ((70, 0, 0, 0), (66, 0, 0, 1), (70, 0, 1, 0), (0, 1025, 0, 0), (0, 1025, 1, 0), (0, 2060, 1, 0), (0, 2060, 0, 1), (0, 4095, 1, 0))],
    S("h_resolve_link", (5, 0), cost=3, what="what is followed is what is stored", bounds="every target of five bytes"),
], outside="symlinks between 70 and 1024 bytes of other lengths; encrypted symlinks")

P("C17", [
    S("h_path", (7,), cost=5, what="Path/PathBuf parsing, accessors, comparison: only bytes decide; NULs and over-long components are rejected; nothing else is", bounds="every byte string of seven bytes"),
    *[S("h_path_many", p, cost=2, reach=(0, 1), what="a long component anywhere in a path of many, or a NUL in it, is an error; otherwise the components are as written", bounds="%d components of %d bytes before and %d after one of 254 to 257 with an arbitrary last byte" % (p[0], p[2], p[1])) for p in ((70, 3, 3), (3, 300, 2), (1100, 1, 60), (4000, 300, 20))],
    S("h_path_long", (6,), cost=5, what="components around the 255-byte limit", bounds="six arbitrary bytes around the limit"),
    *[S("h_join", p, cost=5, what="join/push: an absolute argument replaces, a relative one is appended after exactly one separator", bounds="every pair of byte strings of %d and %d bytes" % p) for p in ((3, 4), (0, 4), (4, 0), (2, 2))],
    S("h_components", (9,), cost=5, what="components: root and names in order, empty ones skipped, dot kinds recognised", bounds="every byte string of nine bytes"),
    *[S("h_path_cmp", p, cost=1, reach=r, what="comparison, ordering and hashing of paths and components are those of their bytes", bounds="every pair of byte strings of %d and %d bytes without NUL" % p) for p, r in (((3, 3), (0, 1, 2)), ((2, 3), (1, 2)), ((4, 3), (1, 2)), ((0, 1), (1,)), ((1, 1), (0, 1, 2)))],
    *[S("h_path_fmt", (*p, 0, d), cost=1, reach=(0, 1), what="%s of a path" % ("the text", "the debug form")[d], bounds="%d arbitrary bytes after %d fixed ones and before one" % (p[1], p[0])) for p, d in (((0, 2), 0), ((4, 2), 0), ((2, 3), 0), ((0, 1), 1), ((3, 1), 1))],
    S("h_path_from", (), cost=1, reach=(0, 1), what="every conversion to a path or name from strings and arrays agrees", bounds="three arbitrary bytes; strings of three arbitrary ASCII bytes"),
], outside="longer paths")

P("C18", [
    *[S("h_name", (n,), cost=2, reach=(), what="a name is accepted exactly when it is 1..=255 bytes without NUL or slash; dot kinds; comparison; display", bounds="every byte string of %d bytes" % n) for n in range(0, 6)],
    S("h_name_long", (255, 5), cost=2, reach=(0, 1), what="as above at the length limit", bounds="255 bytes, five arbitrary"),
    S("h_name_long", (256, 5), cost=2, reach=(1,), what="as above past the length limit", bounds="256 bytes, five arbitrary"),
    *[S("h_name_cmp", p, cost=1, reach=r, what="comparison, ordering and hashing of names are those of their bytes", bounds="every pair of names of %d and %d bytes" % p) for p, r in (((3, 3), (0, 1)), ((3, 2), (1,)))],
    *[S("h_path_fmt", (*p, 1, d), cost=1, reach=(0, 1), what="%s of a name" % ("the text", "the debug form")[d], bounds="%d arbitrary bytes after %d fixed ones and before one" % (p[1], p[0])) for p, d in (((2, 2), 0), ((2, 3), 0), ((0, 1), 1), ((3, 1), 1))],
], outside="names whose arbitrary bytes lie elsewhere")

P("C14", [
    *[S("h_inode_where", p, reach=(0, 1, 2, 3), cost=4, what="the metadata of a path is that of the inode its entry names, in the group and slot the geometry defines; numbers beyond the inode count are corrupt",
        bounds="any 32-bit inode number; three groups of %d inodes of %d bytes, block size %d, tables at block %d and every %s blocks%s" % (p[2], p[0], 1024 << p[3], p[4], p[5], ", metadata_csum" if p[1] else ""))
      for p in ((128, 0, 16, 0, 50, 10), (128, 0, 12, 0, 50, 2), (256, 0, 16, 0, 5, 40), (256, 1, 16, 0, 50, 10), (512, 0, 7, 0, 40, 4), (1024, 0, 3, 0, 40, 3), (256, 0, 33, 2, 30, 3), (256, 1, 20, 2, 30, 3), (1024, 1, 5, 0, 40, 5))],
    *[S("h_inode_far", p, reach=(0, 1), cost=4, what="inodes far into the tables of groups with very many inodes", bounds="any 32-bit inode number above 65536; two groups of %d inodes of %d bytes, block size %d, second table at block %d" % (p[2], p[1], 1024 << p[0], p[3]))
      for p in ((0, 128, 0x70000000, 0x123456789), (0, 256, 0x60000000, 0x180000000), (2, 256, 0x40000000, 0x100000300), (6, 1024, 0x10000000, 70))],
    *[S("h_inode_decode", p, reach=(0, 1), cost=20 if p[1] else 2, what="type, permissions, size, owner and group are decoded from all their bits; an invalid type or a size beyond 2^32-1 blocks is corrupt",
        bounds="every byte of a %d-byte inode arbitrary, block size %d%s" % (p[0], 1024 << p[2], ", checksum correct" if p[1] else ""))
      for p in ((128, 0, 0), (128, 1, 0), (256, 0, 0), (256, 0, 2), (256, 1, 0), (512, 1, 2), (256, 0, 6))],
], outside="group counts above three (C22); inode sizes other than those listed")

P("C19", [
    *[S("h_dir_enc", (h,), cost=1, reach=(0, 1), what="listing and looking up in an encrypted directory is refused", bounds="32 arbitrary flag bits other than the mapping ones, %s directory" % ("plain", "hash-indexed")[h]) for h in (0, 1)],
    S("h_kinds", (0,), reach=(0, 1, 2, 3, 4), cost=3, what="every operation on a file of any mode: only the right kinds are accepted, others give the documented error; encrypted data is refused", bounds="every 16-bit mode, every 32-bit flag word with the extent flag"),
    *[S("h_kinds_link", (v,), reach=(0, 1), cost=2, what="the same through a symbolic link to %s" % t, bounds="every permission and flag word without the extent flag") for v, t in enumerate(("a file", "a directory", "nothing", "a file with a trailing separator"))],
    *[S("h_bad_paths", (v,), cost=1, reach=(0, 1) if nf else (0,), what="%s: every operation gives the error of that, and exists is false only if nothing of that name is found" % t, bounds=b) for v, (t, nf, b) in enumerate((
        ("a relative path", 0, "any first byte"), ("an empty path", 0, "one path"), ("a path with a NUL", 0, "one path"), ("a path with an over-long component", 0, "256 to 258 bytes"),
        ("a path that is too long", 0, "4097 and 4098 bytes"), ("a missing name", 1, "any first byte"), ("a path through a file", 0, "one path"), ("a file with a trailing separator", 0, "one path"),
        ("a path through a dangling link", 1, "one path"), ("a name whose inode does not exist", 0, "any number beyond the last inode"), ("a link which makes the path too long", 0, "one path"), ("a path through an encrypted directory", 0, "one path"),
        ("a path through an empty link", 0, "one path"), ("a path through a link to itself", 0, "one path"), ("a path through a directory whose block is outside the filesystem", 0, "one path"), ("a link to itself", 0, "one path"), ("a dangling link", 1, "one path")))],
    *[S("h_utf8", (n,), reach=(0, 1), cost=n, what="reading to a string succeeds exactly for UTF-8", bounds="every content of %d bytes" % n) for n in (1, 2, 3, 4)],
    S("h_utf8", (5,), reach=(0, 1), cost=10, what="as above", bounds="every content of five bytes"),
    S("h_utf8", (0,), what="as above", bounds="an empty file"),
], outside="longer contents")

P("C21", [
    *[S("h_label", p, reach=(0, 1), cost=4, what="label: bytes before the first NUL; string exactly if UTF-8; display lossy", bounds="%d arbitrary bytes at %d%s" % (p[1], p[0], ", read from a superblock" if p[2] else "")) for p in ((0, 3, 0), (2, 3, 1), (13, 3, 0), (12, 4, 0), (6, 2, 1))],
    *[S("h_label_debug", p, reach=(0, 1) if p[1] > 1 else (0, 1), cost=4, what="debug form: quoted and escaped", bounds="%d arbitrary bytes at %d" % (p[1], p[0])) for p in ((0, 1), (7, 1), (15, 1), (14, 2))],
    *[S("h_uuid", (i, 2), cost=1, what="a UUID is its 16 bytes, printed as lower-case hexadecimal 8-4-4-4-12", bounds="two arbitrary bytes at %d" % i) for i in range(0, 15, 2)],
    S("h_uuid", (3, 4), cost=2, what="as above", bounds="four arbitrary bytes"),
    S("h_uuid", (0, 8), cost=8, what="as above", bounds="eight arbitrary bytes", tier="thorough"),
], outside="more than four arbitrary label bytes at once")

P("C22", [
    *[S("h_bgd", p, reach=(0, 1), cost=6 if p[0] else 40, tier=t, what="a group's inode table is where the descriptor at its place in the table says, combining high and low halves on 64-bit filesystems only",
        bounds="block size %d, descriptor size %s, group %d of %d, every descriptor byte arbitrary" % (1024 << p[0], p[1] or "32 (size field ignored)", p[3], p[2]))
      for p, t in (((2, 64, 3, 2), "quick"), ((2, 0, 3, 1), "quick"), ((2, 128, 40, 39), "quick"), ((2, 128, 40, 31), "quick"), ((2, 64, 130, 64), "quick"), ((2, 0, 130, 128), "quick"), ((6, 64, 3, 1), "quick"), ((3, 1024, 10, 9), "quick"), ((0, 64, 20, 17), "quick"), ((0, 0, 40, 33), "thorough"), ((1, 0, 70, 64), "quick"), ((1, 256, 20, 9), "quick"))],
    *[S("h_groups", p, cost=1, reach=(0, 1), what="the number of groups follows from the number of blocks: every group's descriptor is needed and none beyond; an inode number beyond the last group is an error", bounds="%d groups, the filesystem ending anywhere in the last or one block after it; block size %d, descriptor size %s" % (p[1], 1024 << p[0], p[2] or 32))
      for p in ((0, 1, 0), (0, 3, 0), (2, 1, 64), (2, 2, 64), (6, 2, 0), (1, 17, 128), (2, 2000, 64), (0, 65540, 0))],
], outside="meta_bg and flex_bg layouts other than the classic table (meta_bg is rejected as incompatible)")

P("C23", [
    *[S("h_ioerr", (op,), reach=(0, 1, 2) if op < 8 else (1,), cost=3, what="every error an operation returns converts to a standard error of its kind; a device error gives the device's error, a filesystem error stays available inside",
        bounds="operation %d on a file of arbitrary mode, flags, first pointer bytes and two sizes, with any of the first four reads failing" % op) for op in range(8)],
    *[S("h_ioerr", (op,), reach=(1,), cost=3, what="as above for invalid and relative paths", bounds="as above") for op in (8, 9, 10)],
    S("h_ioerr", (11,), reach=(0, 1, 2), cost=3, what="errors of the standard Read and Seek implementations have the kind of what went wrong", bounds="as above"),
], outside="text of the messages")

P("C24", [
    *[S("h_vec", p, reach=(0, 1), cost=3, what="a read from a byte vector copies exactly the requested range, or fails and leaves the destination alone", bounds="vector of %d arbitrary bytes, every 64-bit offset, 0 to %d bytes" % p) for p in ((16, 18), (1, 3), (40, 4), (8, 20))],
    S("h_vec", (0, 2), reach=(0, 1), cost=1, what="as above", bounds="empty vector"),
    *[S("h_trunc", (n,), reach=(0, 1, 2), cost=8, what="a truncated image gives an I/O error, never wrong content; a complete one is read to its last byte", bounds="image of %d blocks cut after any block, or anywhere in its last block" % n) for n in (40, 64, 73)],
], outside="vectors and reads longer than those listed")

JB = {0: "checksums of any block", 1: "sequence numbers of any block", 2: "magic numbers of any block", 3: "flags of any tag", 4: "tags with UUIDs", 5: "high halves of block numbers", 6: "bytes of data blocks"}
JS = {"1": "descriptor with 1 tag", "2": "descriptor with 2 tags", "4": "descriptor with 3 tags", "3": "data", "5": "revoke (1 block)", "8": "revoke (2 blocks)", "6": "commit", "7": "block of any type", "9": "stale block"}


def jbounds(start, n, script, bits, lb):
    return "journal of %d blocks of %d bytes starting at %s, blocks: %s; tag and revoked block numbers symbolic, and %s" % (
        n, 1024 << lb, start, ", ".join(JS[d] for d in str(script)), ", ".join(t for b, t in JB.items() if bits >> b & 1) or "nothing else")


P("C15", [
    *[S("h_journal", p, cost=c, reach=r, what="after loading, every block of the filesystem reads as the last unrevoked copy in the journal's committed, intact prefix, else as its own content", bounds=jbounds(*p))
      for p, r, c in (((1, 8, 136, 1, 0), (0, 2), 1), ((1, 8, 136, 2, 0), (0, 2), 1), ((1, 8, 136, 4, 0), (0, 2), 1), ((1, 8, 136, 7, 0), (0, 2), 1), ((1, 8, 136, 8, 0), (0, 1, 2), 1),
                      ((1, 8, 136, 16, 0), (0,), 1), ((1, 8, 136, 32, 0), (0,), 1), ((1, 8, 136, 64, 0), (0,), 1), ((1, 8, 136, 65, 0), (0, 2), 1), ((1, 8, 2336, 8, 0), (0, 1, 2), 1),
                      ((1, 9, 136136, 0, 0), (0,), 1), ((1, 9, 136136, 1, 0), (0, 2), 1), ((1, 9, 136136, 3, 0), (0, 2), 1), ((6, 9, 136136, 0, 0), (0,), 1), ((7, 9, 136136, 7, 0), (0, 2), 2),
                      ((8, 9, 23356, 0, 0), (0, 2), 1), ((1, 9, 23356, 0, 0), (0, 2), 1), ((1, 9, 13656, 32, 0), (0, 2), 1), ((1, 9, 13656, 1, 0), (0, 2), 1), ((1, 9, 51366, 0, 0), (0, 2), 1),
                      ((1, 10, 13658136, 0, 0), (0, 2), 9), ((1, 9, 736, 0, 0), (0, 1, 2), 1), ((1, 9, 13761, 0, 0), (1, 2), 1), ((1, 9, 1369, 0, 0), (0,), 1), ((1, 9, 1396, 0, 0), (2,), 1),
                      ((1, 9, 136131, 0, 0), (0,), 1), ((3, 4, 136, 0, 0), (0,), 1), ((3, 4, 23, 0, 0), (2,), 1), ((3, 5, 2336, 0, 0), (0,), 1), ((1, 8, 136136, 0, 2), (0,), 1),
                      ((5, 8, 433356, 1, 2), (0, 2), 22), ((1, 10, 136136136, 0, 0), (0,), 1), ((1, 8, 1361356, 0, 0), (0, 2), 2),
                      ((1, 9, 56136, 0, 0), (0,), 1), ((6, 9, 5613656, 0, 0), (0, 2), 1), ((1, 10, 13656136, 0, 0), (0,), 1), ((1, 11, 1365636136, 0, 0), (0, 2), 1), ((1, 10, 5681366, 32, 0), (0, 2), 1), ((1, 10, 23356136, 0, 0), (0,), 3))],
    S("h_journal", (1, 12, 13658136136, 0, 0), cost=30, reach=(0,), tier="thorough", what="as above, several transactions", bounds=jbounds(1, 12, 13658136136, 0, 0)),
    S("h_journal_dir", (), reach=(0, 1), cost=1, what="the root directory itself replayed from the journal", bounds="one transaction over the root directory's block"),
    *[S("h_journal_many", p, cost=6, reach=(0, 1), what="a log of many transactions, with revocations, wrapping around its end", bounds="%d transactions, the first numbered %d, log starting at block %d; one byte of the checksum of one of four commit blocks arbitrary" % (p[0], p[2], p[1])) for p in ((20, 1, 100, 3), (90, 30, 0x7fffffd0, 0), (300, 500, 65300, 10), (300, 1, 1, 0))],
    S("h_revoke_size", (), cost=2, reach=(0, 1), what="a revoke block's table size: not of whole entries within the block, and the journal ends there; otherwise what it lists is cancelled", bounds="any 32-bit size"),
    S("h_revoke_many", (123,), cost=2, what="a full revoke block", bounds="123 revoked blocks"),
    S("h_revoke_many", (125,), cost=2, what="a full revoke block", bounds="125 revoked blocks"),
    *[S("h_journal_big", p, cost=c, tier=t, what="a descriptor with many tags", bounds="%d tags, %d of them over the examined blocks" % p) for p, c, t in (((4, 4), 2, "quick"), ((10, 9), 5, "quick"), ((62, 62), 60, "thorough"))],
], outside="other sequences of block types; more than nine blocks of log; escaped tags and unknown block types (rejected as incompatible by design)")

P("C16", [
    S("h_journal_sb", (0,), reach=(0, 1, 2, 3, 4), cost=6, what="a journal superblock of arbitrary bytes is accepted exactly when its fields are valid and supported; nothing of the journal is used otherwise", bounds="all its bytes arbitrary (uuid fixed), checksum correct"),
    S("h_journal_sb", (1,), reach=(0, 1, 4), cost=4, what="as above", bounds="any stored checksum, any bytes of its padding and users fields around it"),
    S("h_journal_sb", (2,), reach=(0, 1, 3, 4), cost=4, what="as above", bounds="valid magic, type, features: every other byte arbitrary, checksum correct"),
    S("h_journal_off", (), reach=(0, 1), cost=2, what="a journal is read only when the filesystem says it has one and needs recovery", bounds="any of the two feature bits, any journal inode number"),
], outside="journals on another device (rejected as incompatible)")

P("C03", [
    *[S("h_csum_sb", p, reach=(0, 1), cost=1, what="a superblock is used exactly when its checksum matches", bounds="bytes %d to %d and the stored checksum arbitrary; block size %d, seed in %s" % (p[2], p[2] + p[3] - 1, 1024 << p[0], "the superblock" if p[1] else "the uuid"))
      for p in ((0, 0, 104, 32), (2, 1, 104, 32), (6, 0, 104, 32), (0, 0, 624, 8), (0, 1, 960, 60))],
    *[S("h_csum_bgd", p, reach=(0, 1), cost=1, what="a block group descriptor is used exactly when its checksum matches", bounds="descriptor size %s, group %d of %d, block size %d, %d bytes around the checksum and at the end, and the stored checksum arbitrary" % (p[0] or "32", p[2], p[1], 1024 << p[3], p[5]))
      for p in ((0, 1, 0, 0, 0, 4), (0, 3, 2, 2, 1, 16), (64, 3, 1, 0, 0, 16), (64, 1, 0, 6, 0, 8), (128, 3, 2, 2, 1, 8), (256, 20, 19, 1, 0, 8))],
    *[S("h_csum_inode", p, reach=(0, 1, 2) if p[0] == 128 or p[4] == 128 else (0, 1), cost=10 if p[4] == 128 else 3, what="an inode is used exactly when its checksum matches (32 bits, or 16 where the extra fields do not reach over the upper half)", bounds="inode size %d, number %d, block size %d, bytes %d to %d and the stored checksum halves arbitrary" % (p[0], p[1], 1024 << p[2], p[4], p[4] + p[5] - 1))
      for p in ((256, 12, 0, 0, 8, 24), (256, 15, 2, 1, 100, 28), (512, 13, 0, 0, 132, 60), (256, 12, 0, 0, 128, 128), (128, 13, 0, 0, 0, 128), (512, 14, 1, 0, 128, 16), (256, 14, 1, 1, 0, 40), (1024, 12, 0, 0, 960, 64), (512, 12, 6, 0, 0, 16))],
    *[S("h_csum_dir", p, reach=(0, 1), cost=2, what="a directory block is used exactly when its checksum matches, in %s" % ("listing", "lookups of names before and after it", "a lookup that finds nothing")[p[3]],
        bounds="block %d of three, %d bytes, the directory's generation and the stored checksum arbitrary; block size %d" % (p[0], p[2], 1024 << p[1]))
      for p in ((0, 0, 4, 0), (1, 0, 32, 0), (2, 2, 4, 0), (1, 4, 4, 0), (0, 0, 4, 1), (1, 0, 4, 1), (2, 0, 4, 1), (1, 0, 4, 2), (2, 2, 4, 2))],
    *[S("h_csum_dx", p, reach=(0, 1), cost=2, what="%s of a hash index is used exactly when its checksum matches" % ("the root", "an internal node", "a leaf")[p[0]],
        bounds="%d bytes beyond the entries, the reserved words, the generation and the stored checksum arbitrary; block size %d, %s" % (p[2], 1024 << p[1], ("two internal nodes", "one internal node", "no internal node")[p[3]]))
      for p in ((0, 0, 4, 0), (1, 0, 4, 0), (2, 0, 4, 0), (0, 2, 8, 0), (1, 2, 8, 0), (2, 2, 8, 0), (0, 3, 4, 0), (1, 4, 4, 0), (2, 6, 4, 0), (0, 0, 8, 1), (1, 0, 8, 1), (2, 2, 4, 1), (0, 0, 4, 2), (2, 0, 4, 2))],
    *[S("h_csum_ext", p, reach=(0, 1), cost=1, what="an extent tree node is used exactly when its checksum matches", bounds="tree depth %d, node at depth %d with room for %s entries, generation, unused entries and stored checksum arbitrary; block size %d" % (p[0], p[1] + 1, p[3] or "all", 1024 << p[2]))
      for p in ((1, 0, 0, 0), (2, 0, 0, 0), (2, 1, 0, 0), (1, 0, 0, 3), (1, 0, 2, 1), (2, 1, 2, 84))],
    *[S("h_csum_seed", p, cost=2, what="nothing undamaged is rejected, whatever the uuid, seed and generations", bounds="any uuid, stored seed and generations; seed in %s, block size %d, %s directory" % ("the superblock" if p[0] else "the uuid", 1024 << p[1], "indexed" if p[2] else "plain"))
      for p in ((0, 0, 0), (1, 0, 0), (0, 0, 1), (1, 2, 1))],
    *[S("h_csum_off", (s,), cost=1, what="without metadata checksums no checksum field matters", bounds="any stored checksums, any other read-only-compatible and compatible features") for s in (0, 1)],
    S("h_groups", (0, 65540, 0), cost=40, reach=(0, 1), what="the descriptors of many groups", bounds="65540 groups, all undamaged, the filesystem ending anywhere in the last or one block after it"),
    S("h_sb_decide", (0, 1, 1), reach=(0, 1, 2), cost=20, what="every byte of the superblock counts", bounds="all 1024 bytes arbitrary, checksums on"),
    S("h_inode_decode", (256, 1, 0), reach=(0, 1), cost=20, what="an inode with a correct checksum is accepted whatever its bytes", bounds="every byte of a 256-byte inode"),
    S("h_ext", (1, 1, 1, 1, 0, 6144, 1), cost=10, what="extent trees with correct checksums are read", bounds="two extents in one leaf node"),
], outside="journal blocks (C15, C16); damage outside the windows")

REF = ("an extent", "a direct pointer", "an indirect pointer", "an extent tree node", "a directory block", "an inode table", "a symlink's block", "an extent crossing the end")
P("C04", [
    *[S("h_refs", p, cost=c, tier=t, what="every block read shows the block asked for, whatever was read and evicted before, and again afterwards; no read leaves the filesystem",
        bounds="block size %d, %d blocks every %d, then %d anywhere in a window of %d, then all again; %d blocks" % (1024 << p[0], *p[1:]))
      for p, c, t in (((6, 8, 2, 2, 20, 400), 1, "quick"), ((6, 10, 1, 3, 30, 400), 4, "quick"), ((5, 8, 2, 2, 20, 400), 1, "quick"), ((4, 4, 3, 3, 16, 400), 4, "quick"), ((3, 4, 5, 3, 20, 400), 14, "quick"),
                      ((2, 9, 9, 2, 40, 400), 5, "quick"), ((1, 17, 17, 1, 40, 4000), 1, "quick"), ((0, 9, 33, 2, 34, 4000), 6, "quick"), ((6, 8, 1, 4, 9, 400), 25, "thorough"))],
    *[S("h_ref_bad", (k, *p), cost=3, reach=r, what="%s anywhere: inside the filesystem it is followed, outside it is an error, and nothing outside is read" % REF[k],
        bounds="any %s-bit block number, %d blocks of %d bytes" % ("48" if k in (0, 3, 4, 6, 7) else "32", p[1], 1024 << p[0]))
      for k, r in ((0, (0, 1)), (1, (0, 1)), (2, (1,)), (3, (1,)), (4, (1,)), (5, (1,)), (6, (1,)), (7, (0, 1, 2))) for p in ((0, 60), (2, 4000000000)) if (k, *p) != (4, 2, 4000000000)],
    S("h_ref_bad", (4, 2, 4000000000), cost=100, reach=(1,), tier="thorough", what="as above for a directory block", bounds="any 48-bit block number, 4000000000 blocks of 4096 bytes"),
    S("h_ref_bad", (0, 2, 10000000000), cost=2, reach=(0, 1), what="as above on a 64-bit filesystem", bounds="any 48-bit block number, 10^10 blocks"),
    S("h_ref_bad", (7, 2, 10000000000), cost=2, reach=(0, 1, 2), what="as above on a 64-bit filesystem", bounds="any 48-bit block number, 10^10 blocks"),
    *[S("h_end", p, cost=8, what="the last block is readable and the next one is not", bounds="%d to %d blocks of %d bytes, reached from any of the 36 blocks before" % (p[1], p[1] + p[2] - 1, 1024 << p[0])) for p in ((0, 50, 40), (2, 50, 12), (6, 50, 2), (0, 16, 18), (1, 15, 6))],
    *[S("h_mix", p, cost=6, what="two files read in turns", bounds="any interleaving of %d steps over files of %d blocks of %d bytes at any of 16 places" % (p[1], p[2], 1024 << p[0])) for p in ((6, 6, 4), (2, 5, 3))],
    *[S("h_block0", (k, lb), what="what lies before the superblock is never used", bounds="%s naming block zero, block size %d" % (("an extent tree node", "a directory block", "an inode table", "a direct pointer", "an extent", "a directory without blocks")[k], 1024 << lb)) for k in range(6) for lb in (0, 2)],
], outside="histories of more than four arbitrary blocks; reads made while loading")

FOP = ("metadata through an index", "symlink_metadata", "reading a file", "listing an indexed directory", "read_link", "reading through a symlink", "exists on nothing", "seek and read of a direct block", "seek and read of an indirect block",
       "seek and read of a doubly indirect block", "canonicalize", "listing the root with the metadata of each entry", "exists", "reading to a string", "listing what is not a directory")
P("C20", [
    *[S("h_fault", p, cost=1, reach=(0, 1), what="%s: whichever read fails, the error is an I/O error that carries the device's; nothing wrong is returned then or later; repeating it succeeds" % FOP[p[0]],
        bounds="any of the first 60 reads (more than the operation needs) fails, %s, %s%s%s" % ("and all after it" if p[2] else "once", "having overwritten the buffer" if p[3] else "leaving the buffer", ", metadata_csum" if p[1] else "", ", with a journal" if p[4] else ""))
      for op in range(15) for p in ((op, 1, 0, 1, op & 1), (op, 0, 1, 0, 1 - (op & 1)))],
    *[S("h_fault_load", p, cost=1, reach=(0, 1), what="loading: whichever read fails, an I/O error; loading again succeeds", bounds="any read of loading fails%s%s%s" % (", metadata_csum" if p[0] else "", ", with a journal to replay" if p[1] else "", ", buffer overwritten" if p[2] else ""))
      for p in ((0, 0, 0), (1, 0, 1), (0, 1, 1), (1, 1, 0))],
    *[S("h_fault_file", p, cost=1, reach=(0, 1), what="reading in pieces, repeating a failed read on the same handle: every byte is right and the position moves with it", bounds="file %s, %d pieces of %d bytes, any read failing" % ("of extents" if p[0] == 0 else "of indirect blocks", p[2], p[1]))
      for p in ((0, 3000, 3, 0), (0, 5000, 3, 1), (1, 4000, 6, 0), (1, 300, 20, 0))],
    *[S("h_fault_seek", p, cost=1, reach=r, what="a failing seek leaves a handle that reads the bytes of the position it reports", bounds="from block %d to block %d" % p[:2])
      for p, r in (((0, 12, 0), (0,)), ((0, 13, 0), (0, 1)), ((0, 1036, 1), (0, 1)), ((12, 1036, 0), (0, 1)), ((1036, 11, 0), (0,)))],
    *[S("h_fault_seq", p, cost=7, reach=(0, 1), what="several operations with two failing reads", bounds="operations %d, %d, %d; any read of the first and any of the second fails" % p[:3]) for p in ((2, 3, 0, 0), (9, 13, 6, 1), (4, 5, 10, 1), (11, 2, 8, 1), (1, 6, 7, 0))],
    *[S("h_fault_iter", (c,), cost=1, reach=(0, 1), what="listing: entries before the error are right, nothing follows it", bounds="any read failing, and all after it") for c in (0, 1)],
], outside="more than two failing reads; devices that report success with wrong data (C03)")

P("C02", [
    *[S("h_features", p, cost=2, reach=(0, 1), what="the filesystem loads exactly when every incompatible feature is supported and the file-type feature is there, and then reads correctly; no other feature prevents loading",
        bounds="any three 32-bit feature words with: 64-bit %s, stored seed %s, metadata_csum %s, %s; block size %d" % ("on" if p[0] else "off", "on" if p[1] else "off", "on" if p[2] else "off", ("no journal", "journal not needing recovery", "recovery flag without journal", "journal to replay")[p[3]], 1024 << p[4]))
      for p in [(a, b, c, j, (a + b + c + j) % 3) for a in (0, 1) for b in (0, 1) for c in (0, 1) for j in range(4)]],
    *[S("h_features_bit", (lb,), cost=1, what="a filesystem with an unsupported or missing feature is refused as incompatible", bounds="any such incompatible word, any other feature words, block size %d" % (1024 << lb)) for lb in (0, 2)],
    *[S("h_sb_decide", (lb, 0, 0), reach=(0, 1, 2), cost=8, what="the same over arbitrary superblocks", bounds="block size %d, every superblock byte arbitrary" % (1024 << lb)) for lb in (0, 2)],
], outside="the message naming the features; structures on disk that contradict the feature bits (C01, C03, C22)")

P("C26", [
    *[S("h_hist", p, cost=c, what="operations, an open file and a directory iterator of two clones, in any order, each give the result they give alone", bounds="any sequence of %d of nine actions%s%s" % (p[0], ", metadata_csum" if p[1] else "", ", with a journal" if p[2] else ""), tier=t)
      for p, c, t in (((3, 1, 1), 13, "quick"), ((4, 0, 0), 9, "quick"), ((4, 0, 1), 20, "quick"), ((5, 0, 0), 90, "thorough"))],
    *[S("h_hist_seek", p, cost=1, what="handles that seek and read in turns each see their own position and the file's bytes", bounds="script %d (2 * handle + 0 seek, 1 read), seeks to any of 14 positions around a block boundary" % p[0])
      for p in ((1021, 0), (2031, 0), (20311, 1), (40251, 0), (245135, 0), (2031020, 1))],
    S("h_hist_drop", (), cost=1, what="files, iterators and entries outlive the handle they came from", bounds="one history"),
    *[S("h_hist_iters", p, cost=2, what="directory iterators advanced in turns", bounds="any interleaving of %d steps of three iterators" % p[0]) for p in ((7, 0), (6, 1))],
    *[S("h_mix", p, cost=6, what="two files read in turns", bounds="any interleaving of %d steps over files of %d blocks of %d bytes at any of 16 places" % (p[1], p[2], 1024 << p[0])) for p in ((6, 6, 4), (2, 5, 3))],
    S("h_refs", (3, 4, 5, 3, 20, 400), cost=14, what="blocks read again after others were read", bounds="eight blocks of 8 KiB, three of them anywhere in a window of 20"),
    *[S("h_fault_seq", p, cost=7, reach=(0, 1), what="operations after failed ones", bounds="operations %d, %d, %d; any read of the first and any of the second fails" % p[:3]) for p in ((2, 3, 0, 0), (4, 5, 10, 1))],
], outside="longer histories; more than three handles at once")

P("C27", [
    *[S("h_os_read", p, reach=(0, 1, 2, 3, 4), cost=2, what="one read through an image file after another: the exact bytes in spite of short reads and interruptions, or the operating system's error",
        bounds="any 64-bit offset, %d-byte file, up to %d bytes, the first %d calls of read with any outcome (whole, part, EINTR, EIO), seek failing or not" % p) for p in ((4, 4, 3), (6, 6, 3), (12, 12, 2))],
    *[S("h_os_load", p, reach=(0, 1, 2), cost=1, what="loading from a path and reading a file", bounds="%d calls in a row with any outcome, starting at any of the first %d%s" % (p[1], p[2], ", metadata_csum" if p[0] else ""))
      for p in ((0, 2, 8), (1, 3, 12), (0, 5, 3))],
    S("h_os_open", (), reach=(0, 1), cost=1, what="a path that cannot be opened", bounds="every error number up to 133"),
], outside="files that change while they are read; systems other than Linux")
