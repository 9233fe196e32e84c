//! Directories: iteration, lookup, htrees, name hashes.
super::entries! { h_readdir h_readdir_blocks h_readdir_long h_readdir_many h_lookup h_lookup_bad h_htree h_htree_collide h_htree_full h_htree_bad h_htree_leaf h_htree_dots h_hash h_hash_unsigned h_rec64k h_dir_enc }

pub mod imp {
    use super::super::dev::*;
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;
    use ext4_view::{Ext4, FileType};

    pub const D: u32 = 11; // the directory under test, "/d"
    pub const DB: u64 = 24; // its first block

    /// Root holds "d"; inodes 12..=15 are empty regular files whose uid is
    /// their number.
    pub fn base(c: Cfg) -> Img {
        let mut im = Img::new(c);
        im.dir(2, &[20]);
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (D, 2, b"d")]);
        for i in 12..16 {
            let o = im.inode(i, S_REG | 0o644, 0, FL_EXT);
            im.extents(i, &[]);
            im.p16(o + 2, i as u16);
        }
        im
    }
    pub fn fin(mut im: Img) -> Dev {
        if im.c.ro & RO_CSUM != 0 {
            im.fix_dirblock(2, 20);
        }
        im.fix(&[2, D, 12, 13, 14, 15]);
        Dev::new(im.d)
    }
    pub fn uid(fs: &Ext4, p: &[u8]) -> (K, u32) {
        let r = ext4_view::Path::try_from(p);
        let Ok(p) = r else { return (K::MalformedPath, 0) };
        match fs.metadata(p) {
            Ok(m) => (K::Ok, m.uid()),
            Err(e) => (kind(&e), 0),
        }
    }
    fn ftype(t: u8) -> Option<FileType> {
        Some(match t {
            1 => FileType::Regular,
            2 => FileType::Directory,
            3 => FileType::CharacterDevice,
            4 => FileType::BlockDevice,
            5 => FileType::Fifo,
            6 => FileType::Socket,
            7 => FileType::Symlink,
            _ => return None,
        })
    }

    struct RefEnt {
        off: usize,
        name_len: usize,
        ty: u8,
    }
    #[derive(Clone, Copy, PartialEq, Eq)]
    enum Bad {
        /// Has to be reported.
        Hard,
        /// Sloppy lengths, which a reader may accept.
        Soft,
    }
    /// Reference parser of a directory block.
    fn parse(b: &[u8], out: &mut Vec<RefEnt>) -> Result<(), Bad> {
        let mut o = 0;
        while o < b.len() {
            if b.len() - o < 8 {
                return Err(Bad::Hard);
            }
            let ino = u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
            let rec = u16::from_le_bytes([b[o + 4], b[o + 5]]) as usize;
            let rec = concretize(rec as u64) as usize;
            if rec < 8 {
                return Err(Bad::Hard);
            }
            if ino != 0 {
                let n = concretize(b[o + 6] as u64) as usize;
                if n == 0 || o + 8 + n > b.len() {
                    return Err(Bad::Hard);
                }
                let mut bad = 0u8;
                for x in &b[o + 8..o + 8 + n] {
                    bad |= ((*x == 0) | (*x == b'/')) as u8;
                }
                if bad != 0 {
                    return Err(Bad::Hard);
                }
                let t = b[o + 7];
                if t == 0 || t > 7 {
                    return Err(Bad::Hard);
                }
                if n + 8 > rec {
                    return Err(Bad::Soft);
                }
                if o + rec > b.len() || rec % 4 != 0 {
                    return Err(Bad::Soft);
                }
                out.push(RefEnt { off: o, name_len: n, ty: t });
            } else if o + rec > b.len() || rec % 4 != 0 {
                return Err(Bad::Soft);
            }
            o += rec;
        }
        Ok(())
    }

    /// params: [symbolic bytes (multiple of 4), csum]. The directory is ".",
    /// "..", symbolic bytes, then one fixed entry.
    pub fn h_readdir() {
        let w = param(0) as usize;
        let csum = param(1) == 1;
        let mut im = base(if csum { Cfg::csum() } else { Cfg::basic() });
        im.dir(D, &[DB]);
        im.dirblock(DB, &[(D, 2, b"."), (2, 2, b"..")]);
        let o = im.blk(DB);
        im.p16(o + 12 + 4, 12);
        let mut r = vec![0u8; w];
        fill(&mut r);
        let end = if csum { 1012 } else { 1024 };
        // Record lengths: at most to the fixed entry, or to the end and beyond.
        let mut k = 0;
        while k + 6 <= w {
            let rl = u16::from_le_bytes([r[k + 4], r[k + 5]]) as usize;
            // With checksums the tail holds the checksum: stay off it.
            assume((rl <= w) | (!csum & (rl >= 960)));
            assume((rl <= w) | (rl <= 1028));
            assume((r[k + 6] as usize <= w) | (r[k + 6] >= 252));
            k += 4;
        }
        im.d[o + 24..o + 24 + w].copy_from_slice(&r);
        im.dirent(o + 24 + w, 13, (end - 24 - w) as u16, 1, b"zz");
        if csum {
            im.fix_dirblock(D, DB);
        }
        let block = im.d[o..o + 1024].to_vec();
        let fs = ok(fin(im).load(), 1);
        let rd = ok(fs.read_dir("/d"), 2);
        let mut want = Vec::new();
        let verdict = parse(&block, &mut want);
        let good = verdict.is_ok();
        let mut it = rd;
        let mut n = 0;
        let mut failed = false;
        loop {
            match it.next() {
                None => break,
                Some(Ok(e)) => {
                    check(!failed, 3);
                    let name = e.file_name();
                    let nb = name.as_ref();
                    check(!nb.is_empty(), 4);
                    if n < want.len() {
                        let x = &want[n];
                        check(eq_bytes(nb, &block[x.off + 8..x.off + 8 + x.name_len]), 5);
                        check(e.file_type().ok() == ftype(x.ty), 6);
                        let p = e.path();
                        let ap = p.as_path();
                        let pb: &[u8] = ap.as_ref();
                        check(pb.len() == 3 + nb.len() && pb[..3] == *b"/d/" && eq_bytes(&pb[3..], nb), 7);
                    } else {
                        // Only a malformed block may differ.
                        check(!good, 8);
                    }
                    n += 1;
                    check(n <= 128, 9);
                }
                Some(Err(e)) => {
                    check(!good, 10);
                    check(kind(&e) == K::Corrupt, 11);
                    check(!failed, 12);
                    failed = true;
                }
            }
        }
        check(!good || n == want.len(), 13);
        check(verdict != Err(Bad::Hard) || failed, 15);
        check(verdict != Err(Bad::Hard) || n == want.len(), 16);
        check(it.next().is_none(), 14);
        reach(if good { 0 } else { 1 });
    }

    /// Directory over several blocks (some unwritten entries), entries of
    /// symbolic inode number zero or not. params: [blocks, entries per block]
    pub fn h_readdir_blocks() {
        let nb = param(0);
        let per = param(1);
        let mut im = base(Cfg::basic());
        let blocks: Vec<u64> = (0..nb).map(|i| DB + 2 * i).collect();
        im.dir(D, &blocks);
        let mut want: Vec<(bool, Vec<u8>)> = Vec::new();
        for (bi, b) in blocks.iter().enumerate() {
            let mut o = im.blk(*b);
            let end = o + 1024;
            for k in 0..per {
                let live = u8s();
                assume(live < 2);
                let name = [b'a' + bi as u8, b'a' + k as u8, b'x'];
                let n = if k == 0 { 1 } else { 3 };
                let rec = if k + 1 == per { end - o } else { 12 };
                im.dirent(o, select(live == 1, 12, 0) as u32, rec as u16, 1, &name[..n]);
                want.push((live == 1, name[..n].to_vec()));
                o += rec;
            }
        }
        let fs = ok(fin(im).load(), 1);
        let mut got = Vec::new();
        for e in ok(fs.read_dir("/d"), 2) {
            got.push(ok(e, 3).file_name().as_ref().to_vec());
        }
        let mut k = 0;
        for (live, name) in want {
            if live {
                check(k < got.len() && got[k] == name, 4);
                k += 1;
            }
        }
        check(k == got.len(), 5);
        reach(0);
    }

    /// Names of length `n` usable as a path component other than "." "..".
    fn sym_name(n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        fill(&mut v);
        for x in &v {
            assume((*x != 0) & (*x != b'/'));
        }
        let dots = v.iter().all(|x| *x == b'.') && n <= 2;
        assume(!dots);
        v
    }

    /// Two names of any length with an arbitrary first and last byte: listed
    /// whole, found by name, and not found by their prefix. params: [lowest
    /// length, highest, 1 = with checksums]
    pub fn h_readdir_long() {
        let n = param(0) as usize + choose(param(1) - param(0) + 1) as usize;
        let csum = param(2) == 1;
        let mut im = base(if csum { Cfg::csum() } else { Cfg::basic() });
        im.dir(D, &[DB]);
        let mut name: Vec<u8> = (0..n).map(|i| b'b' + (i % 23) as u8).collect();
        let (x, y) = (u8s(), u8s());
        for c in [x, y] {
            assume((c != 0) & (c != b'/') & (c != b'.'));
        }
        name[n - 1] = x;
        name[0] = y;
        let mut other = name.clone();
        let m = n.max(2) / 2;
        other[m - 1] = b'#';
        assume((n > 3) | ((x != b'#') & (y != b'#')));
        im.dirblock(DB, &[(D, 2, b"."), (2, 2, b".."), (13, 1, &other), (12, 1, &name)]);
        if csum {
            im.fix_dirblock(D, DB);
        }
        let fs = ok(fin(im).load(), 1);
        let mut count = 0;
        for e in ok(fs.read_dir("/d"), 2) {
            let e = ok(e, 3);
            if count >= 2 {
                let want = if count == 2 { &other } else { &name };
                check(e.file_name().as_ref().len() == n, 4);
                check(eq_bytes(e.file_name().as_ref(), want), 5);
                let path = e.path();
                let path = path.as_ref() as &[u8];
                check(path.len() == n + 3, 6);
                check(eq_bytes(&path[..3], b"/d/") & eq_bytes(&path[3..], want), 7);
            }
            count += 1;
        }
        check(count == 4, 8);
        for (ino, v) in [(13, &other), (12, &name)] {
            let mut p = b"/d/".to_vec();
            p.extend_from_slice(v);
            let (k, u) = uid(&fs, &p);
            check(k == K::Ok && u == ino, 9);
            p.pop();
            if n > 1 {
                check(uid(&fs, &p).0 == K::NotFound, 10);
            }
        }
        reach(0);
    }

    /// A plain directory of many blocks with one name in each: everything is
    /// listed once and in order, and any name is found. params: [blocks,
    /// 0 = extents of seven blocks in descending places, 1 = block map,
    /// 1 = with checksums]
    pub fn h_readdir_many() {
        let nb = param(0) as usize;
        let map = param(1) == 1;
        let csum = param(2) == 1;
        let c = if csum { Cfg::csum() } else { Cfg::basic() };
        let total = 64 + nb + 8 + nb / 7 + 20;
        let mut im = base(Cfg { blocks: total as u64, len: total * 1024, ..c });
        let root;
        // Where block `i` of the directory is.
        let at = |i: usize| -> u64 {
            if map {
                64 + i as u64
            } else {
                (64 + nb - 7 * (i / 7 + 1) + 7 + i % 7) as u64
            }
        };
        im.inode(D, S_DIR | 0o755, nb as u64 * 1024, if map { 0 } else { FL_EXT });
        root = im.ioff(D) + 0x28;
        if map {
            for i in 0..nb.min(12) {
                im.p32(root + 4 * i, at(i) as u32);
            }
            if nb > 12 {
                im.p32(root + 48, 40);
                let o = im.blk(40);
                for i in 12..nb.min(268) {
                    im.p32(o + 4 * (i - 12), at(i) as u32);
                }
            }
            if nb > 268 {
                im.p32(root + 52, 41);
                let o = im.blk(41);
                im.p32(o, 42);
                let o = im.blk(42);
                for i in 268..nb {
                    im.p32(o + 4 * (i - 268), at(i) as u32);
                }
            }
        } else {
            im.ehdr(root, 1, 4, 1);
            im.eidx(root, 0, 0, 40);
            let o = im.blk(40);
            let ne = nb.div_ceil(7);
            im.ehdr(o, ne as u16, 84, 0);
            for e in 0..ne {
                im.eleaf(o, e, 7 * e as u32, (nb - 7 * e).min(7) as u16, at(7 * e));
            }
        }
        let name = |i: usize| [b'n', b'a' + (i / 100) as u8, b'a' + (i / 10 % 10) as u8, b'a' + (i % 10) as u8];
        for i in 0..nb {
            if i == 0 {
                im.dirblock(at(0), &[(D, 2, b"."), (2, 2, b".."), (12, 1, &name(0))]);
            } else {
                im.dirblock(at(i), &[(0, 1, b"gone"), (12 + (i % 2) as u32, 1, &name(i))]);
            }
            if csum {
                im.fix_dirblock(D, at(i));
            }
        }
        if csum && !map {
            im.fix_enode(D, 40);
        }
        let fs = ok(fin(im).load(), 1);
        if flag() {
            let mut count = 0;
            for (i, e) in ok(fs.read_dir("/d"), 2).enumerate() {
                let e = ok(e, 3);
                if i >= 2 {
                    check(eq_bytes(e.file_name().as_ref(), &name(i - 2)), 4);
                }
                count += 1;
            }
            check(count == nb + 2, 5);
            reach(0);
        } else {
            let q = sym_name(4);
            let mut p = b"/d/".to_vec();
            p.extend_from_slice(&q);
            let (k, u) = uid(&fs, &p);
            let mut want = 0;
            for i in 0..nb {
                let ino = if i == 0 { 12 } else { 12 + (i % 2) as u64 };
                want = select(eq_bytes(&q, &name(i)), ino, want);
            }
            if k == K::Ok {
                reach(1);
                check(u as u64 == want, 6);
            } else {
                reach(2);
                check(k == K::NotFound && want == 0, 7);
            }
        }
    }

    /// Lookup in a plain directory of arbitrary names agrees with the first
    /// live entry of that name. params: [lengths: entry0, entry1, entry2,
    /// query length, csum]
    pub fn h_lookup() {
        let csum = param(4) == 1;
        let mut im = base(if csum { Cfg::csum() } else { Cfg::basic() });
        im.dir(D, &[DB, DB + 2]);
        let names: Vec<Vec<u8>> = (0..3).map(|i| sym_name(param(i) as usize)).collect();
        let live: Vec<u8> = (0..3).map(|_| u8s()).collect();
        for l in &live {
            assume(*l < 2);
        }
        let ino = |i: usize| select(live[i] == 1, 12 + i as u64, 0) as u32;
        im.dirblock(DB, &[(D, 2, b"."), (2, 2, b".."), (ino(0), 1, &names[0]), (ino(1), 1, &names[1])]);
        im.dirblock(DB + 2, &[(ino(2), 1, &names[2])]);
        if csum {
            im.fix_dirblock(D, DB);
            im.fix_dirblock(D, DB + 2);
        }
        let q = sym_name(param(3) as usize);
        let fs = ok(fin(im).load(), 1);
        let mut p = b"/d/".to_vec();
        p.extend_from_slice(&q);
        let (k, u) = uid(&fs, &p);
        let mut want = 0u64;
        for i in (0..3).rev() {
            let hit = (live[i] == 1) & eq_bytes(&names[i], &q);
            want = select(hit, 12 + i as u64, want);
        }
        match k {
            K::Ok => {
                reach(0);
                check(u as u64 == want, 2);
            }
            K::NotFound => {
                reach(1);
                check(want == 0, 3);
            }
            _ => check(false, 4),
        }
    }

    // ---- htree ----

    fn rd(b: &[u8], i: usize, unsigned: bool) -> u32 {
        if unsigned { b[i] as u32 } else { b[i] as i8 as i32 as u32 }
    }
    /// str2hashbuf of the kernel.
    fn hashbuf(msg: &[u8], num: usize, unsigned: bool) -> Vec<u32> {
        let len = msg.len() as u32;
        let pad = len | len << 8 | len << 16 | len << 24;
        let mut out = vec![pad; num];
        let n = msg.len().min(num * 4);
        for w in 0..num {
            if 4 * w >= n {
                break;
            }
            let mut val = pad;
            for i in 4 * w..(4 * w + 4).min(n) {
                val = rd(msg, i, unsigned).wrapping_add(val << 8);
            }
            out[w] = val;
        }
        out
    }
    fn half_md4(buf: &mut [u32; 4], x: &[u32]) {
        let (mut a, mut b, mut c, mut d) = (buf[0], buf[1], buf[2], buf[3]);
        let f = |x: u32, y: u32, z: u32| z ^ (x & (y ^ z));
        let g = |x: u32, y: u32, z: u32| (x & y) | (x & z) | (y & z);
        let h = |x: u32, y: u32, z: u32| x ^ y ^ z;
        macro_rules! r {
            ($f:ident, $a:ident, $b:ident, $c:ident, $d:ident, $x:expr, $k:expr, $s:expr) => {
                $a = $a.wrapping_add($f($b, $c, $d)).wrapping_add($x.wrapping_add($k)).rotate_left($s);
            };
        }
        for i in [0, 4] {
            r!(f, a, b, c, d, x[i], 0u32, 3);
            r!(f, d, a, b, c, x[i + 1], 0u32, 7);
            r!(f, c, d, a, b, x[i + 2], 0u32, 11);
            r!(f, b, c, d, a, x[i + 3], 0u32, 19);
        }
        const K2: u32 = 0x5a82_7999;
        for i in [1, 0] {
            r!(g, a, b, c, d, x[i], K2, 3);
            r!(g, d, a, b, c, x[i + 2], K2, 5);
            r!(g, c, d, a, b, x[i + 4], K2, 9);
            r!(g, b, c, d, a, x[i + 6], K2, 13);
        }
        const K3: u32 = 0x6ed9_eba1;
        for i in [2, 0] {
            r!(h, a, b, c, d, x[i + 1], K3, 3);
            r!(h, d, a, b, c, x[i + 5], K3, 9);
            r!(h, c, d, a, b, x[i], K3, 11);
            r!(h, b, c, d, a, x[i + 4], K3, 15);
        }
        buf[0] = buf[0].wrapping_add(a);
        buf[1] = buf[1].wrapping_add(b);
        buf[2] = buf[2].wrapping_add(c);
        buf[3] = buf[3].wrapping_add(d);
    }
    fn tea(buf: &mut [u32; 4], x: &[u32]) {
        let (mut b0, mut b1) = (buf[0], buf[1]);
        let mut sum = 0u32;
        for _ in 0..16 {
            sum = sum.wrapping_add(0x9e37_79b9);
            b0 = b0.wrapping_add((b1 << 4).wrapping_add(x[0]) ^ b1.wrapping_add(sum) ^ (b1 >> 5).wrapping_add(x[1]));
            b1 = b1.wrapping_add((b0 << 4).wrapping_add(x[2]) ^ b0.wrapping_add(sum) ^ (b0 >> 5).wrapping_add(x[3]));
        }
        buf[0] = buf[0].wrapping_add(b0);
        buf[1] = buf[1].wrapping_add(b1);
    }
    pub fn name_hash(alg: u8, seed: &[u32; 4], name: &[u8], unsigned: bool) -> u32 {
        let h = name_hash_core(alg, seed, name, unsigned) & !1;
        // (0x7fffffff << 1) is the end-of-directory marker.
        select(h == 0xffff_fffe, 0xffff_fffc, h as u64) as u32
    }
    fn name_hash_core(alg: u8, seed: &[u32; 4], name: &[u8], unsigned: bool) -> u32 {
        let mut buf = [0x6745_2301u32, 0xefcd_ab89, 0x98ba_dcfe, 0x1032_5476];
        if seed.iter().any(|x| *x != 0) {
            buf = *seed;
        }
        let mut p = name;
        if alg == 1 {
            while !p.is_empty() {
                half_md4(&mut buf, &hashbuf(p, 8, unsigned));
                p = &p[p.len().min(32)..];
            }
            buf[1]
        } else {
            while !p.is_empty() {
                tea(&mut buf, &hashbuf(p, 4, unsigned));
                p = &p[p.len().min(16)..];
            }
            buf[0]
        }
    }
    /// Its raw half-MD4 hash with SEED is 0xfffffffe.
    const EOD_NAME: &[u8] = b"0dvrgbca";
    pub const SEED: [u32; 4] = [0x1234_5678, 0x9abc_def0, 0x0fed_cba9, 0x8765_4321];

    /// Root block of an htree at block `b` with the given children.
    pub fn dx_root(im: &mut Img, b: u64, alg: u8, depth: u8, kids: &[(u32, u32)]) {
        let o = im.blk(b);
        let bs = im.bs;
        im.dirent(o, D, 12, 2, b".");
        im.dirent(o + 12, 2, (bs - 12) as u16, 2, b"..");
        im.d[o + 0x1c] = alg;
        im.d[o + 0x1d] = 8;
        im.d[o + 0x1e] = depth;
        dx_entries(im, o + 0x20, (bs - 0x20) / 8, kids);
    }
    pub fn dx_node(im: &mut Img, b: u64, kids: &[(u32, u32)]) {
        let o = im.blk(b);
        let bs = im.bs;
        im.p16(o + 4, bs as u16);
        dx_entries(im, o + 8, (bs - 8) / 8, kids);
    }
    fn dx_entries(im: &mut Img, o: usize, limit: usize, kids: &[(u32, u32)]) {
        let l = if im.c.ro & RO_CSUM != 0 { limit - 1 } else { limit };
        im.p16(o, l as u16);
        im.p16(o + 2, kids.len() as u16);
        for (i, k) in kids.iter().enumerate() {
            if i > 0 {
                im.p32(o + 8 * i, k.0);
            }
            im.p32(o + 8 * i + 4, k.1);
        }
    }
    /// Directory inode of `n` consecutive blocks starting at DB.
    pub fn dx_dir(im: &mut Img, n: u16) {
        im.inode(D, S_DIR | 0o755, n as u64 * im.bs as u64, FL_EXT | FL_HTREE);
        im.extents(D, &[(0, n, DB)]);
    }

    /// Where block `i` of the directory lies: 0 consecutive, 1 in two extents,
    /// 2 by a block map, 3 in three extents below an index node.
    fn dx_at(layout: u64, i: u64) -> u64 {
        DB + match layout {
            0 => i,
            1 => i + if i < 2 { 0 } else { 10 },
            2 => (i * 7) % 23,
            _ => i + if i < 1 { 0 } else if i < 3 { 5 } else { 12 },
        }
    }
    fn dx_dir_at(im: &mut Img, n: u16, layout: u64) {
        dx_dir(im, n);
        let at = |i: u64| dx_at(layout, i);
        match layout {
            0 => {}
            1 => im.extents(D, &[(0, 2, at(0)), (2, n - 2, at(2))]),
            2 => {
                let o = im.ioff(D);
                im.p32(o + 0x20, FL_HTREE);
                for i in 0..15usize {
                    let b = if i < n as usize { at(i as u64) as u32 } else { 0 };
                    im.p32(o + 0x28 + 4 * i, b);
                }
            }
            _ => {
                let (r, l) = (im.ioff(D) + 0x28, im.blk(60));
                im.ehdr(r, 1, 4, 1);
                im.eidx(r, 0, 0, 60);
                im.ehdr(l, 3, 84, 0);
                im.eleaf(l, 0, 0, 1, at(0));
                im.eleaf(l, 1, 1, 2, at(1));
                im.eleaf(l, 2, 3, n - 3, at(3));
                if im.c.ro & RO_CSUM != 0 {
                    im.fix_enode(D, 60);
                }
            }
        }
    }

    const NAMES: [&[u8]; 6] = [b"alpha", b"b", b"gamma-delta", b"x\x80\xffy", b"0123456789abcdef0123456789abcdefXYZ", b"zz.tar.gz"];

    /// Two-level (depth 0) or three-level (depth 1) htree of six names with
    /// symbolic boundaries: wherever the boundaries lie, and whichever leaf
    /// each name therefore is in, every name is found and no other is.
    /// params: [alg, leaves 1..4, depth, csum, layout]
    pub fn h_htree() {
        let alg = param(0) as u8;
        let nl = param(1) as usize;
        let depth = param(2) as u8;
        let csum = param(3) == 1;
        let mut im = base(if csum { Cfg::csum() } else { Cfg::basic() });
        // Blocks: 0 root, 1..=nl leaves, nl+1, nl+2 internal.
        let layout = param(4);
        let at = |i: u64| dx_at(layout, i);
        dx_dir_at(&mut im, nl as u16 + if depth == 0 { 1 } else { 3 }, layout);
        let hs: Vec<u32> = NAMES.iter().map(|n| name_hash(alg, &SEED, n, false)).collect();
        let mut bound = vec![0u32];
        for i in 1..nl {
            let b = u32s();
            assume((b >= bound[i - 1]) & (b & 1 == 0));
            if i > 1 {
                assume(b > bound[i - 1]);
            }
            bound.push(b);
        }
        // Leaf of each name, from the boundaries.
        let mut leaf_of = Vec::new();
        for h in &hs {
            let mut l = 0;
            for (i, b) in bound.iter().enumerate().skip(1) {
                if *h >= *b {
                    l = i;
                }
            }
            leaf_of.push(l);
        }
        for l in 0..nl {
            let mut ents: Vec<(u32, u8, &[u8])> = vec![(0, 0, b"del"), (0, 1, b"a longer deleted entry")];
            for (i, n) in NAMES.iter().enumerate() {
                if leaf_of[i] == l {
                    ents.push((12 + (i as u32 & 3), 1, n));
                }
            }
            im.dirblock(at(1 + l as u64), &ents);
        }
        let kids: Vec<(u32, u32)> = (0..nl).map(|l| (bound[l], 1 + l as u32)).collect();
        let b = nl as u64;
        if depth == 0 {
            dx_root(&mut im, DB, alg, 0, &kids);
        } else {
            let split = nl.div_ceil(2);
            let two = split < nl;
            let mut top = vec![(0, nl as u32 + 1)];
            dx_node(&mut im, at(b + 1), &kids[..split]);
            if two {
                top.push((bound[split], nl as u32 + 2));
            }
            dx_node(&mut im, at(b + 2), if two { &kids[split..] } else { &kids[..1] });
            dx_root(&mut im, DB, alg, 1, &top);
        }
        if csum {
            for l in 0..nl {
                im.fix_dirblock(D, at(1 + l as u64));
            }
            if depth == 1 {
                im.fix_dx(D, at(b + 1), 8);
                im.fix_dx(D, at(b + 2), 8);
            }
            im.fix_dx(D, DB, 0x20);
        }
        let fs = ok(fin(im).load(), 1);
        for (i, n) in NAMES.iter().enumerate() {
            let mut p = b"/d/".to_vec();
            p.extend_from_slice(n);
            let (k, u) = uid(&fs, &p);
            check(k == K::Ok, 2);
            check(u == 12 + (i as u32 & 3), 3);
        }
        for n in [&b"alpha2"[..], b"a", b"del", b"0123456789abcdef0123456789abcdefXY"] {
            let mut p = b"/d/".to_vec();
            p.extend_from_slice(n);
            check(uid(&fs, &p).0 == K::NotFound, 4);
        }
        let (k, _) = uid(&fs, b"/d/.");
        check(k == K::Ok, 5);
        check(uid(&fs, b"/d/..").0 == K::Ok, 6);
        // The same names come out of iteration (internal blocks are empty).
        let mut n = 0;
        for e in ok(fs.read_dir("/d"), 7) {
            let e = ok(e, 8);
            let f = e.file_name();
            if f != "." && f != ".." {
                check(NAMES.iter().any(|x| *x == f.as_ref()), 9);
                n += 1;
            }
        }
        check(n == NAMES.len(), 10);
        reach(0);
    }

    /// Names of one hash spread over leaves marked as continuations.
    /// params: [depth, leaf holding the name 0..4, name]
    pub fn h_htree_collide() {
        let depth = param(0) as u8;
        let at = param(1) as usize;
        let alg = 1;
        let mut im = base(Cfg::basic());
        dx_dir(&mut im, 9);
        // The second name's raw hash is the end-of-directory marker.
        let q: &[u8] = if param(2) == 0 { b"wanted" } else { EOD_NAME };
        let h = name_hash(alg, &SEED, q, false);
        check(param(2) == 0 || h == 0xffff_fffc, 4);
        let mut bound = vec![0u32];
        // Leaf 1 starts anywhere up to the hash; leaves 2 and 3 continue it;
        // leaf 4 starts anywhere above.
        let b1 = u32s();
        assume((b1 <= h) & (b1 > 0) & (b1 & 1 == 0));
        bound.push(b1);
        bound.push(h | 1);
        bound.push(h | 1);
        let b4 = u32s();
        assume((b4 > h) & (b4 > (h | 1)));
        bound.push(b4);
        for l in 0..5usize {
            let mut e: Vec<(u32, u8, &[u8])> = vec![(13, 1, b"filler")];
            if l == at {
                e.push((12, 1, q));
            }
            im.dirblock(DB + 1 + l as u64, &e);
        }
        let kids: Vec<(u32, u32)> = (0..5).map(|l| (bound[l], 1 + l as u32)).collect();
        if depth == 0 {
            dx_root(&mut im, DB, alg, 0, &kids);
        } else {
            // The collision run crosses the two internal nodes.
            dx_node(&mut im, DB + 6, &kids[..3]);
            dx_node(&mut im, DB + 7, &kids[3..]);
            dx_root(&mut im, DB, alg, 1, &[(0, 6), (bound[3], 7)]);
        }
        let fs = ok(fin(im).load(), 1);
        let (k, u) = uid(&fs, &[b"/d/", q].concat());
        if (1..4).contains(&at) {
            check(k == K::Ok && u == 12, 2);
        } else {
            // Not where its hash belongs: no one has to find it there.
            check(k == K::NotFound || (k == K::Ok && u == 12), 3);
        }
        reach(0);
    }

    /// A node filled with entries: wherever among them the name's hash falls,
    /// its leaf is found. params: [depth, csum, log_bs]
    pub fn h_htree_full() {
        let depth = param(0) as u8;
        let csum = param(1) == 1;
        let lb = param(2) as u32;
        let c = if csum { Cfg::csum() } else { Cfg::basic() };
        let bs = 1024usize << lb;
        let room = (bs - if depth == 0 { 0x20 } else { 8 }) / 8;
        let n = (if csum { room - 1 } else { room }) as u32;
        let mut im = base(Cfg { log_bs: lb, blocks: 640, len: 640 * bs, bpg: 8192, ..c });
        dx_dir(&mut im, n as u16 + 2);
        let q: &[u8] = b"wanted";
        let h = name_hash(1, &SEED, q, false);
        let at = if lb == 0 { choose(n as u64) as u32 } else { (n - 1) * choose(12) as u32 / 11 };
        let below = 2 * choose(2) as u32;
        check(h > 4 * n && h < !0 - 4 * n, 1);
        // Entry `at` starts at the hash or just below it.
        let low = h - below - 4 * at;
        let kids: Vec<(u32, u32)> = (0..n).map(|i| (low + 4 * i, 2 + i)).collect();
        for i in 0..n {
            let e: &[(u32, u8, &[u8])] = if i == at { &[(13, 1, b"filler"), (12, 1, q)] } else { &[(13, 1, b"filler")] };
            im.dirblock(DB + 2 + i as u64, e);
            if csum {
                im.fix_dirblock(D, DB + 2 + i as u64);
            }
        }
        if depth == 0 {
            dx_root(&mut im, DB, 1, 0, &kids);
        } else {
            dx_node(&mut im, DB + 1, &kids);
            if csum {
                im.fix_dx(D, DB + 1, 8);
            }
            dx_root(&mut im, DB, 1, 1, &[(0, 1)]);
        }
        if csum {
            im.fix_dx(D, DB, 0x20);
        }
        let fs = ok(fin(im).load(), 1);
        let (k, u) = uid(&fs, &[b"/d/", q].concat());
        check(k == K::Ok && u == 12, 2);
        reach(0);
    }

    /// Lookup in the leaf of an htree agrees with a reference parse of its
    /// arbitrary bytes. params: [symbolic bytes (multiple of 4), csum, query
    /// length (0: the fixed entry behind the bytes)]
    pub fn h_htree_leaf() {
        leaf_case(true)
    }

    /// The same in a plain directory, where "." and ".." precede the bytes.
    pub fn h_lookup_bad() {
        leaf_case(false)
    }

    fn leaf_case(htree: bool) {
        let w = param(0) as usize;
        let csum = param(1) == 1;
        let mut im = base(if csum { Cfg::csum() } else { Cfg::basic() });
        let (leaf, at) = if htree { (DB + 1, 0) } else { (DB, 24) };
        if htree {
            dx_dir(&mut im, 2);
            dx_root(&mut im, DB, 1, 0, &[(0, 1)]);
        } else {
            im.dir(D, &[DB]);
            im.dirblock(DB, &[(D, 2, b"."), (2, 2, b"..")]);
            let o = im.blk(DB);
            im.p16(o + 12 + 4, 12);
        }
        let o = im.blk(leaf);
        let mut r = vec![0u8; w];
        fill(&mut r);
        let end = if csum { 1012 } else { 1024 };
        let mut k = 0;
        while k + 6 <= w {
            let rl = u16::from_le_bytes([r[k + 4], r[k + 5]]) as usize;
            assume((rl <= w) | (!csum & (rl >= 960)));
            assume((rl <= w) | (rl <= 1028));
            assume((r[k + 6] as usize <= w) | (r[k + 6] >= 252));
            // Entries of inodes that exist (or are deleted).
            let ino = u32::from_le_bytes([r[k], r[k + 1], r[k + 2], r[k + 3]]);
            assume((ino == 0) | (ino == 12) | (ino == 13) | (k > 0));
            k += 4;
        }
        im.d[o + at..o + at + w].copy_from_slice(&r);
        im.dirent(o + at + w, 14, (end - at - w) as u16, 1, b"zz");
        if csum {
            im.fix_dirblock(D, leaf);
            if htree {
                im.fix_dx(D, DB, 0x20);
            }
        }
        let block = im.d[o..o + 1024].to_vec();
        let q = if param(2) == 0 { b"zz".to_vec() } else { sym_name(param(2) as usize) };
        let fs = ok(fin(im).load(), 1);
        let mut want = Vec::new();
        let verdict = parse(&block, &mut want);
        let (k, u) = uid(&fs, &[&b"/d/"[..], &q].concat());
        let hit = want.iter().find(|e| eq_bytes(&block[e.off + 8..e.off + 8 + e.name_len], &q));
        match (hit, verdict) {
            (Some(e), _) => {
                let ino = u32::from_le_bytes([block[e.off], block[e.off + 1], block[e.off + 2], block[e.off + 3]]);
                // An inode number elsewhere may be one that does not exist.
                if ino >= 12 && ino <= 14 {
                    // A reader may check the whole block first.
                    check((k == K::Ok && u == ino) || (verdict.is_err() && k == K::Corrupt), 2);
                    reach(0);
                }
            }
            (None, Ok(())) => {
                reach(1);
                check(k == K::NotFound, 3);
            }
            (None, Err(Bad::Hard)) => {
                reach(2);
                check(k == K::Corrupt, 4);
            }
            (None, Err(Bad::Soft)) => {}
        }
    }

    /// "." and ".." of an hash-indexed directory are the entries stored in
    /// its root, whatever they are. params: [0 "." or 1 "..", csum]
    pub fn h_htree_dots() {
        let which = param(0) as usize;
        let csum = param(1) == 1;
        let mut im = base(if csum { Cfg::csum() } else { Cfg::basic() });
        dx_dir(&mut im, 2);
        dx_root(&mut im, DB, 1, 0, &[(0, 1)]);
        im.dirblock(DB + 1, &[(12, 1, b"f")]);
        let o = im.blk(DB) + 12 * which;
        let ino = u32s();
        assume((ino == 0) | (ino == 2) | (ino == D) | (ino == 13));
        im.p32(o, ino);
        let (nl, ty) = (u8s(), u8s());
        assume(nl <= 4);
        im.d[o + 6] = nl;
        im.d[o + 7] = ty;
        let mut name = [0u8; 4];
        fill(&mut name);
        im.d[o + 8..o + 12].copy_from_slice(&name);
        if csum {
            im.fix_dirblock(D, DB + 1);
            im.fix_dx(D, DB, 0x20);
        }
        let o = im.ioff(D);
        im.p16(o + 2, D as u16);
        let o = im.ioff(2);
        im.p16(o + 2, 2);
        let fs = ok(fin(im).load(), 1);
        let (k, u) = uid(&fs, [&b"/d/."[..], b"/d/.."][which]);
        let good = (ino != 0) & (ty >= 1) & (ty <= 7) & (nl as usize == which + 1) & (name[0] == b'.') & ((which == 0) | (name[1] == b'.'));
        if good {
            reach(0);
            check(k == K::Ok, 2);
            // "." stays where it is; ".." is the entry's inode.
            check(u == if which == 0 { D } else { ino }, 3);
        } else {
            reach(1);
            // "." needs no lookup.
            check(k == K::Corrupt || k == K::NotFound || (which == 0 && k == K::Ok && u == D), 4);
        }
        // The other names do not depend on it.
        let (k, u) = uid(&fs, b"/d/f");
        check(k == K::Ok && u == 12, 5);
    }

    /// Arbitrary bytes in the htree's root (hash type, depth, count, entries)
    /// and in the node below it. params: [symbolic bytes of the root after
    /// 0x1c, of the node, csum]
    pub fn h_htree_bad() {
        let csum = param(2) == 1;
        let mut im = base(if csum { Cfg::csum() } else { Cfg::basic() });
        dx_dir(&mut im, 3);
        dx_root(&mut im, DB, 1, 0, &[(0, 1), (0x8000_0000, 2)]);
        let o = im.blk(DB);
        let mut r = vec![0u8; param(0) as usize];
        fill(&mut r);
        im.d[o + 0x1c..o + 0x1c + r.len()].copy_from_slice(&r);
        im.dirblock(DB + 1, &[(12, 1, b"one")]);
        im.dirblock(DB + 2, &[(13, 1, b"two")]);
        let o1 = im.blk(DB + 1);
        let mut r = vec![0u8; param(1) as usize];
        fill(&mut r);
        im.d[o1..o1 + r.len()].copy_from_slice(&r);
        if csum {
            im.fix_dirblock(D, DB + 2);
        }
        let fs = ok(fin(im).load(), 1);
        let (k, _) = uid(&fs, b"/d/one");
        check(matches!(k, K::Ok | K::NotFound | K::Corrupt | K::Incompat), 2);
        reach(0);
        reach(match k {
            K::Ok => 1,
            K::NotFound => 2,
            K::Corrupt => 3,
            _ => 4,
        });
    }

    /// The hash of any name of the given length decides the leaf: a name
    /// stored after the boundary `hash(name)` is found, and with the boundary
    /// just above it is not looked for there. params: [alg, length, symbolic
    /// bytes at the end, seed zero 0/1, bytes above 0x7f allowed, csum]
    pub fn h_hash() {
        hash_case(false)
    }
    /// The same with the superblock's flag for unsigned hashing set.
    pub fn h_hash_unsigned() {
        hash_case(true)
    }
    fn hash_case(unsigned: bool) {
        let alg = param(0) as u8;
        let len = param(1) as usize;
        let ns = param(2) as usize;
        let mut im = base(Cfg::basic());
        let seed = match param(3) {
            0 => SEED,
            1 => [0; 4],
            // Seeds that are partly zero are seeds all the same.
            2 => [0, SEED[1], SEED[2], SEED[3]],
            3 => [SEED[0], 0, 0, 0],
            4 => [0, 0, 0, SEED[3]],
            _ => [SEED[0], u32s(), u32s(), u32s()],
        };
        for i in 0..4 {
            im.p32(SB + 0xec + 4 * i, seed[i]);
        }
        im.p32(SB + 0x160, if unsigned { 2 } else { 1 });
        dx_dir(&mut im, 3);
        let mut name: Vec<u8> = (0..len).map(|i| b'A' + (i % 50) as u8).collect();
        fill(&mut name[len - ns..]);
        for x in &name[len - ns..] {
            assume((*x != 0) & (*x != b'/') & (*x != b'.'));
            if param(4) == 0 {
                assume(*x < 0x80);
            }
        }
        let core = name_hash_core(alg, &seed, &name, unsigned) & !1;
        let h = core;
        assume((core != 0) & (core < 0xffff_fff0));
        dx_root(&mut im, DB, alg, 0, &[(0, 1), (h, 2)]);
        im.dirblock(DB + 1, &[(12, 1, &name)]);
        im.dirblock(DB + 2, &[(13, 1, &name)]);
        let o = im.blk(DB);
        let mut im2 = Img { d: im.d.clone(), c: im.c.clone(), bs: im.bs };
        let fs = ok(fin(im).load(), 1);
        let mut p = b"/d/".to_vec();
        p.extend_from_slice(&name);
        let (k, u) = uid(&fs, &p);
        check(k == K::Ok && u == 13, 2);
        im2.p32(o + 0x20 + 8, h.wrapping_add(2));
        let fs = ok(fin(im2).load(), 1);
        let (k, u) = uid(&fs, &p);
        check(k == K::Ok && u == 12, 3);
        reach(0);
    }

    /// 64 KiB blocks: the record that fills a block. params: [encoding of the
    /// record length, htree]
    pub fn h_rec64k() {
        let c = Cfg { log_bs: 6, blocks: 12, len: 12 * 65536, bpg: 32768, itable: 2, ..Cfg::basic() };
        let mut im = Img::new(c);
        im.dir(2, &[4, 5, 6]);
        im.dirblock(4, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"a")]);
        let raw = u16s();
        assume((raw == 0) | (raw == 65535));
        let o = im.blk(5);
        let ino = u8s();
        assume(ino < 2);
        im.dirent(o, select(ino == 1, 12, 0) as u32, raw, 1, b"mid");
        im.dirblock(6, &[(12, 1, b"z")]);
        im.inode(12, S_REG | 0o644, 0, FL_EXT);
        im.extents(12, &[]);
        let fs = ok(Dev::new(im.d).load(), 1);
        let mut n = 0;
        for e in ok(fs.read_dir("/"), 2) {
            let _ = ok(e, 3);
            n += 1;
        }
        check(n as u64 == 4 + ino as u64, 4);
        check(rk(&fs.metadata("/z")) == K::Ok, 5);
        check((rk(&fs.metadata("/mid")) == K::Ok) == (ino == 1), 6);
        reach(0);
    }

    /// Encrypted directories are refused, whatever else the flags say.
    pub fn h_dir_enc() {
        let mut im = base(Cfg::basic());
        let htree = param(0) == 1;
        if htree {
            dx_dir(&mut im, 2);
            dx_root(&mut im, DB, 1, 0, &[(0, 1)]);
            im.dirblock(DB + 1, &[(12, 1, b"f")]);
        } else {
            im.dir(D, &[DB]);
            im.dirblock(DB, &[(D, 2, b"."), (2, 2, b".."), (12, 1, b"f")]);
        }
        let o = im.ioff(D);
        let fl = u32s();
        // Keep the mapping type and the directory format.
        assume((fl & FL_EXT != 0) & ((fl & FL_HTREE != 0) == htree));
        im.p32(o + 0x20, fl);
        let fs = ok(fin(im).load(), 1);
        let enc = fl & FL_ENC != 0;
        let r = rk(&fs.read_dir("/d").map(|_| ()));
        check((r == K::Encrypted) == enc, 2);
        check(enc || r == K::Ok, 3);
        let (k, u) = uid(&fs, b"/d/f");
        check((k == K::Encrypted) == enc, 4);
        check(enc || (k == K::Ok && u == 12), 5);
        check(rk(&fs.metadata("/d")) == K::Ok, 6);
        reach(if enc { 0 } else { 1 });
    }
}
