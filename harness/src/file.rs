//! File content: extent trees, block maps, chunked reads, seeking.
super::entries! { h_ext h_ext_long h_ext_gap h_ext_far h_ext_shared h_ext_many h_map h_seek1 h_seek_far h_chunks h_seek_io h_ext_bad h_ext_child h_huge h_hole_read }

mod imp {
    use super::super::dev::*;
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;
    use std::io::{Read, Seek, SeekFrom};

    /// A filesystem of 2^33 blocks in three groups; only the first blocks
    /// are stored.
    fn big(log_bs: u32, csum: bool) -> Cfg {
        let bs = 1024usize << log_bs;
        Cfg {
            log_bs,
            blocks: 1 << 33,
            bpg: 0xffff_ffff,
            incompat: INC_FILETYPE | INC_EXTENTS | INC_64BIT,
            desc_size: 64,
            ro: if csum { RO_CSUM } else { 0 },
            inode_size: if csum { 256 } else { 128 },
            len: 32 * bs,
            itable: 4,
            itable_step: 0,
            ..Cfg::basic()
        }
    }
    /// Root directory at block 20 holding file `f` (inode 12).
    fn with_root(c: Cfg) -> Img {
        let mut im = Img::new(c);
        im.dir(2, &[20]);
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"f")]);
        im
    }
    fn finish(mut im: Img, pattern: bool) -> Dev {
        if im.c.ro & RO_CSUM != 0 {
            im.fix_dirblock(2, 20);
        }
        im.fix(&[2, 12]);
        let n = im.c.blocks * im.bs as u64;
        let d = Dev::new(im.d);
        d.0.len.set(n);
        d.0.pattern.set(pattern);
        d
    }

    const PBASE: [u64; 4] = [0x1_8000_0000, 0x1000, 0x8000_0000, 0x1_0000_0000];

    #[derive(Clone, Copy)]
    struct Ex {
        log: u32,
        len: u32,
        init: bool,
        phys: u64,
    }

    /// An arbitrary valid list of `n` extents starting within the first
    /// `nb` blocks, lengths 1..=3, initialized or not, at arbitrary places.
    fn sym_extents(n: usize, nb: u32) -> Vec<Ex> {
        let mut v: Vec<Ex> = Vec::new();
        let mut min = 0u32;
        for i in 0..n {
            let log = u8s() as u32;
            let len = u8s() as u32;
            assume((log >= min) & (log < nb + 1) & (len >= 1) & (len <= 3));
            let init = u8s();
            assume(init < 2);
            let off = u32s() as u64;
            assume(off < 0x1000_0000);
            v.push(Ex { log, len, init: init == 1, phys: PBASE[i] + off });
            min = log + len;
        }
        v
    }
    fn rawlen(e: &Ex) -> u16 {
        select(e.init, e.len as u64, (e.len + 32768) as u64) as u16
    }
    /// What the first 8 bytes of file block `b` must be.
    fn expect(v: &[Ex], b: u32, bs: u64) -> u64 {
        let mut r = 0;
        for e in v {
            let c = (b >= e.log) & (b < e.log + e.len) & e.init;
            r = select(c, e.phys.wrapping_add(b as u64).wrapping_sub(e.log as u64).wrapping_mul(bs), r);
        }
        r
    }
    fn g64(b: &[u8]) -> u64 {
        u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
    }
    fn check_content(c: &[u8], v: &[Ex], size: usize, bs: usize) {
        check(c.len() == size, 2);
        if c.len() != size {
            kill()
        }
        for b in 0..size.div_ceil(bs) {
            let o = b * bs;
            let x = expect(v, b as u32, bs as u64);
            check(g64(&c[o..]) == x, 3);
            let mut q = 1024;
            while q < bs && o + q + 8 <= size {
                check(g64(&c[o + q..]) == select(x == 0, 0, x.wrapping_add(q as u64)), 4);
                q += 1024;
            }
            let last = (o + bs).min(size) - 1;
            check((last - o < 8) | (c[last] == 0), 5);
        }
    }

    /// params: [extents in first leaf, in second leaf, depth, csum, log_bs,
    /// file size in bytes, level at which the paths to the leaves part].
    pub fn h_ext() {
        let (n0, n1) = (param(0) as usize, param(1) as usize);
        let depth = param(2) as u16;
        let mut im = with_root(big(param(4) as u32, param(3) == 1));
        let csum = param(3) == 1;
        let bs = im.bs;
        let size = param(5) as usize;
        let nb = size.div_ceil(bs) as u32;
        im.inode(12, S_REG | 0o644, size as u64, FL_EXT);
        let v = sym_extents(n0 + n1, nb);
        let root = im.ioff(12) + 0x28;
        let per = ((bs - 12 - if csum { 4 } else { 0 }) / 12) as u16;
        if depth == 0 {
            im.ehdr(root, n0 as u16, 4, 0);
            for (i, e) in v.iter().enumerate() {
                im.eleaf(root, i, e.log, rawlen(e), e.phys);
            }
        } else {
            let (l0, l1) = (im.blk(24), im.blk(25));
            im.ehdr(l0, n0 as u16, per, 0);
            im.ehdr(l1, n1 as u16, per, 0);
            for (i, e) in v.iter().enumerate() {
                if i < n0 {
                    im.eleaf(l0, i, e.log, rawlen(e), e.phys);
                } else {
                    im.eleaf(l1, i - n0, e.log, rawlen(e), e.phys);
                }
            }
            // The nodes above the leaves: one chain for each up to the level
            // where the two meet.
            let split = if param(6) == 0 { 1 } else { param(6) as u16 };
            let (mut c0, mut c1) = (24, 25);
            let k1 = if n1 > 0 { v[n0].log } else { 0 };
            for l in 1..=depth {
                let cap = if l == depth { 4 } else { per };
                let b0 = 10 + l as u32;
                let o = if l == depth { root } else { im.blk(b0 as u64) };
                let two = l == split && n1 > 0;
                im.ehdr(o, if two { 2 } else { 1 }, cap, l);
                im.eidx(o, 0, v[0].log, c0);
                if two {
                    im.eidx(o, 1, k1, c1);
                }
                c0 = b0 as u64;
                if l < split && n1 > 0 {
                    let b1 = 15 + l as u64;
                    let o = im.blk(b1);
                    im.ehdr(o, 1, per, l);
                    im.eidx(o, 0, k1, c1);
                    c1 = b1;
                }
            }
            if csum {
                for b in [24, 25] {
                    im.fix_enode(12, b);
                }
                for l in 1..depth {
                    im.fix_enode(12, 10 + l as u64);
                    if l < split {
                        im.fix_enode(12, 15 + l as u64);
                    }
                }
            }
        }
        let fs = ok(finish(im, true).load(), 1);
        let c = ok(fs.read("/f"), 6);
        check_content(&c, &v, size, bs);
        reach(0);
    }

    /// One extent of any length up to the maximum, read at any block through
    /// `seek_to`. params: [unwritten 0/1, 1 a file as long as the longest
    /// extents, read at their end]
    pub fn h_ext_long() {
        let far = param(1) == 1;
        let mut im = with_root(big(0, false));
        let nb = if far { 32780 } else { 40u64 };
        im.inode(12, S_REG | 0o644, nb * 1024, FL_EXT);
        let root = im.ioff(12) + 0x28;
        let len = if far {
            (if param(0) == 1 { 65535 } else { 32768 }) - choose(4) as u16
        } else {
            u16s()
        };
        let log = u8s() as u32;
        assume((log == 1) | (!far & (log < 3)));
        if param(0) == 1 {
            assume(len > 32768);
        } else {
            assume((len >= 1) & (len <= 32768));
        }
        let off = if far { 0x0123_4567 } else { u32s() as u64 };
        assume(off < 0x1000_0000);
        let phys = PBASE[0] + off;
        im.ehdr(root, 1, 4, 0);
        im.eleaf(root, 0, log, len, phys);
        let e = Ex { log, len: (len & 0x7fff) as u32 | select(len == 32768, 32768, 0) as u32, init: param(0) == 0, phys };
        let fs = ok(finish(im, true).load(), 1);
        let mut f = ok(fs.open("/f"), 7);
        let at = if far { [32764 + choose(7) as u32, 1, 2, 0] } else { [0u32, 2, 3, 39] };
        for b in at {
            ok(f.seek_to(b as u64 * 1024), 8);
            let mut buf = [1u8; 8];
            check(ok(f.read_bytes(&mut buf), 9) == 8, 10);
            check(g64(&buf) == expect(&[e], b, 1024), 11);
        }
        reach(0);
    }

    /// A file with a long hole between two extents, read at blocks around
    /// both ends of the hole by seeking to them (from the start, or from the
    /// block before). params: [blocks of the shortest hole, spread]
    pub fn h_ext_gap() {
        let mut im = with_root(big(0, false));
        let gap = param(0) as u32 + choose(param(1)) as u32;
        im.inode(12, S_REG | 0o644, (gap as u64 + 8) * 1024, FL_EXT);
        let root = im.ioff(12) + 0x28;
        im.ehdr(root, 2, 4, 0);
        let off = u32s() as u64;
        assume(off < 0x1000_0000);
        let ex = [Ex { log: 1, len: 2, init: true, phys: PBASE[0] + off }, Ex { log: 3 + gap, len: 2, init: true, phys: PBASE[2] + off }];
        for (i, e) in ex.iter().enumerate() {
            im.eleaf(root, i, e.log, e.len as u16, e.phys);
        }
        let fs = ok(finish(im, true).load(), 1);
        let mut f = ok(fs.open("/f"), 7);
        let b = [gap, gap + 2, gap + 3, gap + 4, gap + 5][choose(5) as usize];
        ok(f.seek_to(b as u64 * 1024), 8);
        for b in b..b + 2 {
            let mut buf = [0u8; 1024];
            check(ok(f.read_bytes(&mut buf), 9) == 1024, 10);
            check(g64(&buf) == expect(&ex, b, 1024), 11);
        }
        reach(0);
    }

    /// A filesystem of 2^44 blocks: the index entry in the inode and the
    /// extents of the leaf it leads to hold block numbers with any upper
    /// 16 bits within it (and any lower bits for the leaf).
    pub fn h_ext_far() {
        let mut im = with_root(big(0, false));
        im.c.blocks = 1 << 44;
        im.p32(SB + 0x150, 1 << 12);
        im.inode(12, S_REG | 0o644, 8 * 1024, FL_EXT);
        let root = im.ioff(12) + 0x28;
        let hi = || {
            let h = u16s() as u64;
            assume(h < 1 << 12);
            h << 32
        };
        let low = u32s() as u64;
        assume((low >= 0x2000) & (low < 0x8000_0000));
        let leaf = hi() | low;
        im.ehdr(root, 1, 4, 1);
        im.eidx(root, 0, 0, leaf);
        let mut ex = Vec::new();
        let at = 30 * 1024;
        im.ehdr(at, 2, 84, 0);
        for i in 0..2u32 {
            let phys = hi() | (0x8123_4567 + 0x4321_0000 * i as u64);
            im.eleaf(at, i as usize, 1 + 4 * i, 2, phys);
            ex.push(Ex { log: 1 + 4 * i, len: 2, init: true, phys });
        }
        let d = finish(im, true);
        d.0.alias.set((leaf * 1024, 1024, at));
        let fs = ok(d.load(), 1);
        let mut f = ok(fs.open("/f"), 7);
        for b in [0u32, 1, 2, 5, 6] {
            ok(f.seek_to(b as u64 * 1024), 8);
            let mut buf = [1u8; 8];
            check(ok(f.read_bytes(&mut buf), 9) == 8, 10);
            check(g64(&buf) == expect(&ex, b, 1024), 11);
        }
        reach(0);
    }

    /// Block map. params: [level 0..3, e0, e1, e2 (position of the window
    /// within the blocks of the levels), missing (a level whose pointer is
    /// zero, or 9), log2 of the block size / 1024]
    pub fn h_map() {
        let level = param(0);
        let (e0, e1, e2) = (param(1), param(2), param(3));
        let miss = param(4);
        let lb = param(5) as u32;
        let mut im = with_root(big(lb, false));
        let bs = im.bs;
        let n = bs as u64 / 4;
        let first = match level {
            0 => e2,
            1 => 12 + e2,
            2 => 12 + n + e1 * n + e2,
            _ => 12 + n + n * n + e0 * n * n + e1 * n + e2,
        };
        // The window continues up to three blocks; neighbours are holes.
        let w = match level {
            0 => (12 - e2).min(3),
            _ => (n - e2).min(3),
        } as usize;
        let nb = first + 6;
        im.inode(12, S_REG | 0o644, nb * bs as u64, 0);
        let root = im.ioff(12) + 0x28;
        let mut ptr = Vec::new();
        for i in 0..w as u64 {
            let z = u8s();
            assume(z < 2);
            let off = u32s();
            assume(off < 0x0fff_0000);
            ptr.push(select(z == 1, 0, (i + 1) * 0x1000_0000 + off as u64) as u32);
        }
        let mut put = |im: &mut Img, blk: Option<u64>, idx: u64| {
            for (i, p) in ptr.iter().enumerate() {
                let base = match blk {
                    None => root,
                    Some(b) => im.blk(b),
                };
                im.p32(base + 4 * (idx as usize + i), *p);
            }
        };
        let link = |im: &mut Img, at: usize, lvl: u64, to: u32| im.p32(at, if miss == lvl { 0 } else { to });
        match level {
            0 => put(&mut im, None, e2),
            1 => {
                link(&mut im, root + 48, 0, 24);
                put(&mut im, Some(24), e2);
            }
            2 => {
                link(&mut im, root + 52, 0, 24);
                let a = im.blk(24) + 4 * e1 as usize;
                link(&mut im, a, 1, 25);
                put(&mut im, Some(25), e2);
            }
            _ => {
                link(&mut im, root + 56, 0, 24);
                let a = im.blk(24) + 4 * e0 as usize;
                link(&mut im, a, 1, 25);
                let a = im.blk(25) + 4 * e1 as usize;
                link(&mut im, a, 2, 26);
                put(&mut im, Some(26), e2);
            }
        }
        let fs = ok(finish(im, true).load(), 1);
        let mut f = ok(fs.open("/f"), 7);
        let start = first.saturating_sub(1);
        ok(f.seek_to(start * bs as u64), 8);
        let mut b = start;
        while b < nb {
            let mut buf = vec![1u8; bs];
            check(ok(f.read_bytes(&mut buf), 9) == bs, 10);
            let i = b.wrapping_sub(first);
            let p = if miss == 9 && i < w as u64 { ptr[i as usize] as u64 } else { 0 };
            check(g64(&buf) == p * bs as u64, 11);
            check(buf[8] == 0 && buf[bs - 1] == 0, 12);
            b += 1;
        }
        let mut buf = [1u8; 4];
        check(ok(f.read_bytes(&mut buf), 13) == 0, 14);
        reach(0);
    }

    const SIZE: usize = 3 * 1024 + 452;
    fn content() -> (Img, Vec<u8>) {
        content_of(0, 0)
    }
    /// Four blocks: data, hole, data, partial data; content is a fixed
    /// pseudo-random sequence. Mapped by: 0 two extents, 1 direct blocks and
    /// an indirect one (the file starts with eleven more holes), 2 extents
    /// with an unwritten one for the hole, 3 extents in two leaf nodes.
    fn content_of(layout: u64, log_bs: u32) -> (Img, Vec<u8>) {
        let bs = 1024usize << log_bs;
        let mut im = with_root(Cfg { log_bs, len: 64 * bs, bpg: 8192 << log_bs, ..Cfg::basic() });
        let first = if layout == 1 { 10 } else { 0 };
        let size = (first + 3) * bs + bs * 452 / 1024;
        let mut c = vec![0u8; size];
        let mut x = 1u32;
        for b in c[first * bs..].iter_mut() {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            *b = (x >> 24) as u8 | 1;
        }
        c[(first + 1) * bs..(first + 2) * bs].fill(0);
        im.file(12, size as u64, &[]);
        let root = im.ioff(12) + 0x28;
        match layout {
            0 => im.extents(12, &[(0, 1, 30), (2, 2, 40)]),
            2 => im.extents(12, &[(0, 1, 30), (1, 32769, 45), (2, 2, 40)]),
            3 => {
                im.ehdr(root, 2, 4, 1);
                im.eidx(root, 0, 0, 50);
                im.eidx(root, 1, 3, 51);
                let o = im.blk(50);
                im.ehdr(o, 2, 80, 0);
                im.eleaf(o, 0, 0, 1, 30);
                im.eleaf(o, 1, 2, 1, 40);
                let o = im.blk(51);
                im.ehdr(o, 1, 80, 0);
                im.eleaf(o, 0, 3, 1, 41);
            }
            _ => {
                im.inode(12, S_REG | 0o644, size as u64, 0);
                im.d[root..root + 60].fill(0);
                im.p32(root + 4 * 10, 30);
                im.p32(root + 4 * 12, 50);
                let o = im.blk(50);
                im.p32(o, 40);
                im.p32(o + 4, 41);
            }
        }
        for (l, p) in [(0usize, 30u64), (2, 40), (3, 41)] {
            let l = l + first;
            let n = (size - l * bs).min(bs);
            let o = im.blk(p);
            im.d[o..o + n].copy_from_slice(&c[l * bs..l * bs + n]);
            // What follows the end of the file on disk must not be returned.
            im.d[o + n..o + bs].fill(0xee);
        }
        let o = im.blk(45);
        im.d[o..o + bs].fill(0xdd);
        (im, c)
    }

    /// Around the 2^32nd byte of a file. params: [bytes to read]
    pub fn h_seek_far() {
        let bs = 65536u64;
        let mut im = with_root(Cfg { log_bs: 6, len: 40 << 16, bpg: 32768, ..Cfg::basic() });
        let size = (1u64 << 32) + 2 * bs + 100;
        im.file(12, size, &[(3, 1, 30), (65535, 2, 31), (65538, 1, 34)]);
        let at = |pos: u64| -> u8 {
            match pos / bs {
                3 => 1 + (pos % 251) as u8,
                65535 | 65536 => 2 + (pos % 241) as u8,
                65538 => 3 + (pos % 239) as u8,
                _ => 0,
            }
        };
        for (l, p) in [(3u64, 30u64), (65535, 31), (65536, 32), (65538, 34)] {
            let o = im.blk(p);
            for i in 0..65536 {
                im.d[o + i] = at(l * bs + i as u64);
            }
        }
        let fs = ok(finish(im, false).load(), 1);
        let mut f = ok(fs.open("/f"), 2);
        check(f.metadata().len() == size, 3);
        let bases = [1u64 << 32, (1 << 32) + bs, (1 << 32) - bs, (1 << 32) + 2 * bs, size, 4 * bs];
        let base = bases[choose(6) as usize];
        let pos = base - 6 + choose(8);
        ok(f.seek_to(pos), 4);
        check(f.position() == pos, 5);
        let n = param(0) as usize;
        let mut buf = vec![0xa5u8; n];
        let mut got = 0;
        loop {
            let g = ok(f.read_bytes(&mut buf[got..]), 6);
            if g == 0 {
                break;
            }
            got += g;
        }
        check(got as u64 == (n as u64).min(size.saturating_sub(pos)), 7);
        for i in 0..got {
            check(buf[i] == at(pos + i as u64), 8);
        }
        check(f.position() == pos + got as u64, 9);
        reach(0);
    }

    /// A node filled with entries, each read back. params: [0 extents in a
    /// leaf, 1 leaves below an index node, csum, log_bs]
    pub fn h_ext_many() {
        let csum = param(1) == 1;
        let mut im = with_root(Cfg { len: 600 * (1024 << param(2)), ..big(param(2) as u32, csum) });
        let bs = im.bs;
        let per = (bs - 12 - if csum { 4 } else { 0 }) / 12;
        let root = im.ioff(12) + 0x28;
        let n = per as u32;
        im.inode(12, S_REG | 0o644, 2 * n as u64 * bs as u64, FL_EXT);
        let off = u32s() as u64;
        assume(off < 0x1000_0000);
        // Every other block of the file is mapped; one entry leads anywhere.
        let k = [0, n / 2, 63, n - 1][choose(4) as usize];
        let phys = |i: u32| if i == k { PBASE[1] + off } else { PBASE[2 * (i as usize % 2)] + 0x1234 + 3 * i as u64 };
        if param(0) == 0 {
            im.ehdr(root, 1, 4, 1);
            im.eidx(root, 0, 0, 24);
            let o = im.blk(24);
            im.ehdr(o, n as u16, per as u16, 0);
            for i in 0..n {
                im.eleaf(o, i as usize, 2 * i, 1, phys(i));
            }
            if csum {
                im.fix_enode(12, 24);
            }
        } else {
            im.ehdr(root, 1, 4, 2);
            im.eidx(root, 0, 0, 24);
            let o = im.blk(24);
            im.ehdr(o, n as u16, per as u16, 1);
            for i in 0..n {
                im.eidx(o, i as usize, 2 * i, 100 + i as u64);
                let l = im.blk(100 + i as u64);
                im.ehdr(l, 1, per as u16, 0);
                im.eleaf(l, 0, 2 * i, 1, phys(i));
                if csum {
                    im.fix_enode(12, 100 + i as u64);
                }
            }
            if csum {
                im.fix_enode(12, 24);
            }
        }
        let fs = ok(finish(im, true).load(), 1);
        let mut f = ok(fs.open("/f"), 2);
        let want = |b: u32| if b % 2 == 0 { phys(b / 2) * bs as u64 } else { 0 };
        let mut buf = vec![0u8; bs];
        // In order, then anywhere.
        for b in 0..2 * n {
            check(ok(f.read_bytes(&mut buf), 3) == bs, 4);
            check(g64(&buf) == want(b), 5);
        }
        check(ok(f.read_bytes(&mut buf), 6) == 0, 7);
        let b = (2 * n - 1) * choose(8) as u32 / 7;
        ok(f.seek_to(b as u64 * bs as u64), 8);
        check(ok(f.read_bytes(&mut buf), 9) == bs, 10);
        check(g64(&buf) == want(b), 11);
        reach(0);
    }

    /// Seek to any u64 and read `param(0)` bytes. With param(1) != 0 the
    /// position is param(1) plus a symbolic byte below param(2).
    pub fn h_seek1() {
        let (im, c) = content();
        let fs = ok(finish(im, false).load(), 1);
        let mut f = ok(fs.open("/f"), 2);
        let n = param(0) as usize;
        let pos = if param(2) == 0 {
            u64s()
        } else {
            let k = u8s() as u64;
            assume(k < param(2));
            param(1) + k
        };
        ok(f.seek_to(pos), 3);
        check(f.position() == pos, 4);
        let mut buf = vec![0xa5u8; n];
        let got = ok(f.read_bytes(&mut buf), 5);
        check(got <= n, 6);
        check((got > 0) == ((n > 0) & (pos < SIZE as u64)), 7);
        check(f.position() == pos.wrapping_add(got as u64), 8);
        check((got == 0) | (pos.wrapping_add(got as u64) <= SIZE as u64), 15);
        let got = concretize(got as u64) as usize;
        if got > 0 {
            reach(1);
            for i in 0..got {
                check(buf[i] == c[(pos as usize) + i], 9);
            }
        }
        check(buf[got..].iter().all(|x| *x == 0xa5), 10);
        reach(0);
    }

    /// A history of `param(0)` operations, each a read of a chosen length or
    /// a seek to a chosen position; all observations against the content.
    /// params: [operations, layout, log_bs, 1 through the std traits]
    pub fn h_chunks() {
        let (im, c) = content_of(param(1), param(2) as u32);
        let (bs, size) = (im.bs, c.len());
        let io = param(3) == 1;
        let fs = ok(finish(im, false).load(), 1);
        let mut f = ok(fs.open("/f"), 2);
        let lens = [0, 1, bs - 24, bs, 2 * size];
        let first = size as u64 / bs as u64 - 3;
        let bb = bs as u64;
        let poss = [0, (first + 1) * bb + 1, (first + 1) * bb - 1, (first + 1) * bb, (first + 2) * bb - 1, (first + 2) * bb, size as u64 - 1, size as u64, 10 * size as u64];
        let mut pos = 0u64;
        for _ in 0..param(0) {
            let op = choose(14) as usize;
            if op < 5 {
                let n = lens[op];
                let mut buf = vec![0xa5u8; n];
                let got = if io { f.read(&mut buf).unwrap_or_else(|_| { check(false, 5); kill() }) } else { ok(f.read_bytes(&mut buf), 5) };
                check(got <= n, 6);
                check((got > 0) == ((n > 0) & (pos < size as u64)), 7);
                if got > 0 {
                    let p = pos as usize;
                    check(p + got <= size && buf[..got] == c[p..p + got], 9);
                }
                check(buf[got..].iter().all(|x| *x == 0xa5), 10);
                pos += got as u64;
            } else {
                pos = poss[op - 5];
                if io {
                    let d = SeekFrom::Current(pos as i64 - f.position() as i64);
                    let r = if flag() { f.seek(d) } else { f.seek(SeekFrom::Start(pos)) };
                    check(matches!(r, Ok(x) if x == pos), 3);
                } else {
                    ok(f.seek_to(pos), 3);
                }
            }
            check(f.position() == pos, 8);
        }
        // Whatever happened before, the rest reads completely.
        let mut all = Vec::new();
        let mut buf = vec![0u8; 700 * bs / 1024];
        loop {
            let g = ok(f.read_bytes(&mut buf), 11);
            if g == 0 {
                break;
            }
            all.extend_from_slice(&buf[..g]);
            if all.len() > size {
                break;
            }
        }
        check(all == c[(pos as usize).min(size)..], 12);
        reach(0);
    }

    /// std::io::{Read, Seek}: arbitrary offsets, three anchors, after an
    /// arbitrary first seek.
    pub fn h_seek_io() {
        let (im, c) = content();
        let fs = ok(finish(im, false).load(), 1);
        let mut f = ok(fs.open("/f"), 2);
        let p0 = u64s();
        let r = f.seek(SeekFrom::Start(p0));
        check(matches!(r, Ok(p) if p == p0), 3);
        let off = u64s() as i64;
        let (r, want) = match param(0) {
            0 => (f.seek(SeekFrom::Current(off)), p0 as i128 + off as i128),
            _ => (f.seek(SeekFrom::End(off)), SIZE as i128 + off as i128),
        };
        match r {
            Ok(p) => {
                reach(0);
                check(p as i128 == want, 4);
                check(f.position() == p, 5);
                let mut b = [0xa5u8; 1];
                match f.read(&mut b) {
                    Ok(n) => {
                        check((n == 1) == (p < SIZE as u64), 6);
                        if n == 1 {
                            reach(2);
                            check(b[0] == c[p as usize], 7);
                        }
                    }
                    Err(_) => check(false, 8),
                }
            }
            Err(e) => {
                reach(1);
                // Fails exactly when the target is not a valid position;
                // positions over i64::MAX cannot be computed with.
                check((want < 0) | (want > i64::MAX as i128) | (p0 > i64::MAX as u64), 9);
                check(e.kind() == std::io::ErrorKind::InvalidInput, 10);
                check(f.position() == p0, 11);
            }
        }
    }

    /// The 60 bytes of the root extent node are arbitrary; every block they
    /// can lead to is an arbitrary (but the same) block. params: [log_bs,
    /// size in blocks, symbolic bytes of the child block, csum]
    pub fn h_ext_bad() {
        let lb = param(0) as u32;
        let c = Cfg { itable: 2, len: (4usize) << (10 + lb), ..big(lb, false) };
        let mut im = Img::new(c);
        im.dir(2, &[3]);
        im.dirblock(3, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"f")]);
        let nb = param(1);
        let bs = im.bs;
        let size = nb * bs as u64;
        im.inode(12, S_REG | 0o644, size, FL_EXT);
        let root = im.ioff(12) + 0x28;
        let mut r = [0u8; 60];
        fill(&mut r);
        im.d[root..root + 60].copy_from_slice(&r);
        let mut u = vec![0u8; bs];
        fill(&mut u[..param(2) as usize]);
        // Pointers to the few stored blocks are not considered, neither as
        // leaf nor as index entries.
        for (b, n) in [(&r[..], 4usize), (&u[..], (param(2) as usize).saturating_sub(12) / 12)] {
            for i in 0..n {
                let o = 12 + 12 * i;
                let w = |k: usize| u32::from_le_bytes([b[o + k], b[o + k + 1], b[o + k + 2], b[o + k + 3]]);
                assume((w(4) >= 4) & (w(8) >= 4));
            }
        }
        let u0 = u[..16].to_vec();
        // Bounds the number of node sizes to look at: few entries, exactly
        // one block, or anything larger.
        let per = (bs / 12 - 1) as u16;
        let max = u16::from_le_bytes([u[4], u[5]]);
        assume((max <= 4) | (max >= per));
        im.fix(&[2, 12]);
        let n = im.c.blocks * bs as u64;
        let d = Dev::new(im.d);
        d.0.len.set(n);
        *d.0.uniform.borrow_mut() = u;
        d.0.beyond.set(true);
        let fs = ok(d.load(), 1);
        let r = fs.read("/f");
        match &r {
            Ok(v) => {
                reach(0);
                check(v.len() as u64 == size, 2);
                for b in 0..nb as usize {
                    // Every block is a hole or the one block there is.
                    let o = b * bs;
                    let same = eq_bytes(&v[o..o + 16], &u0);
                    check(same | (v[o..o + 16].iter().fold(0, |a, x| a | *x) == 0), 3);
                }
            }
            Err(e) => {
                reach(1);
                check(kind(e) == K::Corrupt, 4);
            }
        }
    }

    /// A tree of the maximum depth in which all entries of a node lead to
    /// the same node, so that a full walk would take 4 * 340^4 visits. Reading
    /// must end (normally or in an error) without it. params: [0: an
    /// index node (at any level) without entries, 1: a leaf without entries,
    /// 2: a leaf with one extent, 3: a leaf with one unwritten extent]
    pub fn h_ext_shared() {
        let mode = param(0);
        let mut im = with_root(big(2, false));
        im.inode(12, S_REG | 0o644, 4096 * 1024, FL_EXT);
        let root = im.ioff(12) + 0x28;
        let key = u32s();
        assume(key < 8);
        let step = choose(2) as u32;
        let empty = if mode == 0 { 1 + choose(4) as u16 } else { 0 };
        for depth in (0..=5u16).rev() {
            let (o, max) = if depth == 5 { (root, 4) } else { (im.blk(24 + depth as u64), 340u16) };
            let n = match (depth, mode) {
                (0, 1) => 0,
                (0, _) => 1,
                _ if depth == empty => 0,
                _ => max,
            };
            im.ehdr(o, n, max, depth);
            for i in 0..n as usize {
                if depth == 0 {
                    im.eleaf(o, 0, key, if mode == 3 { 32769 } else { 1 }, PBASE[0]);
                } else {
                    im.eidx(o, i, key + i as u32 * step, 24 + depth as u64 - 1);
                }
            }
        }
        let fs = ok(finish(im, true).load(), 1);
        let mut f = ok(fs.open("/f"), 2);
        let mut buf = [0u8; 4096];
        let mut n = 0;
        loop {
            match f.read_bytes(&mut buf) {
                Ok(k) => {
                    check(k > 0, 3);
                    n += k;
                    check(n <= 4096 * 1024, 4);
                    if n == 4096 * 1024 {
                        break;
                    }
                }
                Err(e) => {
                    check(kind(&e) == K::Corrupt, 5);
                    break;
                }
            }
        }
        reach(0);
    }

    /// An index root leading to a child node with an arbitrary header and
    /// arbitrary first entries. Extents out of order, empty, overlapping or
    /// at the wrong depth must be rejected: on success the content is the one
    /// of a valid tree. params: [entries in the child, depth of the root]
    pub fn h_ext_child() {
        let n = param(0) as usize;
        let mut im = with_root(big(0, false));
        let nb = 4usize;
        im.inode(12, S_REG | 0o644, nb as u64 * 1024, FL_EXT);
        let root = im.ioff(12) + 0x28;
        im.ehdr(root, 1, 4, param(1) as u16);
        im.eidx(root, 0, 0, 24);
        let l = im.blk(24);
        let mut hdr = [0u8; 8];
        fill(&mut hdr);
        im.d[l..l + 8].copy_from_slice(&hdr);
        let magic = u16::from_le_bytes([hdr[0], hdr[1]]);
        let entries = u16::from_le_bytes([hdr[2], hdr[3]]);
        let max = u16::from_le_bytes([hdr[4], hdr[5]]);
        let depth = u16::from_le_bytes([hdr[6], hdr[7]]);
        assume((entries as usize <= n) | (entries > 100));
        // Deeper levels are the subject of h_ext_bad.
        assume((depth == 0) | (depth >= param(1) as u16));
        let mut v = Vec::new();
        let mut min = 0u64;
        let mut good = true;
        for i in 0..n {
            let log = u32s();
            let raw = u16s();
            let off = u32s();
            assume(off < 0x1000_0000);
            let init = raw <= 32768;
            let len = select(init, raw as u64, raw.wrapping_sub(32768) as u64) as u32;
            let phys = PBASE[i] + off as u64;
            im.eleaf(l, i, log, raw, phys);
            let used = i < entries as usize;
            // Entries beyond the end of the file need not be looked at.
            let seen = used & (min < nb as u64);
            good &= !seen | ((len > 0) & (log as u64 >= min));
            v.push(Ex { log, len: select(used, len as u64, 0) as u32, init, phys });
            min = log as u64 + len as u64;
        }
        let fs = ok(finish(im, true).load(), 1);
        match fs.read("/f") {
            Ok(c) => {
                reach(0);
                check(magic == 0xf30a, 2);
                check(depth.wrapping_add(1) == param(1) as u16, 3);
                check((entries <= max) & (max <= 84), 4);
                check(good, 5);
                check(c.len() == nb * 1024, 6);
                for b in 0..nb {
                    let mut x = 0;
                    for e in &v {
                        let bb = b as u64;
                        let c = (bb >= e.log as u64) & (bb < e.log as u64 + e.len as u64) & e.init;
                        x = select(c, e.phys.wrapping_add(bb).wrapping_sub(e.log as u64).wrapping_mul(1024), x);
                    }
                    check(g64(&c[b * 1024..]) == x, 7);
                }
            }
            Err(e) => {
                reach(1);
                check(kind(&e) == K::Corrupt, 8);
                // Valid trees are accepted.
                let valid = (magic == 0xf30a) & (depth == 0) & (param(1) == 1) & (entries <= max) & (max <= 84);
                let mut ok = valid & (entries as usize <= n);
                let mut min = 0u64;
                for (i, e) in v.iter().enumerate() {
                    let used = i < entries as usize;
                    ok &= !used | ((e.len > 0) & (e.log as u64 >= min));
                    min = e.log as u64 + e.len as u64;
                }
                check(!ok, 9);
            }
        }
    }

    /// Any 64-bit file size. Opening and reading the start work or fail with
    /// an error; nothing aborts. params: [extents 0/1, operation]
    pub fn h_huge() {
        let mut im = with_root(big(0, false));
        let far_seek = param(1) == 3;
        let size = if far_seek { [0, 1500, 4096][choose(3) as usize] } else { u64s() };
        assume(far_seek || size > 8192);
        im.inode(12, S_REG | 0o644, 0, if param(0) == 1 { FL_EXT } else { 0 });
        im.set_size(12, size);
        let root = im.ioff(12) + 0x28;
        if param(0) == 1 {
            im.ehdr(root, 1, 4, 0);
            im.eleaf(root, 0, 0, 1, 30);
        } else {
            im.p32(root, 30);
        }
        let o = im.blk(30);
        im.d[o] = 0x77;
        let too_big = size.wrapping_add(1023) / 1024 > 0xffff_ffff || size > u64::MAX - 1023;
        let d = finish(im, false);
        let fs = ok(d.load(), 1);
        match param(1) {
            0 => {
                let m = fs.metadata("/f");
                match &m {
                    Ok(m) => {
                        reach(0);
                        check(m.len() == size, 2);
                    }
                    Err(e) => {
                        reach(1);
                        check((kind(e) == K::Corrupt) & too_big, 3);
                    }
                }
            }
            1 => match fs.open("/f") {
                Ok(mut f) => {
                    reach(0);
                    let mut b = [0u8; 2];
                    check(ok(f.read_bytes(&mut b), 4) == 2, 5);
                    check(b[0] == 0x77 && b[1] == 0, 6);
                }
                Err(e) => {
                    reach(1);
                    check((kind(&e) == K::Corrupt) & too_big, 7);
                }
            },
            3 => {
                // Any position, in a file of moderate size.
                let mut f = ok(fs.open("/f"), 9);
                let pos = (u64s() & !1023) + [0, 1, 1023][choose(3) as usize];
                ok(f.seek_to(pos), 10);
                check(f.position() == pos, 11);
                let mut b = [0xa5u8; 2];
                let n = ok(f.read_bytes(&mut b), 12) as u64;
                check(n <= 2, 13);
                if pos >= size {
                    reach(1);
                    check(n == 0 && f.position() == pos, 14);
                } else {
                    reach(0);
                    check(n >= 1 && n <= size - pos && f.position() == pos + n, 15);
                    check(b[0] == if pos == 0 { 0x77 } else { 0 }, 16);
                }
            }
            _ => {
                // Whole-file read of something that cannot be allocated.
                assume(size > 1 << 32);
                match fs.read("/f") {
                    Ok(_) => {}
                    Err(e) => {
                        reach(0);
                        let k = kind(&e);
                        check((k == K::Corrupt) | (k == K::FileTooLarge), 8);
                    }
                }
            }
        }
    }

    /// The final hole of a file whose last extent ends early, and sizes which
    /// are no multiple of the block size. params: [log_bs]
    pub fn h_hole_read() {
        let mut im = with_root(big(param(0) as u32, false));
        let bs = im.bs as u64;
        let size = u16s() as u64;
        assume((size >= 1) & (size <= 2 * bs + 2));
        let want = size;
        im.inode(12, S_REG | 0o644, 0, FL_EXT);
        im.set_size(12, size);
        let root = im.ioff(12) + 0x28;
        im.ehdr(root, 1, 4, 0);
        im.eleaf(root, 0, 0, 1, 30);
        let o = im.blk(30);
        let n = im.bs;
        im.d[o..o + n].fill(0x77);
        let fs = ok(finish(im, false).load(), 1);
        let mut f = ok(fs.open("/f"), 2);
        let at = choose(4) as u64;
        let pos = [0, bs - 1, bs, 2 * bs][at as usize];
        ok(f.seek_to(pos), 3);
        let mut b = [9u8; 2];
        let got = ok(f.read_bytes(&mut b), 4);
        check((got == 0) == (pos >= want), 5);
        if got >= 1 {
            reach(0);
            check(b[0] == if pos < bs { 0x77 } else { 0 }, 6);
        }
        if got == 2 {
            check(pos + 2 <= want, 7);
            check(b[1] == if pos + 1 < bs { 0x77 } else { 0 }, 8);
        } else {
            check(b[1] == 9, 9);
        }
    }
}
