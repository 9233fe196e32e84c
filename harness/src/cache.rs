//! Where the device is read, and that caching never changes a result.
super::entries! { h_refs h_ref_bad h_end h_mix h_block0 }

mod imp {
    use super::super::dev::*;
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;
    use ext4_view::Ext4;

    /// Root directory at block 4, inode table at 2, the rest from 5 on; the
    /// device beyond the stored `stored` blocks shows its own positions.
    fn image(lb: u32, blocks: u64, stored: u64) -> Img {
        let bs = 1024usize << lb;
        let mut im = Img::new(Cfg {
            log_bs: lb,
            blocks,
            bpg: u32::MAX,
            incompat: INC_FILETYPE | INC_EXTENTS | if blocks >> 32 != 0 { INC_64BIT } else { 0 },
            desc_size: if blocks >> 32 != 0 { 64 } else { 32 },
            ipg: 16,
            inode_size: 128,
            itable: if lb == 0 { 3 } else { 2 },
            len: stored as usize * bs,
            ..Cfg::basic()
        });
        im.dir(2, &[root(lb)]);
        im.dirblock(root(lb), &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"f"), (13, 1, b"g"), (14, 2, b"d"), (15, 7, b"l")]);
        im
    }
    fn root(lb: u32) -> u64 {
        if lb == 0 { 6 } else { 4 }
    }
    /// Loads over a device longer than the filesystem, then requires every
    /// read to stay inside the filesystem.
    fn load(im: Img, blocks: u64) -> (Dev, Ext4) {
        let bs = im.bs as u64;
        let d = Dev::new(im.d);
        d.0.pattern.set(true);
        d.0.len.set(1 << 62);
        let fs = ok(d.load(), 20);
        d.0.limit.set(blocks * bs);
        (d, fs)
    }
    fn g64(b: &[u8]) -> u64 {
        u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
    }

    /// A file of several one-block extents: the first ones at fixed places
    /// that fill the cache, the next ones anywhere in a window, then all of
    /// them once more in reverse and in order. Every block read shows the
    /// block that was asked for.
    /// params: [log_bs, fixed blocks, distance between them, symbolic blocks,
    /// window, blocks in the filesystem]
    pub fn h_refs() {
        let lb = param(0) as u32;
        let bs = 1024u64 << lb;
        let (w, step, k, win) = (param(1) as usize, param(2), param(3) as usize, param(4));
        let blocks = param(5);
        let first = 12;
        let mut im = image(lb, blocks, first);
        let o = im.inode(12, S_REG | 0o644, (w + k) as u64 * bs, FL_EXT);
        let leaf = root(lb) + 1;
        im.ehdr(o + 0x28, 1, 4, 1);
        im.eidx(o + 0x28, 0, 0, leaf);
        let o = im.blk(leaf);
        im.ehdr(o, (w + k) as u16, (w + k) as u16, 0);
        let mut at = Vec::new();
        for i in 0..w {
            at.push(first + i as u64 * step);
        }
        for _ in 0..k {
            let x = below(win);
            at.push(first + x);
        }
        for (i, p) in at.iter().enumerate() {
            im.eleaf(o, i, i as u32, 1, *p);
        }
        let (_d, fs) = load(im, blocks);
        let mut buf = [0u8; 8];
        let mut f = ok(fs.open("/f"), 1);
        for (i, p) in at.iter().enumerate() {
            ok(f.seek_to(i as u64 * bs), 2);
            check(ok(f.read_bytes(&mut buf), 3) == 8, 4);
            check(g64(&buf) == *p * bs, 5);
        }
        for (i, p) in at.iter().enumerate().rev() {
            ok(f.seek_to((i as u64 + 1) * bs - 1024), 2);
            check(ok(f.read_bytes(&mut buf), 3) == 8, 4);
            check(g64(&buf) == *p * bs + bs - 1024, 6);
        }
        reach(0);
    }

    /// One block reference of any kind, of any value: outside the filesystem
    /// it is an error, inside it leads to that block.
    /// params: [kind, log_bs, blocks in the filesystem]
    pub fn h_ref_bad() {
        let kind = param(0);
        let lb = param(1) as u32;
        let bs = 1024u64 << lb;
        let blocks = param(2);
        let stored = 16;
        let mut im = image(lb, blocks, stored);
        let r48 = (u32s() as u64) | (u16s() as u64) << 32;
        let r32 = u32s() as u64;
        let r = if matches!(kind, 0 | 3 | 4 | 6 | 7) { r48 } else { r32 };
        // Blocks below are the stored image, whose content differs per block.
        assume(r >= stored);
        match kind {
            0 => im.file(12, 8, &[(0, 1, r)]),
            1 | 2 => {
                let o = im.inode(12, S_REG | 0o644, if kind == 1 { 8 } else { 13 * bs }, 0);
                im.p32(o + 0x28 + if kind == 1 { 0 } else { 48 }, r as u32);
            }
            3 => {
                let o = im.inode(12, S_REG | 0o644, 8, FL_EXT);
                im.ehdr(o + 0x28, 1, 4, 1);
                im.eidx(o + 0x28, 0, 0, r);
            }
            4 => im.dir(14, &[r]),
            5 => {
                // The table of group zero: everything is beyond it then.
                let o = im.bgd(0);
                im.p32(o + 8, r as u32);
            }
            6 => {
                im.inode(15, S_LNK | 0o777, 100, FL_EXT);
                im.extents(15, &[(0, 1, r)]);
            }
            _ => {
                // An extent of several blocks that crosses the end.
                im.file(12, 4 * bs, &[(0, 4, r)]);
            }
        }
        let (d, fs) = load(im, blocks);
        d.0.beyond.set(true);
        let inside = r < blocks;
        let mut buf = [0u8; 8];
        let k = match kind {
            0 | 1 => {
                let mut f = ok(fs.open("/f"), 1);
                let x = f.read_bytes(&mut buf);
                if x.is_ok() {
                    check(g64(&buf) == r * bs, 2);
                }
                rk(&x)
            }
            2 => {
                // The pointer block's first entry is the low half of its own
                // position, with the high half next.
                let mut f = ok(fs.open("/f"), 1);
                let s = f.seek_to(12 * bs);
                if s.is_err() {
                    rk(&s)
                } else {
                    let p = r * bs & 0xffff_ffff;
                    let x = f.read_bytes(&mut buf);
                    if x.is_ok() {
                        check((p == 0) | (p < blocks), 3);
                        check(inside, 4);
                        reach(2);
                        kill();
                    }
                    check(!inside | (p >= blocks) | (p < stored), 5);
                    rk(&x)
                }
            }
            3 => {
                let x = fs.read("/f");
                check(x.is_err(), 6);
                rk(&x)
            }
            4 => {
                let mut k = K::Ok;
                for e in ok(fs.read_dir("/d"), 7) {
                    match e {
                        Ok(_) => {}
                        Err(e) => k = super::super::util::kind(&e),
                    }
                }
                k
            }
            5 => {
                let x = fs.metadata("/f");
                check(x.is_err(), 8);
                rk(&x)
            }
            6 => {
                let x = fs.read_link("/l");
                rk(&x)
            }
            _ => {
                let mut f = ok(fs.open("/f"), 1);
                let mut k = K::Ok;
                for i in 0..4 {
                    let x = f.read_bytes(&mut buf);
                    if let Ok(n) = x {
                        check(n == 8, 9);
                        check(r + i < blocks, 10);
                        check(g64(&buf) == (r + i) * bs, 11);
                    } else {
                        check(r + i >= blocks, 12);
                        k = rk(&x);
                        break;
                    }
                    ok(f.seek_to((i + 1) * bs), 13);
                }
                check((k == K::Ok) == (r + 3 < blocks), 14);
                reach(2);
                k
            }
        };
        match kind {
            0 | 1 => check((k == K::Ok) == inside, 15),
            _ => {}
        }
        check(k == K::Ok || k == K::Corrupt, 16);
        if k == K::Ok {
            reach(0);
        } else {
            reach(1);
        }
    }

    /// The last block of the filesystem is readable, the one after is not,
    /// for every size of the filesystem in the window.
    /// params: [log_bs, smallest size, sizes]
    pub fn h_end() {
        let lb = param(0) as u32;
        let bs = 1024u64 << lb;
        let blocks = param(1) + choose(param(2));
        let mut im = image(lb, blocks, 12);
        im.file(12, 3 * bs, &[(0, 1, blocks - 1), (1, 1, blocks - 2), (2, 1, blocks)]);
        let back = choose(36.min(blocks - 12));
        im.file(13, bs, &[(0, 1, blocks - 1 - back)]);
        let (_d, fs) = load(im, blocks);
        let mut buf = [0u8; 8];
        if flag() {
            let mut g = ok(fs.open("/g"), 1);
            check(ok(g.read_bytes(&mut buf), 2) == 8, 3);
            check(g64(&buf) == (blocks - 1 - back) * bs, 4);
        }
        let mut f = ok(fs.open("/f"), 5);
        for i in 0..2u64 {
            ok(f.seek_to(i * bs), 6);
            check(ok(f.read_bytes(&mut buf), 7) == 8, 8);
            check(g64(&buf) == (blocks - 1 - i) * bs, 9);
        }
        ok(f.seek_to(2 * bs), 10);
        check(rk(&f.read_bytes(&mut buf)) == K::Corrupt, 11);
        reach(0);
    }

    /// Two files whose blocks are read in turns chosen freely: each read
    /// gives that file's block. params: [log_bs, steps, blocks per file]
    pub fn h_mix() {
        let lb = param(0) as u32;
        let bs = 1024u64 << lb;
        let n = param(2);
        let blocks = 400;
        let mut im = image(lb, blocks, 12);
        let a = 12 + below(16);
        let b = 12 + below(16);
        im.file(12, n * bs, &[(0, n as u16, a)]);
        im.file(13, n * bs, &[(0, n as u16, b)]);
        let (_d, fs) = load(im, blocks);
        let mut f = ok(fs.open("/f"), 1);
        let mut g = ok(fs.open("/g"), 2);
        let mut i = 0;
        let mut j = 0;
        let mut buf = vec![0u8; bs as usize];
        for _ in 0..param(1) {
            if flag() {
                if i < n {
                    check(ok(f.read_bytes(&mut buf), 3) == buf.len(), 4);
                    check(g64(&buf) == (a + i) * bs, 5);
                    i += 1;
                } else {
                    check(ok(f.read_bytes(&mut buf), 6) == 0, 7);
                }
            } else if j < n {
                check(ok(g.read_bytes(&mut buf), 8) == buf.len(), 9);
                check(g64(&buf) == (b + j) * bs, 10);
                j += 1;
            } else {
                check(ok(g.read_bytes(&mut buf), 11) == 0, 12);
            }
        }
        reach(0);
    }

    /// References to block 0: the bytes before the superblock are never
    /// used. params: [kind, log_bs]
    pub fn h_block0() {
        let lb = param(1) as u32;
        let bs = 1024u64 << lb;
        let mut im = image(lb, 60, 16);
        fill(&mut im.d[..8]);
        for b in &mut im.d[8..1024] {
            *b = 0xee;
        }
        match param(0) {
            0 => {
                im.inode(12, S_REG | 0o644, 8, FL_EXT);
                im.ehdr(im.ioff(12) + 0x28, 1, 4, 1);
                im.eidx(im.ioff(12) + 0x28, 0, 0, 0);
            }
            1 => im.dir(14, &[0]),
            2 => {
                let o = im.bgd(0);
                im.p32(o + 8, 0);
            }
            3 => {
                im.inode(12, S_REG | 0o644, 8, 0);
            }
            4 => im.file(12, bs, &[(0, 1, 0)]),
            _ => {
                im.inode(14, S_DIR | 0o755, bs, 0);
            }
        }
        let (d, fs) = load(im, 60);
        d.0.limit.set(0);
        match param(0) {
            0 => check(rk(&fs.read("/f")) == K::Corrupt, 1),
            2 => check(rk(&fs.metadata("/f")) == K::Corrupt, 2),
            3 | 4 => {
                let c = ok(fs.read("/f"), 3);
                check(c.iter().all(|b| *b == 0), 4);
            }
            _ => {
                for e in ok(fs.read_dir("/d"), 5) {
                    check(rk(&e) == K::Corrupt, 6);
                }
            }
        }
        reach(0);
    }
}
