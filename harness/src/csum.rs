//! Metadata checksums: a structure is used exactly when its stored checksum
//! is that of its content. Content windows and the stored value are symbolic.
super::entries! { h_csum_sb h_csum_bgd h_csum_inode h_csum_dir h_csum_dx h_csum_ext h_csum_seed h_csum_off }

mod imp {
    use super::super::dev::*;
    use super::super::dir::imp::{D, DB, SEED, base, dx_dir, dx_node, dx_root, name_hash};
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;

    /// metadata_csum, with the seed taken from the superblock or the uuid.
    fn cfg(lb: u32, seedf: bool) -> Cfg {
        let bs = 1024usize << lb;
        Cfg {
            log_bs: lb,
            len: 40 * bs,
            blocks: 40,
            bpg: 8 * bs as u32,
            incompat: INC_FILETYPE | INC_EXTENTS | if seedf { INC_CSUM_SEED } else { 0 },
            ..Cfg::csum()
        }
    }
    fn seed(im: &mut Img) {
        im.p32(SB + 0x270, 0x5eed_1234);
    }
    fn fill_at(im: &mut Img, o: usize, n: usize) {
        fill(&mut im.d[o..o + n]);
    }
    /// Requires: success exactly if the stored checksum matches, else Corrupt.
    fn verdict(k: K, good: bool) {
        match k {
            K::Ok => {
                reach(0);
                check(good, 10);
            }
            K::Corrupt => {
                reach(1);
                check(!good, 11);
            }
            _ => check(false, 12),
        }
    }

    /// params: [log_bs, seed feature, first arbitrary byte, how many]
    pub fn h_csum_sb() {
        let mut im = base(cfg(param(0) as u32, param(1) == 1));
        seed(&mut im);
        fill_at(&mut im, SB + param(2) as usize, param(3) as usize);
        im.fix_dirblock(2, 20);
        im.fix(&[2, D, 12, 13, 14, 15]);
        let want = im.g32(SB + 0x3fc);
        let got = u32s();
        im.p32(SB + 0x3fc, got);
        let r = Dev::new(im.d).load();
        verdict(rk(&r), want == got);
        if let Ok(fs) = r {
            check(rk(&fs.read_dir("/")) == K::Ok, 1);
        }
    }

    /// params: [descriptor size (0: 32-bit), groups, group, log_bs, seed
    /// feature, arbitrary bytes on both sides of the checksum]
    pub fn h_csum_bgd() {
        let dsz = param(0) as usize;
        let ng = param(1) as u32;
        let g = param(2) as u32;
        let lb = param(3) as u32;
        let w = param(5) as usize;
        let mut c = cfg(lb, param(4) == 1);
        if dsz != 0 {
            c.incompat |= INC_64BIT;
            c.desc_size = dsz;
        }
        c.bpg = 40;
        c.blocks = 40 * ng as u64 + 1;
        if lb != 0 {
            c.blocks -= 1;
        }
        let mut im = base(c);
        check(im.groups() == ng, 1);
        seed(&mut im);
        let o = im.bgd(g);
        fill_at(&mut im, o + 0x1e - w, w);
        if dsz != 0 {
            // After the checksum and at the very end of the descriptor.
            fill_at(&mut im, o + 0x20, w.min(8));
            fill_at(&mut im, o + dsz - w, w);
        }
        im.fix_dirblock(2, 20);
        im.fix(&[2]);
        let want = im.g16(o + 0x1e);
        let got = u16s();
        im.p16(o + 0x1e, got);
        let r = Dev::new(im.d).load();
        verdict(rk(&r), want == got);
    }

    /// params: [inode size, inode number 12..15, log_bs, seed feature, first
    /// arbitrary byte, how many]
    pub fn h_csum_inode() {
        let mut c = cfg(param(2) as u32, param(3) == 1);
        c.inode_size = param(0) as usize;
        let ino = param(1) as u32;
        let mut im = base(c);
        seed(&mut im);
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (D, 2, b"d"), (ino, 1, b"f"), (15, 1, b"last")]);
        im.dir(D, &[DB]);
        let o = im.ioff(ino);
        fill_at(&mut im, o + param(4) as usize, param(5) as usize);
        // Type and flags stay those of a regular file.
        im.p16(o, S_REG | 0o644);
        im.p32(o + 0x20, FL_EXT);
        im.p32(o + 0x6c, 0);
        im.fix_dirblock(2, 20);
        im.fix(&[2, D, 12, 13, 14, 15]);
        let want = im.inode_csum(ino);
        let (lo, hi) = (u16s(), u16s());
        im.p16(o + 0x7c, lo);
        let good = if im.inode_hi(ino) {
            im.p16(o + 0x82, hi);
            (want as u16 == lo) & ((want >> 16) as u16 == hi)
        } else {
            reach(2);
            want as u16 == lo
        };
        let fs = ok(Dev::new(im.d).load(), 1);
        let r = fs.metadata("/f");
        verdict(rk(&r), good);
        // A damaged inode does not spread to its neighbours.
        let other = if ino == 12 { "/last" } else { "/d" };
        check(rk(&fs.metadata(other)) == K::Ok, 2);
    }

    /// A directory of three blocks, one of which has arbitrary bytes and an
    /// arbitrary checksum; generation of the directory arbitrary too.
    /// params: [damaged block 0..3, log_bs, arbitrary bytes at the start of
    /// its first name, op: 0 list, 1 look up what is there, 2 nothing there]
    pub fn h_csum_dir() {
        let bad = param(0) as usize;
        let lb = param(1) as u32;
        let n = param(2) as usize;
        let mut im = base(cfg(lb, false));
        im.dir(D, &[DB, DB + 1, DB + 2]);
        let o = im.ioff(D);
        fill_at(&mut im, o + 0x64, 4);
        im.dirblock(DB, &[(D, 2, b"."), (2, 2, b".."), (12, 1, b"onename")]);
        im.dirblock(DB + 1, &[(13, 1, b"twoname")]);
        im.dirblock(DB + 2, &[(0, 0, b"gone"), (14, 1, b"thrname")]);
        let o = im.blk(DB + bad as u64);
        let at = o + im.bs - 12 - n;
        fill_at(&mut im, at, n);
        for i in 0..3 {
            im.fix_dirblock(D, DB + i);
        }
        im.fix_dirblock(2, 20);
        im.fix(&[2, D, 12, 13, 14, 15]);
        let c = o + im.bs - 4;
        let want = im.g32(c);
        let got = u32s();
        im.p32(c, got);
        let good = want == got;
        let fs = ok(Dev::new(im.d).load(), 1);
        match param(3) {
            0 => {
                let mut k = K::Ok;
                let mut seen = 0;
                for e in ok(fs.read_dir("/d"), 2) {
                    match e {
                        Ok(_) => seen += 1,
                        Err(e) => {
                            check(k == K::Ok, 3);
                            k = kind(&e);
                        }
                    }
                }
                verdict(k, good);
                check(seen == if good { 5 } else { [0, 3, 4][bad] }, 4);
            }
            1 => {
                for (i, p) in ["/d/onename", "/d/twoname", "/d/thrname"].iter().enumerate() {
                    let k = rk(&fs.metadata(*p));
                    if i < bad {
                        check(k == K::Ok, 5);
                    } else {
                        verdict(k, good);
                    }
                }
            }
            _ => {
                let k = rk(&fs.metadata("/d/none"));
                verdict(if k == K::NotFound { K::Ok } else { k }, good);
                check(k != K::Ok, 6);
            }
        }
    }

    /// An htree with one damaged block: 0 root, 1 internal node,
    /// 2 leaf. params: [level, log_bs, arbitrary bytes beyond the entries in use,
    /// shape: 0 two internal nodes, 1 one, 2 none]
    pub fn h_csum_dx() {
        let lvl = param(0);
        let lb = param(1) as u32;
        let mut im = base(cfg(lb, false));
        dx_dir(&mut im, 5);
        let o = im.ioff(D);
        fill_at(&mut im, o + 0x64, 4);
        let h = name_hash(1, &SEED, b"low", false).min(name_hash(1, &SEED, b"high", false));
        let (lo, hi): (&[u8], &[u8]) = if name_hash(1, &SEED, b"low", false) == h { (b"low", b"high") } else { (b"high", b"low") };
        im.dirblock(DB + 3, &[(12, 1, lo)]);
        im.dirblock(DB + 4, &[(13, 1, hi)]);
        let shape = param(3);
        if shape == 0 {
            dx_node(&mut im, DB + 1, &[(0, 3)]);
            dx_node(&mut im, DB + 2, &[(h + 2, 4)]);
            dx_root(&mut im, DB, 1, 1, &[(0, 1), (h + 2, 2)]);
        } else {
            dx_node(&mut im, DB + 1, &[(0, 3), (h + 2, 4)]);
            dx_node(&mut im, DB + 2, &[(0, 3)]);
            if shape == 1 {
                dx_root(&mut im, DB, 1, 1, &[(0, 1)]);
            } else {
                dx_root(&mut im, DB, 1, 0, &[(0, 3), (h + 2, 4)]);
            }
        }
        let (b, cl) = match lvl {
            0 => (DB, 0x20),
            1 => (DB + if shape == 1 { 1 } else { 2 }, 8),
            _ => (DB + 4, 0),
        };
        let o = im.blk(b);
        // Unused entries are not covered by the checksum, the reserved word
        // of the tail and the header are.
        let n = param(2) as usize;
        if lvl < 2 {
            let count = im.g16(o + cl + 2) as usize;
            fill_at(&mut im, o + cl + 8 * count, n);
            let t = o + im.bs - 8;
            fill_at(&mut im, t, 4);
            if lvl == 0 {
                fill_at(&mut im, o + 0x18, 4);
            } else {
                fill_at(&mut im, o, 4);
                im.p32(o, 0);
            }
        } else {
            let at = o + im.bs - 12 - n;
            fill_at(&mut im, at, n);
        }
        im.fix_dx(D, DB, 0x20);
        im.fix_dx(D, DB + 1, 8);
        im.fix_dx(D, DB + 2, 8);
        im.fix_dirblock(D, DB + 3);
        im.fix_dirblock(D, DB + 4);
        im.fix_dirblock(2, 20);
        im.fix(&[2, D, 12, 13, 14, 15]);
        let c = o + im.bs - 4;
        let want = im.g32(c);
        let got = u32s();
        im.p32(c, got);
        let good = want == got;
        let fs = ok(Dev::new(im.d).load(), 1);
        let p = |n: &[u8]| {
            let mut v = b"/d/".to_vec();
            v.extend_from_slice(n);
            rk(&fs.metadata(ext4_view::Path::try_from(&v[..]).unwrap()))
        };
        verdict(p(hi), good);
        let k = p(lo);
        if lvl == 0 || shape == 1 && lvl == 1 {
            verdict(k, good);
        } else {
            check(k == K::Ok, 2);
        }
        // Iteration reads every block of the directory.
        let mut k = K::Ok;
        for e in ok(fs.read_dir("/d"), 3) {
            if let Err(e) = e {
                k = kind(&e);
            }
        }
        verdict(k, good);
    }

    /// An extent tree below the inode, one node damaged.
    /// params: [depth 1..2, damaged: 0 the node the inode names, 1 the leaf
    /// below it, log_bs, entries the node can hold (0: all that fit)]
    pub fn h_csum_ext() {
        let depth = param(0) as u16;
        let bad = param(1);
        let lb = param(2) as u32;
        let mut im = base(cfg(lb, false));
        let cap = if param(3) == 0 { ((im.bs - 16) / 12) as u16 } else { param(3) as u16 };
        let ino = 12;
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (ino, 1, b"f"), (13, 1, b"g")]);
        let o = im.inode(ino, S_REG | 0o644, 2 * im.bs as u64, FL_EXT);
        fill_at(&mut im, o + 0x64, 4);
        im.ehdr(o + 0x28, 1, 4, depth);
        im.eidx(o + 0x28, 0, 0, DB);
        let mut leaf = DB;
        if depth == 2 {
            let o = im.blk(DB);
            im.ehdr(o, 1, cap, 1);
            im.eidx(o, 0, 0, DB + 1);
            leaf = DB + 1;
        }
        let o = im.blk(leaf);
        im.ehdr(o, 1, cap, 0);
        im.eleaf(o, 0, 0, 2, 30);
        let b = if bad == 0 { DB } else { leaf };
        let o = im.blk(b);
        // Unused entries and the generation are covered too.
        let n = 4;
        fill_at(&mut im, o + 8, 4);
        fill_at(&mut im, o + 12 + 12 * cap as usize - n, n);
        if cap == 1 {
            // That was the used entry's low block number.
            im.p32(o + 20, 30);
        }
        for i in DB..=leaf {
            im.fix_enode(ino, i);
        }
        im.fix_dirblock(2, 20);
        im.fix(&[2, D, ino, 13]);
        let d = im.blk(30);
        let bs = im.bs;
        im.d[d..d + 2 * bs].fill(b'D');
        let c = o + 12 + 12 * cap as usize;
        let want = im.g32(c);
        let got = u32s();
        im.p32(c, got);
        let fs = ok(Dev::new(im.d).load(), 1);
        let mut buf = [0u8; 8];
        let mut f = ok(fs.open("/f"), 2);
        let r = f.read_bytes(&mut buf);
        if let Ok(n) = r {
            check(n == 8 && buf == *b"DDDDDDDD", 3);
        }
        verdict(rk(&r), want == got);
        let r = fs.read("/f");
        if let Ok(v) = &r {
            check(v.len() == 2 * bs && v[2 * bs - 1] == b'D', 4);
        }
        verdict(rk(&r), want == got);
        check(rk(&fs.read("/g")) == K::Ok, 5);
    }

    /// Everything undamaged, for any uuid, any stored seed, any generation
    /// and either place of the seed: nothing is rejected.
    /// params: [seed feature, log_bs, htree]
    pub fn h_csum_seed() {
        let mut im = base(cfg(param(1) as u32, param(0) == 1));
        fill_at(&mut im, SB + 0x68, 16);
        fill_at(&mut im, SB + 0x270, 4);
        let ht = param(2) == 1;
        if ht {
            dx_dir(&mut im, 2);
            dx_root(&mut im, DB, 1, 0, &[(0, 1)]);
        } else {
            im.dir(D, &[DB, DB + 1]);
            im.dirblock(DB, &[(D, 2, b"."), (2, 2, b"..")]);
        }
        im.dirblock(DB + 1, &[(12, 1, b"f")]);
        let o = im.inode(12, S_REG | 0o644, 3, FL_EXT);
        im.ehdr(o + 0x28, 1, 4, 1);
        im.eidx(o + 0x28, 0, 0, 30);
        let e = im.blk(30);
        im.ehdr(e, 1, 84, 0);
        im.eleaf(e, 0, 0, 1, 31);
        let e = im.blk(31);
        im.d[e..e + 3].copy_from_slice(b"abc");
        let o = im.ioff(D);
        fill_at(&mut im, o + 0x64, 4);
        let o = im.ioff(12);
        fill_at(&mut im, o + 0x64, 4);
        if ht {
            im.fix_dx(D, DB, 0x20);
        } else {
            im.fix_dirblock(D, DB);
        }
        im.fix_dirblock(D, DB + 1);
        im.fix_enode(12, 30);
        im.fix_dirblock(2, 20);
        im.fix(&[2, D, 12, 13, 14, 15]);
        let fs = ok(Dev::new(im.d).load(), 1);
        check(ok(fs.read("/d/f"), 2) == b"abc", 3);
        let mut n = 0;
        for e in ok(fs.read_dir("/d"), 4) {
            ok(e, 5);
            n += 1;
        }
        check(n == 3, 6);
        reach(0);
    }

    /// Without metadata checksums no stored checksum matters, whatever the
    /// other feature bits that mention checksums say.
    pub fn h_csum_off() {
        let mut c = cfg(0, param(0) == 1);
        c.ro = u32s() & !RO_CSUM;
        c.compat = u32s() & !COMPAT_JOURNAL;
        let ro = c.ro;
        c.ro = 0;
        let mut im = base(c);
        im.p32(SB + 0x64, ro);
        im.dir(D, &[DB]);
        im.dirblock(DB, &[(D, 2, b"."), (2, 2, b".."), (12, 1, b"f")]);
        let o = im.inode(12, S_REG | 0o644, 3, FL_EXT);
        im.ehdr(o + 0x28, 1, 4, 1);
        im.eidx(o + 0x28, 0, 0, 30);
        let e = im.blk(30);
        im.ehdr(e, 1, 84, 0);
        im.eleaf(e, 0, 0, 1, 31);
        let e = im.blk(31);
        im.d[e..e + 3].copy_from_slice(b"abc");
        fill_at(&mut im, SB + 0x3fc, 4);
        let o = im.bgd(0);
        fill_at(&mut im, o + 0x1e, 2);
        let o = im.ioff(12);
        fill_at(&mut im, o + 0x7c, 2);
        fill_at(&mut im, o + 0x82, 2);
        let o = im.blk(30);
        fill_at(&mut im, o + 12 + 12 * 84, 4);
        let o = im.blk(DB);
        fill_at(&mut im, o + 1020, 4);
        let fs = ok(Dev::new(im.d).load(), 1);
        check(ok(fs.read("/d/f"), 2) == b"abc", 3);
        for e in ok(fs.read_dir("/d"), 4) {
            ok(e, 5);
        }
        reach(0);
    }
}
