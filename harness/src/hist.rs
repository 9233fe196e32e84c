//! Feature words, and histories of operations through several handles.
super::entries! { h_features h_features_bit h_hist h_hist_seek h_hist_drop h_hist_iters }

mod imp {
    use super::super::dev::*;
    use super::super::fault::imp as fault;
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;

    const SUPPORTED: u32 = 0x2 | 0x4 | 0x40 | 0x80 | 0x200 | 0x2000 | 0x1_0000;

    /// All three feature words arbitrary, except for the bits that change the
    /// layout, which are given by the parameters and whose structures are
    /// present and right.
    /// params: [64-bit, stored seed, metadata_csum, journal: 0 none, 1 only
    /// has_journal, 2 only recovery, 3 both, log_bs]
    pub fn h_features() {
        let b64 = param(0) == 1;
        let seedf = param(1) == 1;
        let csum = param(2) == 1;
        let j = param(3);
        let lb = param(4) as u32;
        let bs = 1024usize << lb;
        const FIX_INC: u32 = INC_64BIT | INC_CSUM_SEED | INC_RECOVER;
        let inc = u32s();
        assume(inc & FIX_INC == if b64 { INC_64BIT } else { 0 } | if seedf { INC_CSUM_SEED } else { 0 } | if j >= 2 { INC_RECOVER } else { 0 });
        let compat = u32s();
        assume((compat & COMPAT_JOURNAL != 0) == (j & 1 == 1));
        let ro = u32s();
        assume((ro & RO_CSUM != 0) == csum);
        let mut im = Img::new(Cfg {
            log_bs: lb,
            blocks: 40,
            bpg: 4096,
            ipg: 16,
            inode_size: 256,
            itable: 5,
            len: 40 * bs,
            desc_size: if b64 { 64 } else { 32 },
            incompat: INC_FILETYPE | INC_EXTENTS | if b64 { INC_64BIT } else { 0 } | if seedf { INC_CSUM_SEED } else { 0 },
            ro: if csum { RO_CSUM } else { 0 },
            ..Cfg::basic()
        });
        im.p32(SB + 0x60, inc);
        im.p32(SB + 0x5c, compat);
        im.p32(SB + 0x64, ro);
        im.p32(SB + 0x270, 0x0bad_5eed);
        im.dir(2, &[20]);
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"f")]);
        im.file(12, bs as u64 + 3, &[(0, 1, 22), (1, 1, 23)]);
        let o = im.blk(22);
        im.d[o..o + bs + 3].fill(b'c');
        if j == 3 {
            super::super::journal::imp::small_journal(&mut im, 28, 2, 22, b'J');
        } else if j != 0 {
            // Not to be looked at.
            im.p32(SB + 0xe0, if flag() { 0 } else { 77 });
        }
        if csum {
            im.fix_dirblock(2, 20);
        }
        im.fix(&[2, 8, 12]);
        let good = (inc & !SUPPORTED == 0) & (inc & 2 != 0);
        let r = Dev::new(im.d).load();
        match rk(&r) {
            K::Ok => {
                reach(0);
                check(good, 1);
                let fs = r.unwrap();
                let c = ok(fs.read("/f"), 2);
                check(c.len() == bs + 3, 3);
                check(c[0] == if j == 3 { b'J' } else { b'c' }, 4);
                check(c[bs + 2] == b'c', 5);
                let mut n = 0;
                for e in ok(fs.read_dir("/"), 6) {
                    ok(e, 7);
                    n += 1;
                }
                check(n == 3, 8);
            }
            K::Incompat => {
                reach(1);
                check(!good, 9);
            }
            _ => check(false, 10),
        }
    }

    /// Any superblock with a bad incompatible word is refused as
    /// incompatible, even if nothing else of the device makes sense.
    /// params: [log_bs]
    pub fn h_features_bit() {
        let lb = param(0) as u32;
        let mut im = Img::new(Cfg { log_bs: lb, len: 64 << 10, ..Cfg::basic() });
        let inc = u32s();
        assume((inc & !SUPPORTED != 0) | (inc & 2 == 0));
        im.p32(SB + 0x60, inc);
        fill(&mut im.d[SB + 0x5c..SB + 0x60]);
        let ro = u32s();
        assume(ro & RO_CSUM == 0);
        im.p32(SB + 0x64, ro);
        im.p32(SB + 0xe0, 8);
        let d = Dev::new(im.d);
        let r = d.load();
        check(rk(&r) == K::Incompat, 1);
        reach(0);
    }

    /// Operations, open files and iterators of two clones, in any order.
    /// params: [steps, csum, journal]
    pub fn h_hist() {
        let journal = param(2) == 1;
        let first = if journal { b'P' } else { b'p' };
        let d = Dev::new(fault::image(param(1) == 1, journal).d);
        let fs = ok(d.load(), 20);
        let fs2 = fs.clone();
        let mut f = ok(fs.open("/f"), 21);
        let mut it = ok(fs2.read_dir("/d"), 22);
        let mut names = 0;
        let mut buf = vec![0u8; 2500];
        for _ in 0..param(0) {
            match choose(9) {
                0 => {
                    let p = f.position();
                    let n = ok(f.read_bytes(&mut buf), 1);
                    check(n as u64 == [2500, 4096 - 2500, 5, 0][[0, 2500, 4096, 4101].iter().position(|x| *x == p).unwrap()], 2);
                    if n > 0 {
                        check(buf[0] == if p < 4096 { first } else { b'q' }, 3);
                    }
                }
                1 => match it.next() {
                    Some(e) => {
                        let e = ok(e, 4);
                        let p = e.path();
                        check(names < 4, 5);
                        let n = e.file_name();
                        check(if names < 2 { n == [".", ".."][names] } else { n == "first" || n == "second" }, 6);
                        check(p.as_ref().starts_with(b"/d/"), 7);
                        names += 1;
                    }
                    None => check(names == 4, 8),
                },
                2 => check(fault::run(&fs, 2, first).is_ok_and(|b| b), 9),
                3 => check(fault::run(&fs2, 3, first).is_ok_and(|b| b), 10),
                4 => check(fault::run(&fs2, 8, first).is_ok_and(|b| b), 11),
                5 => check(fault::run(&fs, 10, first).is_ok_and(|b| b), 12),
                6 => check(fault::run(&fs2, 11, first).is_ok_and(|b| b), 13),
                7 => check(rk(&fs.read("/none")) == K::NotFound, 14),
                _ => check(rk(&fs2.open("/d")) == K::IsADirectory, 15),
            }
        }
        reach(0);
    }

    /// Two handles of one file and one of another, seeking to arbitrary
    /// places and reading in turns. params: [script (decimal digits,
    /// each 2 * handle + 0 seek / 1 read), csum]
    pub fn h_hist_seek() {
        let d = Dev::new(fault::image(param(1) == 1, false).d);
        let fs = ok(d.load(), 20);
        let mut h = vec![ok(fs.open("/f"), 1), ok(fs.open("/f"), 2), ok(fs.clone().open("/m"), 3)];
        drop(fs);
        let mut pos = [0u64; 3];
        let mut script = Vec::new();
        let mut s = param(0);
        while s > 0 {
            script.insert(0, s % 10);
            s /= 10;
        }
        for s in script {
            let i = (s / 2) as usize;
            if s % 2 == 0 {
                let p = 4090 + below(14) + if i < 2 { 0 } else { 11 * 4096 };
                ok(h[i].seek_to(p), 4);
                pos[i] = p;
            } else {
                let mut b = [0u8; 3];
                let n = ok(h[i].read_bytes(&mut b), 5);
                let size = if i < 2 { 4101 } else { 1037 * 4096 };
                let p = pos[i];
                check((n == 0) == (p >= size), 6);
                for (k, v) in b[..n].iter().enumerate() {
                    let q = p + k as u64;
                    let want = if i < 2 {
                        select(q < 4096, b'p' as u64, b'q' as u64)
                    } else {
                        select(q / 4096 == 11, b'x' as u64, select(q / 4096 == 12, b'y' as u64, 0))
                    };
                    check(*v as u64 == want, 7);
                }
                pos[i] = p + n as u64;
            }
            check(h[i].position() == pos[i], 8);
        }
        reach(0);
    }

    /// Files, iterators and entries outlive the handle they came from.
    pub fn h_hist_drop() {
        let d = Dev::new(fault::image(true, true).d);
        let fs = ok(d.load(), 1);
        let mut f = ok(fs.open("/f"), 2);
        let it = ok(fs.read_dir("/"), 3);
        let e: Vec<_> = ok(fs.read_dir("/d"), 4).map(|e| ok(e, 5)).collect();
        let c = fs.clone();
        drop(fs);
        let mut b = [0u8; 4];
        check(ok(f.read_bytes(&mut b), 6) == 4 && b == *b"PPPP", 7);
        check(it.map(|e| ok(e, 8)).count() == 6, 9);
        drop(c);
        for x in &e {
            let m = ok(x.metadata(), 10);
            check(m.is_dir() == (x.file_name() == "." || x.file_name() == ".."), 11);
            check(ok(x.file_type(), 12).is_dir() == m.is_dir(), 13);
        }
        check(ok(f.read_bytes(&mut b), 14) == 4 && b == *b"PPPP", 15);
        reach(0);
    }

    /// Two listings advanced in turns give the same entries as one alone.
    /// params: [steps, csum]
    pub fn h_hist_iters() {
        let d = Dev::new(fault::image(param(1) == 1, false).d);
        let fs = ok(d.load(), 1);
        let list = |p: &str| -> Vec<Vec<u8>> { ok(fs.read_dir(p), 2).map(|e| ok(e, 3).path().as_ref().to_vec()).collect() };
        let want = [list("/"), list("/d"), list("/d/../d/.")];
        check(want[0].len() == 6 && want[1].len() == 4 && want[2].len() == 4, 4);
        let d = Dev::new(fault::image(param(1) == 1, false).d);
        let fs = ok(d.load(), 5);
        let mut it = [ok(fs.read_dir("/"), 6), ok(fs.read_dir("/d"), 7), ok(fs.read_dir("/d/../d/."), 8)];
        let mut n = [0usize; 3];
        for _ in 0..param(0) {
            let i = choose(3) as usize;
            match it[i].next() {
                Some(e) => {
                    let p = ok(e, 9).path();
                    check(n[i] < want[i].len(), 10);
                    check(p.as_ref() == &want[i][n[i]][..], 11);
                    n[i] += 1;
                }
                None => check(n[i] == want[i].len(), 12),
            }
        }
        reach(0);
    }
}
