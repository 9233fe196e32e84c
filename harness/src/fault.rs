//! A failing device: every read may be the one that fails.
super::entries! { h_fault h_fault_load h_fault_file h_fault_seek h_fault_seq h_fault_iter }

pub mod imp {
    use super::super::dev::*;
    use super::super::dir::imp::{SEED, name_hash};
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;
    use ext4_view::{Ext4, Ext4Error};

    const D: u32 = 11;
    const N: usize = 4096;

    /// 4 KiB blocks; everything lies in blocks of its own, eight apart, so
    /// that each is a device read of its own.
    pub fn image(csum: bool, journal: bool) -> Img {
        let mut c = Cfg { log_bs: 2, blocks: 232, len: 232 * N, bpg: 32768, ipg: 64, itable: 2, ..Cfg::csum() };
        if !csum {
            c.ro = 0;
        }
        if journal {
            c.compat |= COMPAT_JOURNAL;
            c.incompat |= INC_RECOVER;
        }
        let mut im = Img::new(c);
        // Root: two blocks.
        im.dir(2, &[16, 24]);
        im.dirblock(16, &[(2, 2, b"."), (2, 2, b".."), (D, 2, b"d"), (12, 1, b"f")]);
        im.dirblock(24, &[(13, 1, b"m"), (14, 7, b"l")]);
        // d: a hash index of two leaves.
        im.inode(D, S_DIR | 0o755, 3 * N as u64, FL_EXT | FL_HTREE);
        im.extents(D, &[(0, 1, 32), (1, 1, 40), (2, 1, 48)]);
        let a = name_hash(1, &SEED, b"first", false);
        let b = name_hash(1, &SEED, b"second", false);
        let (lo, hi): ((u32, &[u8]), (u32, &[u8])) = if a < b { ((15, b"first"), (16, b"second")) } else { ((16, b"second"), (15, b"first")) };
        let o = im.blk(32);
        im.dirent(o, D, 12, 2, b".");
        im.dirent(o + 12, 2, (N - 12) as u16, 2, b"..");
        im.d[o + 0x1c] = 1;
        im.d[o + 0x1d] = 8;
        let l = (N - 0x20) / 8 - 1;
        im.p16(o + 0x20, l as u16);
        im.p16(o + 0x22, 2);
        im.p32(o + 0x24, 1);
        im.p32(o + 0x28, a.max(b));
        im.p32(o + 0x2c, 2);
        im.dirblock(40, &[(lo.0, 1, lo.1)]);
        im.dirblock(48, &[(hi.0, 1, hi.1)]);
        // f: extent tree of depth one, two blocks.
        let o = im.inode(12, S_REG | 0o644, N as u64 + 5, FL_EXT);
        im.ehdr(o + 0x28, 1, 4, 1);
        im.eidx(o + 0x28, 0, 0, 56);
        let o = im.blk(56);
        im.ehdr(o, 2, 340, 0);
        im.eleaf(o, 0, 0, 1, 64);
        im.eleaf(o, 1, 1, 1, 72);
        let o = im.blk(64);
        im.d[o..o + N].fill(b'p');
        let o = im.blk(72);
        im.d[o..o + 5].fill(b'q');
        // m: blocks 11 (direct), 12 (indirect), 1036 (double indirect).
        let o = im.inode(13, S_REG | 0o644, 1037 * N as u64, 0) + 0x28;
        im.p32(o + 4 * 11, 80);
        im.p32(o + 4 * 12, 88);
        im.p32(o + 4 * 13, 104);
        let o = im.blk(88);
        im.p32(o, 96);
        let o = im.blk(104);
        im.p32(o, 112);
        let o = im.blk(112);
        im.p32(o, 120);
        for (b, v) in [(80, b'x'), (96, b'y'), (120, b'z')] {
            let o = im.blk(b);
            im.d[o..o + N].fill(v);
        }
        // l: a symlink to f too long for the inode.
        let mut t = Vec::new();
        for _ in 0..40 {
            t.extend_from_slice(b"./");
        }
        t.push(b'f');
        im.inode(14, S_LNK | 0o777, t.len() as u64, FL_EXT);
        im.extents(14, &[(0, 1, 128)]);
        let o = im.blk(128);
        im.d[o..o + t.len()].copy_from_slice(&t);
        for i in 15..17 {
            im.inode(i, S_REG | 0o600, i as u64, FL_EXT);
            im.extents(i, &[]);
        }
        if csum {
            im.fix_dirblock(2, 16);
            im.fix_dirblock(2, 24);
            im.fix_dx(D, 32, 0x20);
            im.fix_dirblock(D, 40);
            im.fix_dirblock(D, 48);
            im.fix_enode(12, 56);
        }
        if journal {
            super::super::journal::imp::small_journal(&mut im, 136, 8, 64, b'P');
        }
        im.fix(&[2, 8, D, 12, 13, 14, 15, 16]);
        im
    }

    /// An I/O error must carry the device's error.
    fn is_dev(e: &Ext4Error) -> bool {
        match e {
            Ext4Error::Io(e) => matches!(e.downcast_ref::<DevErr>(), Some(DevErr(7))),
            _ => false,
        }
    }

    fn at(fs: &Ext4, block: u64, want: u8) -> Result<bool, Ext4Error> {
        let mut f = fs.open("/m")?;
        f.seek_to(block * N as u64 + 7)?;
        let mut b = [0u8; 4];
        let n = f.read_bytes(&mut b)?;
        Ok(n == 4 && b == [want; 4] && f.position() == block * N as u64 + 11)
    }

    /// Runs operation `op`; Ok(whether the result is right).
    pub fn run(fs: &Ext4, op: u64, first: u8) -> Result<bool, Ext4Error> {
        Ok(match op {
            0 => fs.metadata("/d/first")?.len() == 15,
            1 => fs.symlink_metadata("/d/second")?.len() == 16,
            2 => {
                let v = fs.read("/f")?;
                v.len() == N + 5 && v[0] == first && v[N - 1] == first && v[N..] == *b"qqqqq"
            }
            3 => {
                let mut n = 0;
                let mut good = true;
                for e in fs.read_dir("/d")? {
                    let e = e?;
                    let f = e.file_name();
                    good &= match n {
                        0 => f == ".",
                        1 => f == "..",
                        2 | 3 => f == "first" || f == "second",
                        _ => false,
                    };
                    n += 1;
                }
                good && n == 4
            }
            4 => {
                let t = fs.read_link("/l")?;
                t.as_ref().len() == 81 && t.as_ref()[80] == b'f' && t.as_ref()[79] == b'/'
            }
            5 => fs.read("/l")?.len() == N + 5,
            6 => !fs.exists("/d/none")?,
            7 => at(fs, 11, b'x')?,
            8 => at(fs, 12, b'y')?,
            9 => at(fs, 1036, b'z')?,
            10 => fs.canonicalize("/./l")? == "/f",
            11 => {
                let mut v = Vec::new();
                for e in fs.read_dir("/")? {
                    let e = e?;
                    v.push(e.metadata()?.file_type().is_regular_file() as u8);
                }
                v == [0, 0, 0, 1, 1, 0]
            }
            12 => fs.exists("/l")?,
            13 => {
                let s = fs.read_to_string("/l")?;
                s.len() == N + 5 && s.as_bytes()[N] == b'q'
            }
            _ => {
                let v = fs.read_dir("/l");
                match v {
                    Err(Ext4Error::NotADirectory) => true,
                    Err(e) => return Err(e),
                    Ok(_) => false,
                }
            }
        })
    }
    const OPS: u64 = 15;

    /// Judges one operation under faults.
    fn judge(d: &Dev, before: u64, r: Result<bool, Ext4Error>) {
        match r {
            Ok(b) => {
                // Whatever failed was not needed; nothing is ignored.
                check(b, 1);
                check(d.0.failed.get() == before, 2);
            }
            Err(e) => {
                check(d.0.failed.get() > before, 3);
                check(is_dev(&e), 4);
            }
        }
    }
    fn arm(d: &Dev, n: u64, sticky: bool, scribble: bool) {
        d.0.fail_at.set(d.0.reads.get() + below(n));
        d.0.sticky.set(sticky);
        d.0.scribble.set(scribble);
    }
    fn disarm(d: &Dev) {
        d.0.fail_at.set(u64::MAX);
        d.0.sticky.set(false);
    }

    /// One operation on a freshly loaded filesystem, any read of it failing.
    /// params: [op, csum, sticky, scribble, journal]
    pub fn h_fault() {
        let op = param(0);
        let journal = param(4) == 1;
        let first = if journal { b'P' } else { b'p' };
        let d = Dev::new(image(param(1) == 1, journal).d);
        let fs = ok(d.load(), 20);
        let r0 = d.0.reads.get();
        arm(&d, 60, param(2) == 1, param(3) == 1);
        let r = run(&fs, op, first);
        if d.0.failed.get() > 0 {
            reach(1);
            check(r.is_err(), 5);
        } else {
            reach(0);
            // The bound covers every read of the operation.
            check(d.0.reads.get() - r0 <= 60, 6);
        }
        judge(&d, 0, r);
        disarm(&d);
        check(matches!(run(&fs, op, first), Ok(true)), 7);
        // And everything else is as ever.
        let other = (op + 4) % OPS;
        check(matches!(run(&fs, other, first), Ok(true)), 8);
    }

    /// Loading, any read of it failing. params: [csum, journal, scribble]
    pub fn h_fault_load() {
        let journal = param(1) == 1;
        let d = Dev::new(image(param(0) == 1, journal).d);
        arm(&d, 60, false, param(2) == 1);
        let r = d.load();
        check(d.0.reads.get() <= 60, 6);
        match r {
            Ok(fs) => {
                reach(0);
                check(d.0.failed.get() == 0, 2);
                disarm(&d);
                check(matches!(run(&fs, 2, if journal { b'P' } else { b'p' }), Ok(true)), 7);
            }
            Err(e) => {
                reach(1);
                check(d.0.failed.get() > 0, 3);
                check(is_dev(&e), 4);
            }
        }
        disarm(&d);
        let fs = ok(d.load(), 8);
        check(matches!(run(&fs, 2, if journal { b'P' } else { b'p' }), Ok(true)), 9);
    }

    /// Reading one open file piece by piece; a read that fails is repeated on
    /// the same handle. params: [file 0 f, 1 m from block 10, piece length,
    /// pieces, csum]
    pub fn h_fault_file() {
        let which = param(0);
        let len = param(1) as usize;
        let pieces = param(2);
        let d = Dev::new(image(param(3) == 1, false).d);
        let fs = ok(d.load(), 20);
        let mut f = ok(fs.open(if which == 0 { "/f" } else { "/m" }), 21);
        let start = if which == 0 { 0 } else { 11 * N as u64 - 9 };
        ok(f.seek_to(start), 22);
        arm(&d, 16, false, true);
        let mut buf = vec![0u8; len];
        let mut pos = start;
        for _ in 0..pieces {
            buf.fill(1);
            let before = d.0.failed.get();
            let mut r = f.read_bytes(&mut buf);
            if let Err(e) = &r {
                reach(1);
                check(d.0.failed.get() > before, 2);
                check(is_dev(e), 3);
                check(f.position() == pos, 4);
                r = f.read_bytes(&mut buf);
            } else {
                check(d.0.failed.get() == before, 5);
            }
            let n = ok(r, 6);
            for (i, b) in buf[..n].iter().enumerate() {
                let p = pos + i as u64;
                let want = match (which, p / N as u64) {
                    (0, 0) => b'p',
                    (0, _) => b'q',
                    (_, 11) => b'x',
                    (_, 12) => b'y',
                    (_, 1036) => b'z',
                    _ => 0,
                };
                check(*b == want, 7);
            }
            pos += n as u64;
            check(f.position() == pos, 8);
            let end = if which == 0 { N as u64 + 5 } else { 1037 * N as u64 };
            check((n > 0) | (pos == end), 9);
        }
        reach(0);
    }

    /// A failing seek leaves a handle that still reads the bytes of the
    /// position it reports. params: [from block, to block, csum]
    pub fn h_fault_seek() {
        let (a, b) = (param(0), param(1));
        let d = Dev::new(image(param(2) == 1, false).d);
        let fs = ok(d.load(), 20);
        let mut f = ok(fs.open("/m"), 21);
        let want = |p: u64| match p / N as u64 {
            11 => b'x',
            12 => b'y',
            1036 => b'z',
            _ => 0,
        };
        ok(f.seek_to(a * N as u64), 22);
        arm(&d, 8, false, true);
        match f.seek_to(b * N as u64 + 1) {
            Ok(()) => {
                check(d.0.failed.get() == 0, 1);
                check(f.position() == b * N as u64 + 1, 2);
                reach(0);
            }
            Err(e) => {
                check(is_dev(&e), 3);
                reach(1);
            }
        }
        disarm(&d);
        let mut buf = [1u8; 3];
        let p = f.position();
        check(p == a * N as u64 || p == b * N as u64 + 1, 4);
        check(ok(f.read_bytes(&mut buf), 5) == 3, 6);
        check(buf == [want(p); 3], 7);
        ok(f.seek_to(b * N as u64 + 1), 8);
        check(ok(f.read_bytes(&mut buf), 9) == 3, 10);
        check(buf == [want(b * N as u64); 3], 11);
    }

    /// Sequences of operations with two failing reads anywhere, on one
    /// filesystem. params: [op, op, op, csum]
    pub fn h_fault_seq() {
        let d = Dev::new(image(param(3) == 1, false).d);
        let fs = ok(d.load(), 20);
        let mut any = false;
        for i in 0..3 {
            if i < 2 {
                arm(&d, 20, false, i == 0);
            }
            let before = d.0.failed.get();
            let r = run(&fs, param(i), b'p');
            any |= r.is_err();
            judge(&d, before, r);
            disarm(&d);
        }
        for i in 0..3 {
            check(matches!(run(&fs, param(i), b'p'), Ok(true)), 7);
        }
        reach(any as u32);
    }

    /// Listing a directory: what comes before the error is right, and after
    /// it nothing comes. params: [csum]
    pub fn h_fault_iter() {
        let d = Dev::new(image(param(0) == 1, false).d);
        let fs = ok(d.load(), 20);
        let full: Vec<Vec<u8>> = ok(fs.read_dir("/d"), 21).map(|e| e.unwrap().file_name().as_ref().to_vec()).collect();
        check(full.len() == 4, 22);
        let d = Dev::new(image(param(0) == 1, false).d);
        let fs = ok(d.load(), 23);
        let mut it = ok(fs.read_dir("/d"), 24);
        arm(&d, 5, true, true);
        let mut n = 0;
        let mut failed = false;
        loop {
            match it.next() {
                None => break,
                Some(Ok(e)) => {
                    check(!failed, 1);
                    check(n < 4, 2);
                    check(e.file_name().as_ref() == &full[n][..], 3);
                    n += 1;
                }
                Some(Err(e)) => {
                    check(!failed, 4);
                    check(is_dev(&e), 5);
                    failed = true;
                }
            }
        }
        disarm(&d);
        check(it.next().is_none(), 6);
        check(failed == (d.0.failed.get() > 0), 7);
        check(failed | (n == 4), 8);
        reach(failed as u32);
    }
}
