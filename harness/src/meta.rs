//! Inode location and decoding, operations per kind, labels, descriptors,
//! error conversion, in-memory reader.
super::entries! { h_inode_where h_inode_decode h_kinds h_kinds_link h_bad_paths h_utf8 h_label h_label_debug h_uuid h_bgd h_inode_far h_groups h_ioerr h_vec h_trunc }

mod imp {
    use super::super::dev::*;
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;
    use ext4_view::{Ext4Error, Ext4Read, FileType, Label, Uuid};

    pub fn tree(c: Cfg) -> Img {
        let mut im = Img::new(c);
        im.dir(2, &[20]);
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"f"), (13, 1, b"g")]);
        im.inode(13, S_REG | 0o600, 3, FL_EXT);
        im.extents(13, &[(0, 1, 22)]);
        let o = im.blk(22);
        im.d[o..o + 3].copy_from_slice(b"ggg");
        im
    }
    fn fin(mut im: Img, inos: &[u32]) -> Dev {
        if im.c.ro & RO_CSUM != 0 {
            im.fix_dirblock(2, 20);
        }
        im.fix(inos);
        Dev::new(im.d)
    }
    fn ftype(mode: u16) -> Option<FileType> {
        Some(match mode >> 12 {
            1 => FileType::Fifo,
            2 => FileType::CharacterDevice,
            4 => FileType::Directory,
            6 => FileType::BlockDevice,
            8 => FileType::Regular,
            10 => FileType::Symlink,
            12 => FileType::Socket,
            _ => return None,
        })
    }
    const KINDS: [u16; 7] = [1, 2, 4, 6, 8, 10, 12];

    /// The inode an entry names, over three groups whose tables lie in
    /// different places. params: [inode size, csum, inodes per group,
    /// log_bs, table of group 0, step to the next group's table (mod 2^64)].
    pub fn h_inode_where() {
        let isz = param(0) as usize;
        let csum = param(1) == 1;
        let ipg = param(2) as u32;
        let lb = param(3) as u32;
        let bs = 1024u64 << lb;
        let step = param(5);
        let c = Cfg {
            log_bs: lb,
            inode_size: isz,
            ipg,
            ro: if csum { RO_CSUM } else { 0 },
            bpg: 40,
            blocks: 3 * 40 + if lb == 0 { 1 } else { 0 } - 7,
            len: 114 * bs as usize,
            itable: param(4),
            itable_step: step,
            ..Cfg::basic()
        };
        let mut im = Img::new(c);
        check(im.groups() == 3, 1);
        let n = 3 * ipg;
        for i in 1..=n {
            let k = (i % 7) as usize;
            let o = im.inode(i, KINDS[k] << 12 | (i as u16 & 0xfff), i as u64 * 5, 0);
            im.p16(o + 2, i as u16);
            im.p16(o + 0x78, 0x11);
            im.p16(o + 0x18, !(i as u16));
        }
        im.dir(2, &[108]);
        let o = im.ioff(2);
        im.p16(o + 2, 2);
        let ino = u32s();
        im.dirblock(108, &[(2, 2, b"."), (2, 2, b".."), (13, 1, b"x"), (ino, 1, b"f")]);
        if csum {
            im.fix_dirblock(2, 108);
        }
        let all: Vec<u32> = (1..=n).collect();
        im.fix(&all);
        let fs = ok(Dev::new(im.d).load(), 2);
        let r = fs.symlink_metadata("/f");
        // Through the entry and through an open file.
        let e = ok(fs.read_dir("/"), 11).map(|e| ok(e, 12)).find(|e| e.file_name() == "f");
        check(e.is_some() == (rk(&r) != K::NotFound), 13);
        if let Some(e) = e {
            let em = e.metadata();
            check(rk(&em) == rk(&r), 14);
            if let (Ok(em), Ok(m)) = (&em, &r) {
                check(*em == *m, 15);
                if m.file_type().is_regular_file() {
                    reach(3);
                    check(*ok(fs.open("/f"), 16).metadata() == *m, 17);
                    check(ok(fs.metadata("/f"), 18) == *m, 19);
                }
            }
        }
        match rk(&r) {
            K::Ok => {
                reach(0);
                let m = r.unwrap();
                check((ino >= 1) & (ino <= n), 3);
                check(m.uid() == (0x11_0000 | ino), 4);
                if ino != 2 {
                    check(m.gid() == (!(ino as u16)) as u32, 5);
                    check(m.len() == ino as u64 * 5, 6);
                    check(m.mode() == ino as u16 & 0xfff, 7);
                }
            }
            K::NotFound => {
                reach(1);
                check(ino == 0, 8);
            }
            K::Corrupt => {
                reach(2);
                check(ino > n, 9);
            }
            _ => check(false, 10),
        }
    }

    /// All bytes of the inode arbitrary (its checksum right where there is
    /// one). params: [inode size, csum, log_bs]
    pub fn h_inode_decode() {
        let isz = param(0) as usize;
        let csum = param(1) == 1;
        let lb = param(2) as u32;
        let bs = 1024u64 << lb;
        let c = Cfg { log_bs: lb, inode_size: isz, ro: if csum { RO_CSUM } else { 0 }, blocks: 40, len: 40 * bs as usize, ..Cfg::basic() };
        let mut im = tree(c);
        let o = im.ioff(12);
        fill(&mut im.d[o..o + isz]);
        let (mode, uid, gid) = (im.g16(o), im.g16(o + 2) as u32 | (im.g16(o + 0x78) as u32) << 16, im.g16(o + 0x18) as u32 | (im.g16(o + 0x7a) as u32) << 16);
        let size = im.g32(o + 4) as u64 | (im.g32(o + 0x6c) as u64) << 32;
        let fs = ok(fin(im, &[2, 12, 13]).load(), 1);
        let r = fs.symlink_metadata("/f");
        let t = mode >> 12;
        let good_type = (t == 1) | (t == 2) | (t == 4) | (t == 6) | (t == 8) | (t == 10) | (t == 12);
        // More than 2^32 - 1 blocks.
        let too_big = size > 0xffff_ffff * bs;
        match rk(&r) {
            K::Ok => {
                reach(0);
                let m = r.unwrap();
                check(good_type & !too_big, 2);
                check(m.mode() == mode & 0xfff, 3);
                check((m.uid() == uid) & (m.gid() == gid), 4);
                check(m.len() == size, 5);
                check(ftype(mode) == Some(m.file_type()), 6);
                check(m.is_dir() == (t == 4), 7);
                check(m.is_symlink() == (t == 10), 8);
                let ft = m.file_type();
                check((ft.is_dir() == (t == 4)) & (ft.is_regular_file() == (t == 8)) & (ft.is_symlink() == (t == 10)), 9);
                check((ft.is_fifo() == (t == 1)) & (ft.is_char_dev() == (t == 2)) & (ft.is_block_dev() == (t == 6)) & (ft.is_socket() == (t == 12)), 10);
            }
            K::Corrupt => {
                reach(1);
                check(!good_type | too_big, 11);
            }
            _ => check(false, 12),
        }
    }

    fn op_kinds(fs: &ext4_view::Ext4, p: &str) -> [K; 7] {
        [
            rk(&fs.open(p)),
            rk(&fs.read(p)),
            rk(&fs.read_to_string(p)),
            rk(&fs.read_dir(p)),
            rk(&fs.read_link(p)),
            rk(&fs.metadata(p)),
            rk(&fs.exists(p)),
        ]
    }
    fn all(k: K) -> [K; 7] {
        [k; 7]
    }
    fn expect(got: [K; 7], want: [K; 7], id: u32) {
        for i in 0..7 {
            check(got[i] == want[i], id + i as u32);
        }
    }

    /// A path that leads to no file, for one reason or another: every
    /// operation gives the error of that reason (and `exists` is false only
    /// when nothing of that name is found). params: [reason]
    pub fn h_bad_paths() {
        let mut im = tree(Cfg::basic());
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"f"), (11, 2, b"d"), (14, 7, b"loop"), (15, 7, b"gone"), (9, 1, b"bad"), (16, 7, b"long"), (8, 2, b"enc"), (10, 7, b"nil"), (7, 2, b"hole")]);
        im.dir(11, &[22]);
        im.dirblock(22, &[(11, 2, b"."), (2, 2, b".."), (13, 1, b"h")]);
        im.file(12, 10, &[(0, 1, 24)]);
        im.file(13, 10, &[(0, 1, 25)]);
        im.symlink(14, b"/d/../loop");
        im.symlink(15, b"d/missing");
        im.symlink(10, b"");
        let o = im.inode(16, S_LNK | 0o777, 1024, FL_EXT);
        im.p16(o, S_LNK | 0o777);
        im.extents(16, &[(0, 1, 30)]);
        let o = im.blk(30);
        for i in 0..512 {
            im.d[o + 2 * i..o + 2 * i + 2].copy_from_slice(b"./");
        }
        im.dir(8, &[22]);
        let o = im.ioff(8);
        im.p32(o + 0x20, FL_EXT | FL_ENC);
        im.dir(7, &[22]);
        let o = im.ioff(7) + 0x28;
        im.ehdr(o, 1, 4, 0);
        im.eleaf(o, 0, 0, 1, 1 << 40);
        let count = im.c.ipg * ((im.c.blocks as u32 - 1).div_ceil(im.c.bpg));
        if param(0) == 9 {
            // The number of an inode that does not exist.
            let at = im.blk(20);
            let mut p = at;
            while im.g32(p) != 9 {
                p += im.g16(p + 4) as usize;
            }
            let n = u32s();
            assume(n > count);
            im.p32(p, n);
        }
        let mut z = 0u8;
        let (path, want): (Vec<u8>, K) = match param(0) {
            0 => {
                fill(std::slice::from_mut(&mut z));
                assume((z != 0) & (z != b'/'));
                (vec![z, b'f'], K::NotAbsolute)
            }
            1 => (vec![], K::NotAbsolute),
            2 => ([b"/f", &[0u8][..], b"x"].concat(), K::MalformedPath),
            3 => ([b"/d/", &vec![b'x'; 256 + choose(3) as usize][..]].concat(), K::MalformedPath),
            4 => (vec![b'/'; 4097 + choose(2) as usize], K::PathTooLong),
            5 => {
                fill(std::slice::from_mut(&mut z));
                assume((z != 0) & (z != b'/') & (z != b'.'));
                (vec![b'/', b'd', b'/', z, b'q'], K::NotFound)
            }
            6 => (b"/f/x".to_vec(), K::NotADirectory),
            7 => (b"/d/h/".to_vec(), K::NotADirectory),
            8 => (b"/gone/x".to_vec(), K::NotFound),
            9 => (b"/bad".to_vec(), K::Corrupt),
            10 => ([&b"/long/"[..], &b"./".repeat(1540)].concat(), K::PathTooLong),
            11 => (b"/enc/x".to_vec(), K::Encrypted),
            12 => (b"/nil/x".to_vec(), K::Corrupt),
            13 => (b"/loop/x".to_vec(), K::TooManySymlinks),
            14 => (b"/hole/x".to_vec(), K::Corrupt),
            15 => (b"/loop".to_vec(), K::TooManySymlinks),
            _ => (b"/gone".to_vec(), K::NotFound),
        };
        let fs = ok(fin(im, &[]).load(), 1);
        let p = &path[..];
        let last = param(0) >= 15;
        let op = choose(9);
        let got = match op {
            0 => rk(&fs.open(p)),
            1 => rk(&fs.read(p)),
            2 => rk(&fs.read_to_string(p)),
            3 => rk(&fs.read_dir(p)),
            4 => rk(&fs.metadata(p)),
            5 => rk(&fs.canonicalize(p)),
            6 => rk(&fs.read_link(p)),
            7 => rk(&fs.symlink_metadata(p)),
            _ => match fs.exists(p) {
                Ok(x) => {
                    check(!x, 2);
                    reach(1);
                    K::NotFound
                }
                Err(e) => {
                    check(kind(&e) != K::NotFound, 3);
                    kind(&e)
                }
            },
        };
        // The link itself is not followed by those.
        let want = if last && (op == 6 || op == 7) { K::Ok } else { want };
        check(got == want, 10 + op as u32);
        reach(0);
    }

    /// A file of any mode and any flags over an extent-mapped block which is
    /// a directory block (and text). params: [bits of the flags fixed to
    /// zero]
    pub fn h_kinds() {
        let mut im = tree(Cfg::basic());
        let mode = u16s();
        let fl = u32s();
        let mask = param(0) as u32;
        assume(fl & mask == 0);
        im.inode(12, mode, 1024, fl | FL_EXT);
        im.extents(12, &[(0, 1, 24)]);
        im.dirblock(24, &[(12, 2, b"."), (2, 2, b".."), (13, 1, b"h")]);
        let fs = ok(fin(im, &[]).load(), 1);
        let got = op_kinds(&fs, "/f");
        let enc = fl & FL_ENC != 0;
        let e = |k: K| if enc { K::Encrypted } else { k };
        match ftype(mode) {
            None => {
                reach(0);
                expect(got, all(K::Corrupt), 10);
            }
            Some(FileType::Regular) => {
                reach(1);
                // A record length in the block is no UTF-8.
                expect(got, [e(K::Ok), e(K::Ok), e(K::NotUtf8), K::NotADirectory, K::NotASymlink, K::Ok, K::Ok], 20);
                if !enc {
                    check(fs.read("/f").unwrap().len() == 1024, 2);
                    check(fs.open("/f").unwrap().metadata().mode() == mode & 0xfff, 3);
                }
            }
            Some(FileType::Directory) => {
                reach(2);
                expect(got, [K::IsADirectory, K::IsADirectory, K::IsADirectory, e(K::Ok), K::NotASymlink, K::Ok, K::Ok], 30);
            }
            Some(FileType::Symlink) => {
                reach(3);
                // The target (block content) contains NUL bytes.
                expect(got, all(e(K::Corrupt)), 40);
            }
            Some(_) => {
                reach(4);
                expect(got, [K::IsASpecialFile, K::IsASpecialFile, K::IsASpecialFile, K::NotADirectory, K::NotASymlink, K::Ok, K::Ok], 50);
            }
        }
        check(rk(&fs.symlink_metadata("/f")) == if ftype(mode).is_some() { K::Ok } else { K::Corrupt }, 4);
        // Using it as a directory on the way.
        let k = rk(&fs.metadata("/f/.."));
        match ftype(mode) {
            None => check(k == K::Corrupt, 60),
            Some(FileType::Directory) => check((k == e(K::Ok)) | (fl & FL_HTREE != 0), 61),
            Some(FileType::Symlink) => check(k == e(K::Corrupt), 62),
            Some(_) => check(k == K::NotADirectory, 63),
        }
    }

    /// The same with a short inline symlink target, which leads to a regular
    /// file (0), a directory (1), nothing (2), or is relative (3).
    pub fn h_kinds_link() {
        let mut im = tree(Cfg::basic());
        let mode = u16s();
        assume(mode & 0xf000 == S_LNK);
        let fl = u32s();
        assume(fl & FL_EXT == 0);
        let t: &[u8] = [&b"/g"[..], b"/", b"/x", b"g/"][param(0) as usize];
        let o = im.inode(12, mode, t.len() as u64, fl);
        im.d[o + 0x28..o + 0x28 + t.len()].copy_from_slice(t);
        let fs = ok(fin(im, &[]).load(), 1);
        let got = op_kinds(&fs, "/f");
        if fl & FL_ENC != 0 {
            reach(1);
            expect(got, all(K::Encrypted), 10);
            return;
        }
        reach(0);
        let want = match param(0) {
            0 => [K::Ok, K::Ok, K::Ok, K::NotADirectory, K::Ok, K::Ok, K::Ok],
            1 => [K::IsADirectory, K::IsADirectory, K::IsADirectory, K::Ok, K::Ok, K::Ok, K::Ok],
            2 => [K::NotFound, K::NotFound, K::NotFound, K::NotFound, K::Ok, K::NotFound, K::Ok],
            _ => [K::NotADirectory, K::NotADirectory, K::NotADirectory, K::NotADirectory, K::Ok, K::NotADirectory, K::NotADirectory],
        };
        expect(got, want, 20);
        check(ok(fs.read_link("/f"), 2).as_ref() as &[u8] == t, 3);
        if got[6] == K::Ok {
            check(fs.exists("/f").unwrap() == (param(0) != 2), 4);
        }
    }

    /// params: [file length]
    pub fn h_utf8() {
        let n = param(0) as usize;
        let mut im = tree(Cfg::basic());
        im.file(12, n as u64, &[(0, 1, 24)]);
        let o = im.blk(24);
        fill(&mut im.d[o..o + n]);
        let c = im.d[o..o + n].to_vec();
        let fs = ok(fin(im, &[]).load(), 1);
        let r = fs.read_to_string("/f");
        match utf8_ok(&c) {
            true => {
                reach(0);
                check(ok(r, 2).as_bytes() == &c[..], 3);
            }
            false => {
                reach(1);
                check(rk(&r) == K::NotUtf8, 4);
            }
        }
        check(ok(fs.read("/f"), 5) == c, 6);
    }
    /// RFC 3629.
    fn utf8_ok(b: &[u8]) -> bool {
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            let (n, lo, hi) = match c {
                0..=0x7f => (0, 0, 0),
                0xc2..=0xdf => (1, 0x80, 0xbf),
                0xe0 => (2, 0xa0, 0xbf),
                0xed => (2, 0x80, 0x9f),
                0xe1..=0xef => (2, 0x80, 0xbf),
                0xf0 => (3, 0x90, 0xbf),
                0xf1..=0xf3 => (3, 0x80, 0xbf),
                0xf4 => (3, 0x80, 0x8f),
                _ => return false,
            };
            for k in 1..=n {
                if i + k >= b.len() {
                    return false;
                }
                let x = b[i + k];
                let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
                if x < l || x > h {
                    return false;
                }
            }
            i += n + 1;
        }
        true
    }

    fn label_bytes() -> [u8; 16] {
        // Four arbitrary bytes at a chosen place, letters elsewhere.
        let (at, n) = (param(0) as usize, param(1) as usize);
        let mut b = *b"abcdefghijklmnop";
        fill(&mut b[at..at + n]);
        b
    }
    /// params: [first arbitrary byte, number of them, 1: through a
    /// filesystem]
    pub fn h_label() {
        let b = label_bytes();
        let mut fs = None;
        let l = if param(2) == 1 {
            let mut im = tree(Cfg::basic());
            im.d[SB + 0x78..SB + 0x88].copy_from_slice(&b);
            let f = ok(fin(im, &[]).load(), 1);
            let l = *f.label();
            fs = Some(f);
            l
        } else {
            Label::new(b)
        };
        check(eq_bytes(l.as_bytes(), &b), 2);
        let mut n = 0;
        while n < 16 && b[n] != 0 {
            n += 1;
        }
        match l.to_str() {
            Ok(s) => {
                reach(0);
                check(utf8_ok(&b[..n]), 3);
                check(s.as_bytes() == &b[..n], 4);
                check(l.display().to_string().as_bytes() == &b[..n], 5);
            }
            Err(_) => {
                reach(1);
                check(!utf8_ok(&b[..n]), 6);
                let d = l.display().to_string();
                check(d == String::from_utf8_lossy(&b[..n]), 7);
                check(d.contains('\u{fffd}'), 8);
            }
        }
        drop(fs);
    }
    /// Debug output of labels: quoted, escaped. params: as h_label
    pub fn h_label_debug() {
        let b = label_bytes();
        let l = Label::new(b);
        let mut n = 0;
        while n < 16 && b[n] != 0 {
            n += 1;
        }
        let d = format!("{l:?}");
        let mut want = Vec::new();
        want.push(b'"');
        if utf8_ok(&b[..n]) {
            reach(0);
            let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
            want.extend(s.escape_debug().to_string().bytes());
        } else {
            reach(1);
            for c in &b[..n] {
                want.extend(std::ascii::escape_default(*c));
            }
        }
        want.push(b'"');
        check(d.as_bytes() == &want[..], 1);
    }

    /// params: [first arbitrary byte, number of them]
    pub fn h_uuid() {
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = 0x10 * i as u8 + 0xf - i as u8;
        }
        let (at, n) = (param(0) as usize, param(1) as usize);
        fill(&mut b[at..at + n]);
        let mut im = tree(Cfg::basic());
        im.d[SB + 0x68..SB + 0x78].copy_from_slice(&b);
        let fs = ok(fin(im, &[]).load(), 1);
        let u = fs.uuid();
        check(u == Uuid::new(b), 2);
        check(eq_bytes(u.as_bytes(), &b), 3);
        let hex = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 };
        let mut want = Vec::new();
        for i in 0..16 {
            if i == 4 || i == 6 || i == 8 || i == 10 {
                want.push(b'-');
            }
            want.push(hex(b[i] >> 4));
            want.push(hex(b[i] & 15));
        }
        let d = u.to_string();
        let e = format!("{u:?}");
        check(d.len() == 36 && eq_bytes(d.as_bytes(), &want), 4);
        check(eq_bytes(e.as_bytes(), &want), 5);
        reach(0);
    }

    /// Descriptor of a group, its bytes arbitrary; the table lies anywhere
    /// beyond the stored blocks. params: [log_bs, descriptor size (0: no
    /// 64-bit feature), groups, group]
    pub fn h_bgd() {
        let lb = param(0) as u32;
        let bs = 1024u64 << lb;
        let is64 = param(1) != 0;
        let ng = param(2) as u32;
        let g = param(3) as u32;
        let bpg: u32 = if is64 { 0xffff_ffff } else { 0xffff_ffff / ng };
        let c = Cfg {
            log_bs: lb,
            bpg,
            blocks: (ng as u64 - 1) * bpg as u64 + 1000,
            incompat: INC_FILETYPE | INC_EXTENTS | if is64 { INC_64BIT } else { 0 },
            desc_size: if is64 { param(1) as usize } else { 64 },
            len: 64 * bs as usize,
            itable: 50,
            ..Cfg::basic()
        };
        let dsz = if is64 { c.desc_size } else { 32 };
        let blocks = c.blocks;
        let mut im = Img::new(c);
        check(im.groups() == ng, 1);
        let ino = g * 16 + 5;
        im.dir(2, &[60]);
        im.dirblock(60, &[(2, 2, b"."), (2, 2, b".."), (ino, 1, b"f")]);
        let o = im.bgd(g);
        fill(&mut im.d[o..o + dsz]);
        let mut t = im.g32(o + 8) as u64;
        if is64 {
            t |= (im.g32(o + 0x28) as u64) << 32;
        }
        if g == 0 {
            // The root inode lies in this group's table, too.
            kill();
        }
        assume(t >= 64);
        let dev = Dev::new(im.d);
        dev.0.len.set(blocks * bs);
        dev.0.inodes.set(true);
        let fs = ok(dev.load(), 2);
        let r = fs.symlink_metadata("/f");
        let at = 4 * 128 / bs;
        match rk(&r) {
            K::Ok => {
                reach(0);
                check(t + at < blocks, 3);
                let m = r.unwrap();
                // The device tells in every inode where it lies.
                let u = t * (bs / 128) + 4;
                check((m.len() == u & 0xff_ffff_ffff) & (m.uid() as u64 == u >> 40), 4);
            }
            K::Corrupt => {
                reach(1);
                check(t >= blocks, 5);
            }
            _ => check(false, 6),
        }
    }

    /// Inodes far into the tables of groups with very many inodes. params:
    /// [log_bs, inode size, inodes per group, second group's table]
    pub fn h_inode_far() {
        let lb = param(0) as u32;
        let bs = 1024u64 << lb;
        let isz = param(1);
        let ipg = param(2) as u32;
        let bpg = 0xffff_ffff_u32;
        let t2 = param(3);
        let c = Cfg {
            log_bs: lb,
            bpg,
            inode_size: isz as usize,
            ipg,
            blocks: bpg as u64 + (1 << 31),
            incompat: INC_FILETYPE | INC_EXTENTS | INC_64BIT,
            desc_size: 64,
            len: 64 * bs as usize,
            itable: 60,
            itable_step: t2 - 60,
            ..Cfg::basic()
        };
        let blocks = c.blocks;
        let mut im = Img::new(c);
        check(im.groups() == 2, 1);
        let ino = u32s();
        im.dir(2, &[50]);
        im.dirblock(50, &[(2, 2, b"."), (2, 2, b".."), (ino, 1, b"f")]);
        assume(ino > 0x10000);
        let stored = im.d.len() as u64;
        let dev = Dev::new(im.d);
        dev.0.len.set(blocks * bs);
        dev.0.inodes.set(true);
        dev.0.beyond.set(true);
        let fs = ok(dev.load(), 2);
        let n = 2 * ipg as u64;
        let i = ino as u64 - 1;
        let second = i >= ipg as u64;
        let pos = select(second, t2, 60) * bs + (i - select(second, ipg as u64, 0)) * isz;
        assume((pos >= stored) | (i >= n));
        let r = fs.symlink_metadata("/f");
        match rk(&r) {
            K::Ok => {
                reach(0);
                check((i < n) & (pos / bs < blocks), 3);
                let m = r.unwrap();
                let u = pos / 128;
                check((m.len() == u & 0xff_ffff_ffff) & (m.uid() as u64 == u >> 40), 4);
            }
            K::Corrupt => {
                reach(1);
                check((i >= n) | (pos / bs >= blocks), 5);
            }
            _ => check(false, 6),
        }
    }

    /// How many groups there are follows from the number of blocks, wherever
    /// in the last group the filesystem ends: every group's descriptor is
    /// needed and none beyond. params: [log_bs, groups, descriptor size (0:
    /// no 64-bit feature)]
    pub fn h_groups() {
        let lb = param(0) as u32;
        let bs = 1024u64 << lb;
        let ng = param(1) as u32;
        let is64 = param(2) != 0;
        let bpg = 8 * bs as u32;
        let first = if lb == 0 { 1 } else { 0 };
        let dsz = if is64 { param(2) } else { 32 };
        let t = (ng as u64 * dsz).div_ceil(bs);
        let mut c = Cfg {
            log_bs: lb,
            bpg,
            blocks: first + (ng as u64 - 1) * bpg as u64 + 1,
            len: (64 + t) as usize * bs as usize,
            itable: 20 + t,
            itable_step: 0,
            ..Cfg::csum()
        };
        if is64 {
            c.incompat |= INC_64BIT;
            c.desc_size = param(2) as usize;
        } else {
            c.incompat &= !INC_64BIT;
        }
        let ipg = c.ipg;
        let mut im = Img::new(c);
        check(im.groups() == ng, 1);
        // What follows the last descriptor is no valid descriptor.
        let end = im.bgd(ng - 1) + if is64 { param(2) as usize } else { 32 };
        let last = (ng - 1) * ipg + 12;
        im.dir(2, &[60 + t]);
        im.dirblock(60 + t, &[(2, 2, b"."), (2, 2, b".."), (last, 1, b"f"), (ng * ipg + 1, 1, b"g")]);
        im.fix_dirblock(2, 60 + t);
        im.inode(last, S_REG | 0o600, 7, FL_EXT);
        im.extents(last, &[]);
        im.fix(&[2, last]);
        let end2 = (end + 64).min(im.d.len());
        im.d[end..end2].fill(0xa5);
        // Every size of the last group, and one block more.
        let k = u32s() as u64;
        assume((k <= bpg as u64) & ((ng > 1) | (k >= 64 + t)));
        im.c.blocks += k;
        let n = im.c.blocks;
        im.p32(SB + 4, n as u32);
        if is64 {
            im.p32(SB + 0x150, (n >> 32) as u32);
        }
        im.fix_sb();
        let dev = Dev::new(im.d);
        dev.0.len.set((first + (ng as u64 + 1) * bpg as u64) * bs);
        let r = dev.load();
        if k == bpg as u64 {
            reach(1);
            check(rk(&r) == K::Corrupt, 2);
        } else {
            reach(0);
            let fs = ok(r, 3);
            check(ok(fs.metadata("/f"), 4).len() == 7, 5);
            check(rk(&fs.metadata("/g")) == K::Corrupt, 6);
        }
    }

    fn io_kind(e: &Ext4Error) -> std::io::ErrorKind {
        use std::io::ErrorKind as E;
        match e {
            Ext4Error::IsASpecialFile | Ext4Error::MalformedPath | Ext4Error::NotASymlink | Ext4Error::NotAbsolute => E::InvalidInput,
            Ext4Error::FileTooLarge => E::FileTooLarge,
            Ext4Error::IsADirectory => E::IsADirectory,
            Ext4Error::NotADirectory => E::NotADirectory,
            Ext4Error::NotFound => E::NotFound,
            Ext4Error::NotUtf8 => E::InvalidData,
            Ext4Error::Encrypted => E::PermissionDenied,
            _ => E::Other,
        }
    }
    /// Every kind of error, from operations on a damaged file: its mode,
    /// flags, size and block pointers arbitrary, operation and failing read
    /// of the device chosen. params: [operation]
    pub fn h_ioerr() {
        let mut im = tree(Cfg::basic());
        let o = im.ioff(12);
        fill(&mut im.d[o..o + 2]);
        fill(&mut im.d[o + 0x20..o + 0x24]);
        let big = u8s();
        assume(big < 2);
        im.p32(o + 4, 5);
        im.p32(o + 0x6c, select(big == 1, 0x3ff, 0) as u32);
        im.d[o + 0x28] = b'/';
        fill(&mut im.d[o + 0x29..o + 0x2d]);
        let dev = fin(im, &[]);
        let fs = ok(dev.load(), 1);
        dev.0.reads.set(0);
        dev.0.fail_at.set(choose(4));
        let long = [&b"/f"[..], &[b'/'; 4095]].concat();
        let p: &[u8] = match param(0) {
            8 => b"/f\0",
            9 => b"f",
            10 => &long,
            _ => b"/f",
        };
        if param(0) == 11 {
            return ioerr_std(&dev, &fs);
        }
        let run = || -> Result<(), Ext4Error> {
            match param(0) {
                0 | 8 | 9 | 10 => fs.open(p).map(|_| ()),
                1 => fs.read(p).map(|_| ()),
                2 => fs.read_to_string(p).map(|_| ()),
                3 => fs.read_dir(p).map(|_| ()),
                4 => fs.read_link(p).map(|_| ()),
                5 => fs.canonicalize(p).map(|_| ()),
                6 => fs.metadata(p).map(|_| ()),
                _ => fs.exists(p).map(|_| ()),
            }
        };
        if let Err(e) = run() {
            let k = kind(&e);
            let want = io_kind(&e);
            if let Ext4Error::Io(_) = e {
                reach(0);
                let inner = e.as_io().and_then(|x| x.downcast_ref::<DevErr>());
                check(matches!(inner, Some(DevErr(7))), 2);
                check(dev.0.failed.get() == 1, 3);
            } else {
                reach(1);
                check(e.as_io().is_none(), 4);
                check(dev.0.failed.get() == 0, 5);
            }
            check((param(0) == 10) == (k == K::PathTooLong), 9);
            let io: std::io::Error = e.into();
            check(io.kind() == want, 6);
            match k {
                K::Io => {
                    let inner = io.get_ref().and_then(|x| x.downcast_ref::<DevErr>());
                    check(matches!(inner, Some(DevErr(7))), 7);
                }
                K::Corrupt | K::Incompat | K::PathTooLong | K::TooManySymlinks => {
                    let inner = io.get_ref().and_then(|x| x.downcast_ref::<Ext4Error>());
                    check(inner.map(kind) == Some(k), 8);
                }
                _ => {}
            }
        } else {
            reach(2);
        }
    }

    /// Errors of reading and seeking through the standard traits.
    fn ioerr_std(dev: &Dev, fs: &ext4_view::Ext4) {
        use std::io::{ErrorKind, Read, Seek, SeekFrom};
        dev.0.fail_at.set(u64::MAX);
        let Ok(mut f) = fs.open("/f") else { kill() };
        dev.0.reads.set(0);
        dev.0.failed.set(0);
        dev.0.fail_at.set(choose(2));
        let mut buf = [0u8; 4];
        let r = if flag() { f.seek(SeekFrom::Start(2000)).map(|_| 0) } else { f.read(&mut buf) };
        match r {
            Ok(_) => {
                reach(2);
                check(dev.0.failed.get() == 0, 20);
            }
            Err(e) if dev.0.failed.get() != 0 => {
                reach(0);
                check(e.kind() == ErrorKind::Other, 21);
                check(matches!(e.get_ref().and_then(|x| x.downcast_ref::<DevErr>()), Some(DevErr(7))), 22);
            }
            Err(e) => {
                reach(1);
                let inner = e.get_ref().and_then(|x| x.downcast_ref::<Ext4Error>());
                let enc = e.kind() == ErrorKind::PermissionDenied;
                check(enc || (e.kind() == ErrorKind::Other && inner.map(kind) == Some(K::Corrupt)), 23);
            }
        }
        dev.0.fail_at.set(u64::MAX);
        let at = f.position();
        let e = f.seek(SeekFrom::Current(-1 - at as i64)).unwrap_err();
        check(e.kind() == ErrorKind::InvalidInput && f.position() == at, 24);
    }

    /// Reading from a byte vector. params: [source length, most bytes read]
    pub fn h_vec() {
        let n = param(0) as usize;
        let mut v = vec![0u8; n];
        fill(&mut v);
        let orig = v.clone();
        let off = u64s();
        let k = choose(param(1) + 1) as usize;
        let mut dst = vec![0xa5u8; k];
        let r = Ext4Read::read(&mut v, off, &mut dst);
        let inside = (off <= n as u64) & (off.wrapping_add(k as u64) <= n as u64);
        match r {
            Ok(()) => {
                reach(0);
                check(inside, 1);
                let a = concretize(off) as usize;
                for i in 0..k {
                    check(dst[i] == orig[a + i], 2);
                }
            }
            Err(e) => {
                reach(1);
                check(!inside, 3);
                check(dst.iter().all(|x| *x == 0xa5), 4);
                check(e.source().is_none(), 5);
            }
        }
        check(eq_bytes(&v, &orig), 6);
    }

    /// An image in memory cut off anywhere: whatever is needed lies in it or
    /// the operation fails as an I/O error. params: [blocks]
    pub fn h_trunc() {
        let nb = param(0);
        let c = Cfg { blocks: nb, len: nb as usize * 1024, ..Cfg::basic() };
        let mut im = Img::new(c);
        im.dir(2, &[8]);
        im.dirblock(8, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"f")]);
        im.file(12, 1024 + 7, &[(0, 1, 9), (1, 1, nb - 1)]);
        let o = im.blk(9);
        im.d[o..o + 1024].fill(b'a');
        let o = im.blk(nb - 1);
        im.d[o..o + 7].copy_from_slice(b"content");
        let cut = if flag() { nb as usize * 1024 - choose(1025) as usize } else { choose(nb) as usize * 1024 };
        let mut v = im.d;
        v.truncate(cut);
        let full = cut == nb as usize * 1024;
        match ext4_view::Ext4::load(Box::new(v)) {
            Ok(fs) => {
                let r = fs.read("/f");
                match rk(&r) {
                    K::Ok => {
                        reach(0);
                        let c = r.unwrap();
                        check(c.len() == 1031 && c[0] == b'a' && c[1023] == b'a' && &c[1024..] == b"content", 1);
                        check(full, 2);
                    }
                    K::Io => {
                        reach(1);
                        check(!full, 3);
                    }
                    _ => check(false, 4),
                }
            }
            Err(e) => {
                reach(2);
                check(kind(&e) == K::Io, 5);
                check(cut < 4096, 6);
            }
        }
    }
}
