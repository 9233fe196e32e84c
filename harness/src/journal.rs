//! Journal: replay of a dirty journal, validation of its superblock.
super::entries! { h_journal h_journal_sb h_journal_dir h_revoke_many h_revoke_size h_journal_off h_journal_big h_journal_many }

pub mod imp {
    use super::super::dev::*;
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;

    const MAGIC: u32 = 0xc03b_3998;
    const UUID: [u8; 16] = *b"journal uuid 16b";
    const SEQ: u32 = 0x0102_0300;

    fn be32(b: &[u8], o: usize) -> u32 {
        u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
    }
    fn p32(b: &mut [u8], o: usize, v: u32) {
        b[o..o + 4].copy_from_slice(&v.to_be_bytes());
    }
    fn jseed() -> u32 {
        crc(!0, &UUID)
    }
    fn tail_csum(b: &[u8]) -> u32 {
        crc(crc(jseed(), &b[..b.len() - 4]), &[0; 4])
    }
    fn commit_csum(b: &[u8]) -> u32 {
        crc(crc(crc(jseed(), &b[..16]), &[0; 4]), &b[20..])
    }
    fn data_csum(seq: u32, b: &[u8]) -> u32 {
        crc(crc(jseed(), &seq.to_be_bytes()), b)
    }

    /// The outcome of a replay: pairs (filesystem block, journal block that
    /// replaces it), or the kind of the error.
    type Map = Vec<(u64, u64)>;

    /// Reference replay over the raw journal blocks, in log order (the first
    /// is where the journal superblock says the log starts).
    fn replay(log: &[(u64, Vec<u8>)], mut seq: u32) -> Result<Map, K> {
        let mut done: Map = Vec::new();
        let mut pend: Map = Vec::new();
        let mut revoked: Vec<u64> = Vec::new();
        let mut i = 0;
        'log: while i < log.len() {
            let b = &log[i].1;
            i += 1;
            if be32(b, 0) != MAGIC || be32(b, 8) != seq {
                break;
            }
            match be32(b, 4) {
                1 => {
                    if be32(b, b.len() - 4) != tail_csum(b) {
                        break;
                    }
                    let mut o = 12;
                    loop {
                        if o + 16 > b.len() {
                            break 'log;
                        }
                        let fl = be32(b, o + 4);
                        if fl & 2 == 0 && o + 32 > b.len() {
                            break 'log;
                        }
                        if fl & 1 != 0 {
                            return Err(K::Incompat);
                        }
                        if i >= log.len() {
                            break 'log;
                        }
                        let (phys, data) = &log[i];
                        i += 1;
                        if be32(b, o + 12) != data_csum(seq, data) {
                            break 'log;
                        }
                        pend.push((be32(b, o) as u64 | (be32(b, o + 8) as u64) << 32, *phys));
                        if fl & 8 != 0 {
                            break;
                        }
                        o += if fl & 2 != 0 { 16 } else { 32 };
                    }
                }
                2 => {
                    if be32(b, 16) != commit_csum(b) {
                        break;
                    }
                    done.append(&mut pend);
                    for r in revoked.drain(..) {
                        done.retain(|e| e.0 != r);
                    }
                    seq += 1;
                }
                5 => {
                    if be32(b, b.len() - 4) != tail_csum(b) {
                        break;
                    }
                    // The count includes the 16 bytes before the entries.
                    let count = be32(b, 12) as usize;
                    if count > b.len() - 4 {
                        break;
                    }
                    let mut o = 16;
                    while o + 8 <= count {
                        revoked.push((be32(b, o) as u64) << 32 | be32(b, o + 4) as u64);
                        o += 8;
                    }
                }
                _ => return Err(K::Incompat),
            }
        }
        Ok(done)
    }
    fn lookup(m: &Map, b: u64) -> u64 {
        let mut r = b;
        for e in m {
            if e.0 == b {
                r = e.1;
            }
        }
        r
    }

    fn cfg(lb: u32) -> Cfg {
        Cfg {
            log_bs: lb,
            compat: COMPAT_JOURNAL,
            incompat: INC_FILETYPE | INC_EXTENTS | INC_RECOVER,
            len: 64 * (1024 << lb),
            ..Cfg::basic()
        }
    }
    /// Journal in inode 8 of four blocks (`first`, then every `step`) with one
    /// transaction that fills `target` with `byte`.
    pub fn small_journal(im: &mut Img, first: u64, step: u64, target: u64, byte: u8) {
        let bs = im.bs;
        im.p32(SB + 0xe0, 8);
        im.inode(8, S_REG | 0o600, 4 * bs as u64, FL_EXT);
        let b = [first, first + step, first + 2 * step, first + 3 * step];
        im.extents(8, &[(0, 1, b[0]), (1, 1, b[1]), (2, 1, b[2]), (3, 1, b[3])]);
        let mut s = vec![0u8; bs];
        p32(&mut s, 0, MAGIC);
        p32(&mut s, 4, 4);
        p32(&mut s, 0xc, bs as u32);
        p32(&mut s, 0x10, 4);
        p32(&mut s, 0x14, 1);
        p32(&mut s, 0x18, SEQ);
        p32(&mut s, 0x1c, 1);
        p32(&mut s, 0x28, 0x12);
        s[0x30..0x40].copy_from_slice(&UUID);
        s[0x50] = 4;
        let c = jsb_csum(&s);
        p32(&mut s, 0xfc, c);
        let data = vec![byte; bs];
        let mut desc = vec![0u8; bs];
        p32(&mut desc, 0, MAGIC);
        p32(&mut desc, 4, 1);
        p32(&mut desc, 8, SEQ);
        p32(&mut desc, 12, target as u32);
        p32(&mut desc, 16, 10);
        p32(&mut desc, 24, data_csum(SEQ, &data));
        let c = tail_csum(&desc);
        p32(&mut desc, bs - 4, c);
        let mut com = vec![0u8; bs];
        p32(&mut com, 0, MAGIC);
        p32(&mut com, 4, 2);
        p32(&mut com, 8, SEQ);
        let c = commit_csum(&com);
        p32(&mut com, 16, c);
        for (i, v) in [s, desc, data, com].iter().enumerate() {
            let o = im.blk(b[i]);
            im.d[o..o + bs].copy_from_slice(v);
        }
    }
    /// Files a, b, c with one block each (24, 25, 26); the journal is inode
    /// 8, its `n` blocks lie at 40, 41, 42 and then from 28 on.
    fn image(lb: u32, n: usize, start: u32) -> Img {
        let mut im = Img::new(cfg(lb));
        im.p32(SB + 0xe0, 8);
        im.dir(2, &[20]);
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"a"), (13, 1, b"b"), (14, 1, b"c")]);
        for i in 0..3u32 {
            im.file(12 + i, im.bs as u64, &[(0, 1, 24 + i as u64)]);
            let o = im.blk(24 + i as u64);
            let bs = im.bs;
            im.d[o..o + bs].fill(b'1' + i as u8);
        }
        let bs = im.bs as u64;
        im.inode(8, S_REG | 0o600, n as u64 * bs, FL_EXT);
        im.extents(8, &[(0, 3, 40), (3, n as u16 - 3, 28)]);
        let o = im.blk(jblk(0));
        let bs = im.bs;
        let s = &mut im.d[o..o + bs];
        p32(s, 0, MAGIC);
        p32(s, 4, 4);
        p32(s, 0xc, bs as u32);
        p32(s, 0x10, n as u32);
        p32(s, 0x14, 1);
        p32(s, 0x18, SEQ);
        p32(s, 0x1c, start);
        p32(s, 0x28, 0x13);
        s[0x30..0x40].copy_from_slice(&UUID);
        s[0x50] = 4;
        fix_jsb(&mut im);
        im
    }
    fn fix_jsb(im: &mut Img) {
        let o = im.blk(jblk(0));
        let c = jsb_csum(&im.d[o..o + 1024]);
        im.b32(o + 0xfc, c);
    }
    fn jsb_csum(b: &[u8]) -> u32 {
        crc(crc(crc(!0, &b[..0xfc]), &[0; 4]), &b[0x100..1024])
    }
    fn jblk(i: usize) -> u64 {
        if i < 3 { 40 + i as u64 } else { 28 + (i - 3) as u64 }
    }

    /// A block number: one of the three files' blocks, or another one.
    fn target() -> u32 {
        let t = u8s();
        assume((t >= 23) & (t <= 26));
        t as u32
    }

    /// params: [start position, journal blocks, script, what may be
    /// arbitrary, log_bs]. The script's decimal digits are the blocks of the
    /// log in order: 1, 2, 4 descriptor of one, two, three tags; 3 data;
    /// 5, 8 revocation of one, two blocks; 6 commit; 7 anything; 9 a block
    /// of an earlier round of the log; blocks after the script are zero.
    /// Arbitrary: bit 0 checksums, 1 sequences, 2 magics, 3 tag flags,
    /// 4 descriptors' tags with uuid, 5 high half of block numbers, 6 data
    /// of the data blocks.
    pub fn h_journal() {
        let (start, n) = (param(0) as usize, param(1) as usize);
        let script = param(2);
        let any = param(3);
        let lb = param(4) as u32;
        let mut im = image(lb, n, start as u32);
        let bs = im.bs;
        let mut digits = Vec::new();
        let mut x = script;
        while x != 0 {
            digits.insert(0, x % 10);
            x /= 10;
        }
        // Log order of the journal's blocks.
        let order: Vec<usize> = (start..n).chain(1..start).collect();
        let mut log: Vec<(u64, Vec<u8>)> = order.iter().map(|i| (jblk(*i), vec![0u8; bs])).collect();
        let mut seq = SEQ;
        let bit = |k: u32| any >> k & 1 == 1;
        // Data first: the tags hold its checksum.
        for (i, d) in digits.iter().enumerate() {
            if *d == 3 {
                log[i].1.fill(b'A' + i as u8);
                if bit(6) {
                    fill(&mut log[i].1[8..12]);
                }
            }
        }
        for (i, d) in digits.iter().enumerate() {
            if *d == 3 {
                continue;
            }
            let mut b = vec![0u8; bs];
            p32(&mut b, 0, MAGIC);
            p32(&mut b, 8, seq);
            let mut fixat = bs - 4;
            match d {
                1 | 2 | 4 => {
                    p32(&mut b, 4, 1);
                    let nt = [0, 1, 2, 0, 3][*d as usize];
                    let mut o = 12;
                    for k in 0..nt {
                        p32(&mut b, o, target());
                        let mut fl = if bit(4) { 0 } else { 2 } | if k + 1 == nt { 8 } else { 0 };
                        if bit(3) {
                            fl = u8s() as u32;
                            assume(fl < 16);
                        }
                        p32(&mut b, o + 4, fl);
                        if bit(5) {
                            p32(&mut b, o + 8, u32s());
                        }
                        let c = if i + 1 + k < log.len() { data_csum(seq, &log[i + 1 + k].1) } else { 0 };
                        p32(&mut b, o + 12, if bit(0) { c ^ u32s() } else { c });
                        o += if bit(4) { 32 } else { 16 };
                    }
                }
                5 | 8 => {
                    p32(&mut b, 4, 5);
                    let k = if *d == 5 { 1 } else { 2 };
                    p32(&mut b, 12, 16 + 8 * k);
                    for j in 0..k as usize {
                        p32(&mut b, 20 + 8 * j, target());
                        if bit(5) {
                            p32(&mut b, 16 + 8 * j, u32s());
                        }
                    }
                }
                6 => {
                    p32(&mut b, 4, 2);
                    fixat = 16;
                    seq += 1;
                }
                9 => {
                    p32(&mut b, 4, 2);
                    p32(&mut b, 8, seq - 3);
                    fixat = 16;
                }
                _ => {
                    // A header of any type over the fields of a tag.
                    let ty = u32s();
                    p32(&mut b, 4, ty);
                    p32(&mut b, 12, target());
                    // Zero count would be a revocation by another reading.
                    p32(&mut b, 16, 10);
                    let c = if i + 1 < log.len() { data_csum(seq, &log[i + 1].1) } else { 0 };
                    p32(&mut b, 24, c);
                    assume(ty != 5);
                }
            }
            if bit(1) {
                let s = be32(&b, 8);
                p32(&mut b, 8, s ^ u32s());
            }
            if bit(2) {
                p32(&mut b, 0, MAGIC ^ u32s());
            }
            let c = if fixat == 16 { commit_csum(&b) } else { tail_csum(&b) };
            p32(&mut b, fixat, if bit(0) { c ^ u32s() } else { c });
            log[i].1 = b;
        }
        for (ph, b) in &log {
            let o = im.blk(*ph);
            im.d[o..o + bs].copy_from_slice(b);
        }
        let want = replay(&log, SEQ);
        let dev = Dev::new(im.d.clone());
        let r = dev.load();
        match want {
            Err(k) => {
                reach(1);
                check(rk(&r) == k, 1);
            }
            Ok(m) => {
                let fs = ok(r, 2);
                for i in 0..3u64 {
                    let p = [b"/a", b"/b", b"/c"][i as usize];
                    let c = ok(fs.read(&p[..]), 3);
                    let at = im.blk(lookup(&m, 24 + i));
                    check(c.len() == bs && eq_bytes(&c, &im.d[at..at + bs]), 4);
                }
                reach(if m.is_empty() { 2 } else { 0 });
            }
        }
    }

    /// A journaled directory block and inode table block are used by path
    /// resolution, metadata and listing. The commit's checksum arbitrary.
    pub fn h_journal_dir() {
        let mut im = image(0, 8, 1);
        // New version of the directory: "d" instead of "c"; of the second
        // inode table block (inodes 9..16): inode 12 has another owner.
        let save = im.d[im.blk(20)..im.blk(21)].to_vec();
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"a"), (13, 1, b"b"), (14, 1, b"d")]);
        let o = im.blk(20);
        let newdir = im.d[o..o + 1024].to_vec();
        im.d[o..o + 1024].copy_from_slice(&save);
        let t = im.blk(5);
        let mut newtab = im.d[t..t + 1024].to_vec();
        let io = im.ioff(12) - t;
        newtab[io + 2] = 77;
        newtab[io + 4] = 3;
        newtab[io + 5] = 0;
        let mut desc = vec![0u8; 1024];
        p32(&mut desc, 0, MAGIC);
        p32(&mut desc, 4, 1);
        p32(&mut desc, 8, SEQ);
        p32(&mut desc, 12, 20);
        p32(&mut desc, 16, 2);
        p32(&mut desc, 24, data_csum(SEQ, &newdir));
        p32(&mut desc, 28, 5);
        p32(&mut desc, 32, 8);
        p32(&mut desc, 40, data_csum(SEQ, &newtab));
        let c = tail_csum(&desc);
        p32(&mut desc, 1020, c);
        let mut com = vec![0u8; 1024];
        p32(&mut com, 0, MAGIC);
        p32(&mut com, 4, 2);
        p32(&mut com, 8, SEQ);
        let delta = u32s();
        let c = commit_csum(&com) ^ delta;
        p32(&mut com, 16, c);
        for (i, b) in [desc, newdir, newtab, com].iter().enumerate() {
            let o = im.blk(jblk(i + 1));
            im.d[o..o + 1024].copy_from_slice(b);
        }
        let fs = ok(Dev::new(im.d).load(), 1);
        let committed = delta == 0;
        let a = ok(fs.metadata("/a"), 2);
        check((a.uid() == 77) == committed, 3);
        check((a.len() == 3) == committed, 4);
        check(ok(fs.exists("/d"), 5) == committed, 6);
        check(ok(fs.exists("/c"), 7) != committed, 8);
        check(ok(fs.read("/a"), 9).len() == if committed { 3 } else { 1024 }, 10);
        let mut names = Vec::new();
        for e in ok(fs.read_dir("/"), 11) {
            names.push(ok(e, 12).file_name().as_ref()[0]);
        }
        check(names == [b'.', b'.', b'a', b'b', if committed { b'd' } else { b'c' }], 13);
        reach(committed as u32);
    }

    /// A revocation block with many entries, one of them naming file a's
    /// block. params: [entries]
    pub fn h_revoke_many() {
        let k = param(0) as usize;
        let mut im = image(0, 8, 1);
        let at = below(k as u64) as usize;
        let data = vec![b'X'; 1024];
        let mut desc = vec![0u8; 1024];
        p32(&mut desc, 0, MAGIC);
        p32(&mut desc, 4, 1);
        p32(&mut desc, 8, SEQ);
        p32(&mut desc, 12, 24);
        p32(&mut desc, 16, 10);
        p32(&mut desc, 24, data_csum(SEQ, &data));
        let c = tail_csum(&desc);
        p32(&mut desc, 1020, c);
        let commit = |s: u32| {
            let mut com = vec![0u8; 1024];
            p32(&mut com, 0, MAGIC);
            p32(&mut com, 4, 2);
            p32(&mut com, 8, s);
            let c = commit_csum(&com);
            p32(&mut com, 16, c);
            com
        };
        let mut rev = vec![0u8; 1024];
        p32(&mut rev, 0, MAGIC);
        p32(&mut rev, 4, 5);
        p32(&mut rev, 8, SEQ + 1);
        p32(&mut rev, 12, 16 + 8 * k as u32);
        for i in 0..k {
            let v = select(i == at, 24, 1000 + i as u64) as u32;
            p32(&mut rev, 20 + 8 * i, v);
        }
        let c = tail_csum(&rev);
        p32(&mut rev, 1020, c);
        for (i, b) in [desc, data, commit(SEQ), rev, commit(SEQ + 1)].iter().enumerate() {
            let o = im.blk(jblk(i + 1));
            im.d[o..o + 1024].copy_from_slice(b);
        }
        let fs = ok(Dev::new(im.d).load(), 1);
        let c = ok(fs.read("/a"), 2);
        check(c[0] == b'1' && c[1023] == b'1', 3);
        reach(0);
    }

    /// A revoke block with any table size and a right checksum, in the second
    /// transaction, which revokes the block the first one wrote. A size that
    /// is not that of whole entries within the block ends the journal there.
    pub fn h_revoke_size() {
        let mut im = image(0, 8, 1);
        let data = vec![b'X'; 1024];
        let mut desc = vec![0u8; 1024];
        p32(&mut desc, 0, MAGIC);
        p32(&mut desc, 4, 1);
        p32(&mut desc, 8, SEQ);
        p32(&mut desc, 12, 24);
        p32(&mut desc, 16, 10);
        p32(&mut desc, 24, data_csum(SEQ, &data));
        let c = tail_csum(&desc);
        p32(&mut desc, 1020, c);
        let commit = |s: u32| {
            let mut com = vec![0u8; 1024];
            p32(&mut com, 0, MAGIC);
            p32(&mut com, 4, 2);
            p32(&mut com, 8, s);
            let c = commit_csum(&com);
            p32(&mut com, 16, c);
            com
        };
        let size = u32s();
        let mut rev = vec![0u8; 1024];
        p32(&mut rev, 0, MAGIC);
        p32(&mut rev, 4, 5);
        p32(&mut rev, 8, SEQ + 1);
        p32(&mut rev, 12, size);
        p32(&mut rev, 20, 24);
        let c = tail_csum(&rev);
        p32(&mut rev, 1020, c);
        for (i, b) in [desc, data, commit(SEQ), rev, commit(SEQ + 1)].iter().enumerate() {
            let o = im.blk(jblk(i + 1));
            im.d[o..o + 1024].copy_from_slice(b);
        }
        let fs = ok(Dev::new(im.d).load(), 1);
        let c = ok(fs.read("/a"), 2);
        check((c[0] == b'1' && c[1023] == b'1') || (c[0] == b'X' && c[1023] == b'X'), 3);
        if size % 8 != 0 || size > 1020 {
            check(c[0] == b'X', 4);
            reach(1);
        } else if size >= 24 && size <= 1000 {
            check(c[0] == b'1', 5);
            reach(0);
        }
    }

    /// A whole transaction behind a journal superblock of arbitrary bytes
    /// (the uuid fixed). params: [kind: 0 everything else arbitrary with the
    /// checksum right, 1 checksum arbitrary, 2 as 0 with the fields that
    /// select the outcome fixed]
    pub fn h_journal_sb() {
        let mut im = image(0, 8, 1);
        let data = vec![b'X'; 1024];
        let mut desc = vec![0u8; 1024];
        p32(&mut desc, 0, MAGIC);
        p32(&mut desc, 4, 1);
        p32(&mut desc, 8, SEQ);
        p32(&mut desc, 12, 24);
        p32(&mut desc, 16, 10);
        p32(&mut desc, 24, data_csum(SEQ, &data));
        let c = tail_csum(&desc);
        p32(&mut desc, 1020, c);
        let mut com = vec![0u8; 1024];
        p32(&mut com, 0, MAGIC);
        p32(&mut com, 4, 2);
        p32(&mut com, 8, SEQ);
        let c = commit_csum(&com);
        p32(&mut com, 16, c);
        for (i, b) in [desc, data, com].iter().enumerate() {
            let o = im.blk(jblk(i + 1));
            im.d[o..o + 1024].copy_from_slice(b);
        }
        let o = im.blk(jblk(0));
        let mut s = im.d[o..o + 1024].to_vec();
        fill(&mut s);
        s[0x30..0x40].copy_from_slice(&UUID);
        let kind = param(0);
        if kind == 1 {
            for (a, n) in [(0usize, 0x54usize), (0x58, 0x54), (0x100, 0xf8), (0x200, 0x200)] {
                s[a..a + n].copy_from_slice(&im.d[o + a..o + a + n]);
            }
        }
        if kind == 2 {
            for (a, n) in [(0usize, 8usize), (0xc, 4), (0x28, 4), (0x50, 1)] {
                s[a..a + n].copy_from_slice(&im.d[o + a..o + a + n]);
            }
        }
        let start = be32(&s, 0x1c);
        let c = jsb_csum(&s);
        if kind != 1 {
            p32(&mut s, 0xfc, c);
        }
        im.d[o..o + 1024].copy_from_slice(&s);
        let magic = be32(&s, 0) == MAGIC;
        let ty = be32(&s, 4) == 4;
        let inc = be32(&s, 0x28);
        let feat = (inc & 0x12 == 0x12) & (inc & !0x13 == 0);
        let ctype = s[0x50] == 4;
        let bsok = be32(&s, 0xc) == 1024;
        let csum = be32(&s, 0xfc) == c;
        let r = Dev::new(im.d).load();
        match rk(&r) {
            K::Ok => {
                reach(0);
                check(magic & ty & feat & ctype & bsok & csum & (start < 8), 1);
                let fs = r.unwrap();
                let c = ok(fs.read("/a"), 2);
                let seq = be32(&s, 0x18);
                let replayed = (start == 1) & (seq == SEQ);
                check((c[0] == b'X') == replayed, 3);
                check((c[0] == b'1') == !replayed, 4);
                reach(3 + (c[0] == b'X') as u32);
            }
            K::Corrupt => {
                reach(1);
                check(!magic | !bsok | !csum | (start >= 8), 5);
            }
            K::Incompat => {
                reach(2);
                check(!ty | !feat | !ctype, 6);
            }
            _ => check(false, 7),
        }
    }

    /// When a journal is to be replayed at all: feature bits arbitrary among
    /// has_journal / recovery, journal inode number any byte.
    pub fn h_journal_off() {
        let mut im = image(0, 8, 1);
        let o = im.blk(jblk(0));
        im.d[o..o + 1024].fill(0);
        let hj = u8s();
        let rec = u8s();
        assume((hj < 2) & (rec < 2));
        let num = u8s();
        assume((num == 8) | (num == 0));
        im.p32(SB + 0x5c, hj as u32 * 4);
        im.p32(SB + 0x60, (INC_FILETYPE | INC_EXTENTS) | rec as u32 * 4);
        im.p32(SB + 0xe0, num as u32);
        let r = Dev::new(im.d).load();
        if hj & rec == 1 {
            reach(1);
            // The journal (or its inode number) is damaged.
            check(rk(&r) == K::Corrupt, 1);
        } else {
            reach(0);
            let fs = ok(r, 2);
            let c = ok(fs.read("/a"), 3);
            check(c[0] == b'1', 4);
        }
    }

    /// A descriptor that fills its block with tags: as many transactions
    /// blocks as fit, the last tag's target arbitrary. params: [tags, data
    /// blocks present]
    pub fn h_journal_big() {
        let nt = param(0) as usize;
        let present = param(1) as usize;
        let n = present + 4;
        let mut c = cfg(0);
        c.blocks = 200;
        c.len = 200 * 1024;
        let mut im = Img::new(c);
        let small = image(0, 8, 1);
        for (a, b) in [(SB, SB + 1024), (4096, 27 * 1024)] {
            im.d[a..b].copy_from_slice(&small.d[a..b]);
        }
        im.p32(SB + 4, 200);
        im.inode(8, S_REG | 0o600, n as u64 * 1024, FL_EXT);
        im.extents(8, &[(0, n as u16, 40)]);
        let so = small.blk(jblk(0));
        let o = im.blk(40);
        im.d[o..o + 1024].copy_from_slice(&small.d[so..so + 1024]);
        let mut desc = vec![0u8; 1024];
        p32(&mut desc, 0, MAGIC);
        p32(&mut desc, 4, 1);
        p32(&mut desc, 8, SEQ);
        let which = below(nt as u64);
        for i in 0..nt {
            let o = 12 + 16 * i;
            let t = select(i as u64 == which, 24, 100 + i as u64) as u32;
            p32(&mut desc, o, t);
            p32(&mut desc, o + 4, if i + 1 == nt { 10 } else { 2 });
            let d = [b'A' + i as u8; 1024];
            p32(&mut desc, o + 12, data_csum(SEQ, &d));
        }
        let c = tail_csum(&desc);
        p32(&mut desc, 1020, c);
        let o = im.blk(41);
        im.d[o..o + 1024].copy_from_slice(&desc);
        for i in 0..present {
            let o = im.blk(42 + i as u64);
            im.d[o..o + 1024].fill(b'A' + i as u8);
        }
        let mut com = vec![0u8; 1024];
        p32(&mut com, 0, MAGIC);
        p32(&mut com, 4, 2);
        p32(&mut com, 8, SEQ);
        let c = commit_csum(&com);
        p32(&mut com, 16, c);
        let o = im.blk(42 + present as u64);
        im.d[o..o + 1024].copy_from_slice(&com);
        let fs = ok(Dev::new(im.d).load(), 1);
        let c = ok(fs.read("/a"), 2);
        let want = if nt <= present { b'A' + which as u8 } else { b'1' };
        check(c[0] == want && c[1023] == want, 3);
        reach(0);
    }

    /// Many transactions over a file of 64 blocks, every fifth with a revoke
    /// block; the checksum of one transaction's commit block is arbitrary.
    /// params: [transactions, block where the log starts, first sequence,
    /// unused blocks of the journal]
    pub fn h_journal_many() {
        const F: u64 = 64;
        let n = param(0);
        let seq = param(2) as u32;
        let jb = 1 + 3 * n + n.div_ceil(5) + param(3);
        let mut c = cfg(0);
        c.blocks = 210 + jb;
        c.len = (210 + jb as usize) * 1024;
        let mut im = Img::new(c);
        let small = image(0, 8, 1);
        for (a, b) in [(SB, SB + 1024), (4096, 24 * 1024)] {
            im.d[a..b].copy_from_slice(&small.d[a..b]);
        }
        im.p32(SB + 4, (210 + jb) as u32);
        im.file(12, F * 1024, &[(0, F as u16, 100)]);
        im.inode(8, S_REG | 0o600, jb * 1024, FL_EXT);
        im.extents(8, &[(0, jb as u16, 200)]);
        let so = small.blk(jblk(0));
        let o = im.blk(200);
        im.d[o..o + 1024].copy_from_slice(&small.d[so..so + 1024]);
        im.b32(o + 0x10, jb as u32);
        im.b32(o + 0x18, seq);
        im.b32(o + 0x1c, param(1) as u32);
        let c = jsb_csum(&im.d[o..o + 1024]);
        im.b32(o + 0xfc, c);
        for b in 0..F {
            let o = im.blk(100 + b);
            im.d[o..o + 1024].fill(0xee);
            im.d[o..o + 8].copy_from_slice(&(1000 + b).to_le_bytes());
        }
        // A commit block early, in the middle, late or the last one.
        let bad = [1, n / 2, n - 2, n - 1][choose(4) as usize];
        let x = u8s();
        let mut at = param(1);
        let mut want: Vec<u64> = (0..F).map(|b| 1000 + b).collect();
        let mut cut = false;
        for t in 0..n {
            let s = seq + t as u32;
            let mut blocks = Vec::new();
            let target = t * 7 % F;
            let mut data = vec![t as u8; 1024];
            data[..8].copy_from_slice(&(5000 + t).to_le_bytes());
            let mut desc = vec![0u8; 1024];
            p32(&mut desc, 0, MAGIC);
            p32(&mut desc, 4, 1);
            p32(&mut desc, 8, s);
            p32(&mut desc, 12, 100 + target as u32);
            p32(&mut desc, 16, 10);
            p32(&mut desc, 24, data_csum(s, &data));
            let c = tail_csum(&desc);
            p32(&mut desc, 1020, c);
            blocks.push(desc);
            blocks.push(data);
            let revoked = (t * 3 + 1) % F;
            if t % 5 == 0 {
                let mut rev = vec![0u8; 1024];
                p32(&mut rev, 0, MAGIC);
                p32(&mut rev, 4, 5);
                p32(&mut rev, 8, s);
                p32(&mut rev, 12, 24);
                p32(&mut rev, 20, 100 + revoked as u32);
                let c = tail_csum(&rev);
                p32(&mut rev, 1020, c);
                blocks.push(rev);
            }
            let mut com = vec![0u8; 1024];
            p32(&mut com, 0, MAGIC);
            p32(&mut com, 4, 2);
            p32(&mut com, 8, s);
            let c = commit_csum(&com);
            p32(&mut com, 16, c);
            if t == bad {
                com[18] ^= x;
            }
            blocks.push(com);
            for b in blocks {
                let o = im.blk(200 + at);
                im.d[o..o + 1024].copy_from_slice(&b);
                at = if at + 1 == jb { 1 } else { at + 1 };
            }
            cut = cut || (t == bad && x != 0);
            if !cut {
                want[target as usize] = 5000 + t;
                if t % 5 == 0 {
                    want[revoked as usize] = 1000 + revoked;
                }
            }
        }
        if cut {
            reach(1);
        } else {
            reach(0);
        }
        let fs = ok(Dev::new(im.d).load(), 1);
        let c = ok(fs.read("/a"), 2);
        check(c.len() == 64 * 1024, 3);
        for b in 0..F as usize {
            check(c[b * 1024..b * 1024 + 8] == want[b].to_le_bytes(), 4);
            check(c[b * 1024 + 1023] == if want[b] >= 5000 { (want[b] - 5000) as u8 } else { 0xee }, 5);
        }
    }
}
