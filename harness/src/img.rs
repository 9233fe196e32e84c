//! Builds small ext4 images in memory, from the on-disk format documentation.

const fn crc_table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
pub static CRC_TABLE: [u32; 256] = crc_table();
/// crc32c as ext4 uses it: no final inversion, explicit seed.
pub fn crc(seed: u32, b: &[u8]) -> u32 {
    let mut c = seed;
    for x in b {
        c = CRC_TABLE[((c ^ *x as u32) & 0xff) as usize] ^ (c >> 8);
    }
    c
}

pub const RO_CSUM: u32 = 0x400;
pub const INC_FILETYPE: u32 = 0x2;
pub const INC_RECOVER: u32 = 0x4;
pub const INC_EXTENTS: u32 = 0x40;
pub const INC_64BIT: u32 = 0x80;
pub const INC_CSUM_SEED: u32 = 0x2000;
pub const COMPAT_JOURNAL: u32 = 0x4;

pub const S_FIFO: u16 = 0x1000;
pub const S_CHR: u16 = 0x2000;
pub const S_DIR: u16 = 0x4000;
pub const S_BLK: u16 = 0x6000;
pub const S_REG: u16 = 0x8000;
pub const S_LNK: u16 = 0xa000;
pub const S_SOCK: u16 = 0xc000;

pub const FL_EXT: u32 = 0x80000;
pub const FL_HTREE: u32 = 0x1000;
pub const FL_ENC: u32 = 0x800;

#[derive(Clone)]
pub struct Cfg {
    pub log_bs: u32,
    pub blocks: u64,
    pub inode_size: usize,
    pub ipg: u32,
    pub bpg: u32,
    pub compat: u32,
    pub incompat: u32,
    pub ro: u32,
    pub desc_size: usize,
    /// Bytes held by the image (the rest of the device reads as zero or as
    /// the pattern of the device).
    pub len: usize,
    /// First inode table block of group `g` is `itable + g * itable_step`.
    pub itable: u64,
    pub itable_step: u64,
}
impl Cfg {
    pub fn basic() -> Cfg {
        Cfg {
            log_bs: 0,
            blocks: 64,
            inode_size: 128,
            ipg: 16,
            bpg: 8192,
            compat: 0,
            incompat: INC_FILETYPE | INC_EXTENTS,
            ro: 0,
            desc_size: 32,
            len: 64 * 1024,
            itable: 4,
            itable_step: 0,
        }
    }
    pub fn csum() -> Cfg {
        Cfg { ro: RO_CSUM, inode_size: 256, ..Cfg::basic() }
    }
    pub fn bs4k() -> Cfg {
        Cfg { log_bs: 2, blocks: 24, len: 24 * 4096, bpg: 32768, ..Cfg::basic() }
    }
}

pub struct Img {
    pub d: Vec<u8>,
    pub c: Cfg,
    pub bs: usize,
}

pub const SB: usize = 1024;

impl Img {
    pub fn new(c: Cfg) -> Img {
        let bs = 1024usize << c.log_bs;
        let mut im = Img { d: vec![0; c.len], bs, c };
        let c = im.c.clone();
        im.p32(SB, 4096);
        im.p32(SB + 4, c.blocks as u32);
        im.p32(SB + 0x14, if c.log_bs == 0 { 1 } else { 0 });
        im.p32(SB + 0x18, c.log_bs);
        im.p32(SB + 0x20, c.bpg);
        im.p32(SB + 0x28, c.ipg);
        im.p16(SB + 0x38, 0xef53);
        im.p32(SB + 0x4c, 1);
        im.p16(SB + 0x58, c.inode_size as u16);
        im.p32(SB + 0x5c, c.compat);
        im.p32(SB + 0x60, c.incompat);
        im.p32(SB + 0x64, c.ro);
        for i in 0..16 {
            im.d[SB + 0x68 + i] = 0xa0 + i as u8;
        }
        im.p32(SB + 0xec, 0x1234_5678);
        im.p32(SB + 0xf0, 0x9abc_def0);
        im.p32(SB + 0xf4, 0x0fed_cba9);
        im.p32(SB + 0xf8, 0x8765_4321);
        im.p16(SB + 0xfe, c.desc_size as u16);
        if c.incompat & INC_64BIT != 0 {
            im.p32(SB + 0x150, (c.blocks >> 32) as u32);
        }
        im.d[SB + 0x175] = 1; // crc32c
        let ng = im.groups();
        for g in 0..ng {
            let o = im.bgd(g);
            let t = c.itable + g as u64 * c.itable_step;
            im.p32(o + 8, t as u32);
            if c.incompat & INC_64BIT != 0 && c.desc_size > 0x2c {
                im.p32(o + 0x28, (t >> 32) as u32);
            }
        }
        im
    }
    pub fn groups(&self) -> u32 {
        let first = if self.c.log_bs == 0 { 1 } else { 0 };
        ((self.c.blocks - first).div_ceil(self.c.bpg as u64)) as u32
    }
    pub fn p8(&mut self, o: usize, v: u8) {
        self.d[o] = v;
    }
    pub fn p16(&mut self, o: usize, v: u16) {
        self.d[o..o + 2].copy_from_slice(&v.to_le_bytes());
    }
    pub fn p32(&mut self, o: usize, v: u32) {
        self.d[o..o + 4].copy_from_slice(&v.to_le_bytes());
    }
    pub fn b32(&mut self, o: usize, v: u32) {
        self.d[o..o + 4].copy_from_slice(&v.to_be_bytes());
    }
    pub fn b16(&mut self, o: usize, v: u16) {
        self.d[o..o + 2].copy_from_slice(&v.to_be_bytes());
    }
    pub fn g32(&self, o: usize) -> u32 {
        u32::from_le_bytes([self.d[o], self.d[o + 1], self.d[o + 2], self.d[o + 3]])
    }
    pub fn g16(&self, o: usize) -> u16 {
        u16::from_le_bytes([self.d[o], self.d[o + 1]])
    }
    pub fn blk(&self, b: u64) -> usize {
        b as usize * self.bs
    }
    pub fn bgd_start(&self) -> usize {
        if self.c.log_bs == 0 { 2048 } else { self.bs }
    }
    pub fn bgd(&self, g: u32) -> usize {
        let sz = if self.c.incompat & INC_64BIT != 0 { self.c.desc_size } else { 32 };
        self.bgd_start() + g as usize * sz
    }
    pub fn ioff(&self, ino: u32) -> usize {
        let g = (ino - 1) / self.c.ipg;
        let i = (ino - 1) % self.c.ipg;
        let t = self.c.itable + g as u64 * self.c.itable_step;
        t as usize * self.bs + i as usize * self.c.inode_size
    }
    pub fn inode(&mut self, ino: u32, mode: u16, size: u64, flags: u32) -> usize {
        let o = self.ioff(ino);
        self.p16(o, mode);
        self.p32(o + 4, size as u32);
        self.p32(o + 0x6c, (size >> 32) as u32);
        self.p16(o + 0x1a, 1);
        self.p32(o + 0x20, flags);
        if self.c.inode_size > 128 {
            self.p16(o + 0x80, 32);
        }
        o
    }
    pub fn set_size(&mut self, ino: u32, size: u64) {
        let o = self.ioff(ino);
        self.p32(o + 4, size as u32);
        self.p32(o + 0x6c, (size >> 32) as u32);
    }
    /// Extent node header at absolute offset.
    pub fn ehdr(&mut self, o: usize, entries: u16, max: u16, depth: u16) {
        self.p16(o, 0xf30a);
        self.p16(o + 2, entries);
        self.p16(o + 4, max);
        self.p16(o + 6, depth);
    }
    /// Leaf extent `i` of the node at `o`.
    pub fn eleaf(&mut self, o: usize, i: usize, log: u32, len: u16, phys: u64) {
        let e = o + 12 + 12 * i;
        self.p32(e, log);
        self.p16(e + 4, len);
        self.p16(e + 6, (phys >> 32) as u16);
        self.p32(e + 8, phys as u32);
    }
    /// Index entry `i` of the node at `o`.
    pub fn eidx(&mut self, o: usize, i: usize, log: u32, child: u64) {
        let e = o + 12 + 12 * i;
        self.p32(e, log);
        self.p32(e + 4, child as u32);
        self.p16(e + 8, (child >> 32) as u16);
    }
    pub fn extents(&mut self, ino: u32, ex: &[(u32, u16, u64)]) {
        let o = self.ioff(ino) + 0x28;
        self.ehdr(o, ex.len() as u16, 4, 0);
        for (i, e) in ex.iter().enumerate() {
            self.eleaf(o, i, e.0, e.1, e.2);
        }
    }
    /// Regular file inode with extents.
    pub fn file(&mut self, ino: u32, size: u64, ex: &[(u32, u16, u64)]) {
        self.inode(ino, S_REG | 0o644, size, FL_EXT);
        self.extents(ino, ex);
    }
    /// Directory inode over the given data blocks (one extent each).
    pub fn dir(&mut self, ino: u32, blocks: &[u64]) {
        self.inode(ino, S_DIR | 0o755, (blocks.len() * self.bs) as u64, FL_EXT);
        let o = self.ioff(ino) + 0x28;
        self.ehdr(o, blocks.len() as u16, 4, 0);
        for (i, b) in blocks.iter().enumerate() {
            self.eleaf(o, i, i as u32, 1, *b);
        }
    }
    pub fn dirent(&mut self, o: usize, ino: u32, rec: u16, ty: u8, name: &[u8]) {
        self.p32(o, ino);
        self.p16(o + 4, rec);
        self.d[o + 6] = name.len() as u8;
        self.d[o + 7] = ty;
        self.d[o + 8..o + 8 + name.len()].copy_from_slice(name);
    }
    /// Fills directory block `b` with entries; the last one takes the rest.
    pub fn dirblock(&mut self, b: u64, ents: &[(u32, u8, &[u8])]) {
        let tail = if self.c.ro & RO_CSUM != 0 { 12 } else { 0 };
        let base = self.blk(b);
        let end = self.bs - tail;
        let mut o = 0;
        for (i, e) in ents.iter().enumerate() {
            let need = (8 + e.2.len() + 3) & !3;
            let rec = if i + 1 == ents.len() { end - o } else { need };
            self.dirent(base + o, e.0, rec as u16, e.1, e.2);
            o += rec;
        }
        if tail != 0 {
            let t = base + self.bs - 12;
            self.p32(t, 0);
            self.p16(t + 4, 12);
            self.d[t + 6] = 0;
            self.d[t + 7] = 0xde;
        }
    }
    /// Symbolic link with inline target.
    pub fn symlink(&mut self, ino: u32, target: &[u8]) {
        let o = self.inode(ino, S_LNK | 0o777, target.len() as u64, 0);
        self.d[o + 0x28..o + 0x28 + target.len()].copy_from_slice(target);
    }

    // Checksums.
    pub fn seed(&self) -> u32 {
        if self.c.incompat & INC_CSUM_SEED != 0 {
            self.g32(SB + 0x270)
        } else {
            crc(!0, &self.d[SB + 0x68..SB + 0x78])
        }
    }
    pub fn sb_csum(&self) -> u32 {
        crc(!0, &self.d[SB..SB + 0x3fc])
    }
    pub fn bgd_csum(&self, g: u32) -> u16 {
        let o = self.bgd(g);
        let sz = if self.c.incompat & INC_64BIT != 0 { self.c.desc_size } else { 32 };
        let mut c = crc(self.seed(), &g.to_le_bytes());
        c = crc(c, &self.d[o..o + 0x1e]);
        c = crc(c, &[0, 0]);
        if sz > 0x20 {
            c = crc(c, &self.d[o + 0x20..o + sz]);
        }
        c as u16
    }
    pub fn inode_seed(&self, ino: u32) -> u32 {
        let o = self.ioff(ino);
        let c = crc(self.seed(), &ino.to_le_bytes());
        crc(c, &self.d[o + 0x64..o + 0x68])
    }
    /// The upper half is stored only where the extra fields reach over it;
    /// elsewhere its place is like any other.
    pub fn inode_csum(&self, ino: u32) -> u32 {
        let o = self.ioff(ino);
        let sz = self.c.inode_size;
        if !self.inode_hi(ino) {
            let mut c = self.inode_seed(ino);
            c = crc(c, &self.d[o..o + 0x7c]);
            c = crc(c, &[0, 0]);
            return crc(c, &self.d[o + 0x7e..o + sz]) & 0xffff;
        }
        let mut c = self.inode_seed(ino);
        c = crc(c, &self.d[o..o + 0x7c]);
        c = crc(c, &[0, 0]);
        c = crc(c, &self.d[o + 0x7e..o + 0x80]);
        c = crc(c, &self.d[o + 0x80..o + 0x82]);
        c = crc(c, &[0, 0]);
        crc(c, &self.d[o + 0x84..o + sz])
    }
    pub fn inode_hi(&self, ino: u32) -> bool {
        self.c.inode_size > 128 && self.g16(self.ioff(ino) + 0x80) >= 4
    }
    pub fn fix_sb(&mut self) {
        let c = self.sb_csum();
        self.p32(SB + 0x3fc, c);
    }
    pub fn fix_bgd(&mut self, g: u32) {
        let c = self.bgd_csum(g);
        let o = self.bgd(g);
        self.p16(o + 0x1e, c);
    }
    pub fn fix_inode(&mut self, ino: u32) {
        let c = self.inode_csum(ino);
        let o = self.ioff(ino);
        self.p16(o + 0x7c, c as u16);
        if self.inode_hi(ino) {
            self.p16(o + 0x82, (c >> 16) as u16);
        }
    }
    /// Tail checksum of a plain directory block.
    pub fn fix_dirblock(&mut self, ino: u32, b: u64) {
        let o = self.blk(b);
        let c = crc(self.inode_seed(ino), &self.d[o..o + self.bs - 12]);
        self.p32(o + self.bs - 4, c);
    }
    /// Checksum of an htree node whose count/limit are at `cl` in the block.
    pub fn fix_dx(&mut self, ino: u32, b: u64, cl: usize) {
        let o = self.blk(b);
        let limit = self.g16(o + cl) as usize;
        let count = self.g16(o + cl + 2) as usize;
        let mut c = crc(self.inode_seed(ino), &self.d[o..o + cl + 8 * count]);
        let t = o + cl + 8 * limit;
        c = crc(c, &self.d[t..t + 4]);
        c = crc(c, &[0; 4]);
        self.p32(t + 4, c);
    }
    /// Checksum of a non-inode extent node.
    pub fn fix_enode(&mut self, ino: u32, b: u64) {
        let o = self.blk(b);
        let max = self.g16(o + 4) as usize;
        let c = crc(self.inode_seed(ino), &self.d[o..o + 12 + 12 * max]);
        self.p32(o + 12 + 12 * max, c);
    }
    /// All fixed-place checksums of superblock, descriptors and the given
    /// inodes (does nothing without metadata checksums).
    pub fn fix(&mut self, inos: &[u32]) {
        if self.c.ro & RO_CSUM == 0 {
            return;
        }
        self.fix_sb();
        for g in 0..self.groups() {
            self.fix_bgd(g);
        }
        for i in inos {
            self.fix_inode(*i);
        }
    }
}
