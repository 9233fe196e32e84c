//! Superblock: acceptance decisions, features, label/UUID, descriptors.
super::entries! { h_sb_decide h_sb_irrelevant }

mod imp {
    use super::super::dev::*;
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;

    const SUPPORTED_INCOMPAT: u32 = 0x2 | 0x4 | 0x40 | 0x80 | 0x200 | 0x2000 | 0x1_0000;

    fn r32(b: &[u8], o: usize) -> u32 {
        u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
    }
    fn r16(b: &[u8], o: usize) -> u16 {
        u16::from_le_bytes([b[o], b[o + 1]])
    }

    /// A superblock of 1024 arbitrary bytes on a device that ends right after
    /// it. params: [log_bs or 255 for "any other", csum 0/1, blocks per group
    /// or 0 for "any, with fewer than 2^32 blocks"].
    pub fn h_sb_decide() {
        let lb = param(0) as u32;
        let csum = param(1) == 1;
        let mut sb = vec![0u8; 1024];
        fill(&mut sb);
        if lb != 255 {
            sb[0x18..0x1c].copy_from_slice(&lb.to_le_bytes());
        } else {
            assume(r32(&sb, 0x18) > 6);
        }
        // Division by a symbolic group size is hard for the solver: either
        // fewer than 2^32 blocks, or one concrete group size.
        let g = param(2) as u32;
        if g == 0 {
            sb[0x150..0x154].fill(0);
        } else {
            sb[0x20..0x24].copy_from_slice(&g.to_le_bytes());
        }
        let ro = r32(&sb, 0x64);
        assume((ro & RO_CSUM != 0) == csum);
        let mut d = vec![0u8; 1024];
        d.extend_from_slice(&sb);
        let dev = Dev::new(d);

        // Reference decision, from the on-disk format.
        let inc = r32(&sb, 0x60);
        let compat = r32(&sb, 0x5c);
        let magic = r16(&sb, 0x38);
        let blocks = r32(&sb, 4) as u64 | (r32(&sb, 0x150) as u64) << 32;
        let first = r32(&sb, 0x14) as u64;
        let bpg = r32(&sb, 0x20) as u64;
        let ipg = r32(&sb, 0x28);
        let isz = r16(&sb, 0x58);
        let bs: u64 = if lb == 255 { 0 } else { 1024 << lb };
        let bad_inc = (inc & !SUPPORTED_INCOMPAT != 0) | (inc & 2 == 0);
        let mut bad = lb == 255;
        bad |= magic != 0xef53;
        bad |= first > blocks;
        bad |= bpg == 0;
        bad |= ipg == 0;
        bad |= isz as u64 > bs;
        let journal = (compat & 4 != 0) & (inc & 4 != 0);
        bad |= journal & (r32(&sb, 0xe0) == 0);
        // Group count needs 33 bits or more.
        let groups_big = (blocks >= first) & (bpg != 0) & (blocks.wrapping_sub(first) > bpg.wrapping_mul(0xffff_ffff));
        bad |= groups_big;
        // Without any block group there is nothing further to read.
        assume((first != blocks) | bad | bad_inc);
        if csum {
            bad |= r32(&sb, 0x3fc) != crc(!0, &sb[..0x3fc]);
        }
        let dsz = r16(&sb, 0xfe) as u64;
        let is64 = inc & 0x80 != 0;
        let dsz_bad = is64 & ((dsz < 64) | (dsz > bs));
        let dsz_odd = is64 & ((dsz > 1024) | (dsz & dsz.wrapping_sub(1) != 0));

        let r = dev.load();
        let k = rk(&r);
        note(0, k as u64);
        match k {
            K::Io => {
                // Accepted; the descriptors are past the end of the device.
                reach(0);
                check(!bad & !bad_inc, 1);
                check(!dsz_bad, 2);
            }
            K::Corrupt => {
                reach(1);
                check(bad | dsz_bad | dsz_odd, 3);
            }
            K::Incompat => {
                reach(2);
                check(bad_inc, 4);
            }
            _ => check(false, 5),
        }
    }

    /// A good image whose superblock bytes outside the fields that define the
    /// geometry are arbitrary.
    pub fn h_sb_irrelevant() {
        let mut im = Img::new(Cfg::basic());
        im.dir(2, &[20]);
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"f")]);
        im.file(12, 5, &[(0, 1, 21)]);
        let o = im.blk(21);
        im.d[o..o + 5].copy_from_slice(b"hello");
        let keep: [(usize, usize); 13] = [
            (0x4, 4), (0x14, 4), (0x18, 4), (0x20, 4), (0x28, 4), (0x38, 2), (0x58, 2),
            (0x5c, 4), (0x60, 4), (0x64, 4), (0x150, 4), (0xe0, 4), (0xfe, 2),
        ];
        let mut sb = vec![0u8; 1024];
        fill(&mut sb);
        for (a, n) in keep {
            sb[a..a + n].copy_from_slice(&im.d[SB + a..SB + a + n]);
        }
        im.d[SB..SB + 1024].copy_from_slice(&sb);
        let dev = Dev::new(im.d);
        let fs = ok(dev.load(), 1);
        let c = ok(fs.read("/f"), 2);
        check(c == b"hello", 3);
        check(eq_bytes(fs.uuid().as_bytes(), &sb[0x68..0x78]), 4);
        check(eq_bytes(fs.label().as_bytes(), &sb[0x78..0x88]), 5);
        reach(0);
    }
}
