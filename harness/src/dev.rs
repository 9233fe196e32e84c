//! The block device shown to the crate.
use super::prim::*;
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::rc::Rc;

pub struct St {
    pub data: RefCell<Vec<u8>>,
    /// Device length in bytes.
    pub len: Cell<u64>,
    /// Beyond the stored bytes every 1024-byte unit starts with its own
    /// absolute byte position (8 bytes LE).
    pub pattern: Cell<bool>,
    pub reads: Cell<u64>,
    pub bytes: Cell<u64>,
    /// Fail the nth read from now (0 = the next), u64::MAX = never.
    pub fail_at: Cell<u64>,
    /// After failing, keep failing.
    pub sticky: Cell<bool>,
    pub failed: Cell<u64>,
    /// On a failing read, overwrite this many bytes of the buffer first.
    pub scribble: Cell<bool>,
    /// Assert that reads stay in [1024, limit).
    pub limit: Cell<u64>,
    /// If not empty, what every block beyond the stored bytes contains
    /// (reads there must be whole blocks).
    pub uniform: RefCell<Vec<u8>>,
    /// Only consider reads beyond the stored bytes, or at concrete places.
    pub beyond: Cell<bool>,
    /// Beyond the stored bytes there are only inodes (128 bytes, regular
    /// files) whose size (low 40 bits) and owner (16 bits) are their own
    /// position / 128.
    pub inodes: Cell<bool>,
    /// If the length is not zero: reads that start at the first number
    /// (beyond the stored bytes) see there this many bytes of the stored
    /// data from the last number.
    pub alias: Cell<(u64, usize, usize)>,
}

#[derive(Clone)]
pub struct Dev(pub Rc<St>);

#[derive(Debug)]
pub struct DevErr(pub u32);
impl std::fmt::Display for DevErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("device error")
    }
}
impl Error for DevErr {}

pub const A_BOUNDS: u32 = 900;

impl Dev {
    pub fn new(data: Vec<u8>) -> Dev {
        let len = data.len() as u64;
        Dev(Rc::new(St {
            data: RefCell::new(data),
            len: Cell::new(len),
            pattern: Cell::new(false),
            reads: Cell::new(0),
            bytes: Cell::new(0),
            fail_at: Cell::new(u64::MAX),
            sticky: Cell::new(false),
            failed: Cell::new(0),
            scribble: Cell::new(false),
            limit: Cell::new(0),
            uniform: RefCell::new(Vec::new()),
            beyond: Cell::new(false),
            inodes: Cell::new(false),
            alias: Cell::new((0, 0, 0)),
        }))
    }
    pub fn boxed(&self) -> Box<dyn ext4_view::Ext4Read> {
        Box::new(self.clone())
    }
    pub fn load(&self) -> Result<ext4_view::Ext4, ext4_view::Ext4Error> {
        ext4_view::Ext4::load(self.boxed())
    }
}

fn synth(dst: &mut [u8], start: u64) {
    let mut o = 0;
    while o + 128 <= dst.len() {
        let u = (start + o as u64) / 128;
        dst[o + 1] = 0x80;
        dst[o + 4..o + 8].copy_from_slice(&(u as u32).to_le_bytes());
        dst[o + 0x6c] = (u >> 32) as u8;
        dst[o + 2] = (u >> 40) as u8;
        dst[o + 3] = (u >> 48) as u8;
        o += 128;
    }
}

impl ext4_view::Ext4Read for Dev {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn Error + Send + Sync>> {
        let s = &*self.0;
        let n = s.reads.get();
        s.reads.set(n + 1);
        s.bytes.set(s.bytes.get() + dst.len() as u64);
        let len = dst.len() as u64;
        if s.limit.get() != 0 {
            let ok = start >= 1024 && start <= s.limit.get() && len <= s.limit.get().wrapping_sub(start);
            check(ok, A_BOUNDS);
        }
        if n == s.fail_at.get() || (s.sticky.get() && n > s.fail_at.get()) {
            s.failed.set(s.failed.get() + 1);
            if s.scribble.get() {
                dst.fill(0x5a);
            }
            return Err(Box::new(DevErr(7)));
        }
        let end = match start.checked_add(len) {
            Some(e) if e <= s.len.get() => e,
            _ => return Err(Box::new(DevErr(1))),
        };
        let data = s.data.borrow();
        let stored = data.len() as u64;
        if s.beyond.get() && is_symbolic(start) {
            assume(start >= stored);
        }
        if end <= stored {
            let a = concretize(start) as usize;
            dst.copy_from_slice(&data[a..a + dst.len()]);
        } else if start >= stored && !s.uniform.borrow().is_empty() {
            let u = s.uniform.borrow();
            for c in dst.chunks_mut(u.len()) {
                c.copy_from_slice(&u[..c.len()]);
            }
        } else if start >= stored && s.inodes.get() {
            dst.fill(0);
            synth(dst, start);
        } else if start >= stored {
            dst.fill(0);
            if s.pattern.get() {
                let mut o = 0;
                while o + 8 <= dst.len() {
                    dst[o..o + 8].copy_from_slice(&(start + o as u64).to_le_bytes());
                    o += 1024;
                }
            }
            let (at, n, from) = s.alias.get();
            if n != 0 && start == at && n <= dst.len() {
                dst[..n].copy_from_slice(&data[from..from + n]);
            }
        } else {
            let a = concretize(start) as usize;
            let k = data.len() - a;
            dst[..k].copy_from_slice(&data[a..]);
            dst[k..].fill(0);
            if s.inodes.get() {
                synth(&mut dst[k..], stored);
            }
            if s.pattern.get() {
                let mut o = (k + 1023) / 1024 * 1024;
                while o + 8 <= dst.len() {
                    dst[o..o + 8].copy_from_slice(&(start + o as u64).to_le_bytes());
                    o += 1024;
                }
            }
        }
        Ok(())
    }
}
