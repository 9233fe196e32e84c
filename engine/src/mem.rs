//! Byte-granular copy-on-write memory with symbolic overlay.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PAGE: usize = 256;

#[derive(Clone)]
pub struct Page {
    pub data: Box<[u8]>,
    pub sym: Option<Box<[Ex]>>,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub pages: Vec<Rc<Page>>,
    pub ro: bool,
    pub tag: u32,
}

thread_local! {
    static ZERO: Rc<Page> = Rc::new(Page { data: vec![0u8; PAGE].into_boxed_slice(), sym: None });
}

impl Obj {
    pub fn zeroed(size: u64, tag: u32) -> Obj {
        let mut pages = vec![];
        let mut left = size as usize;
        while left >= PAGE {
            pages.push(ZERO.with(|z| z.clone()));
            left -= PAGE;
        }
        if left > 0 {
            pages.push(Rc::new(Page { data: vec![0u8; left].into_boxed_slice(), sym: None }));
        }
        Obj { size, pages, ro: false, tag }
    }
    pub fn from_bytes(b: &[u8], ro: bool) -> Obj {
        let pages = b
            .chunks(PAGE)
            .map(|c| Rc::new(Page { data: c.to_vec().into_boxed_slice(), sym: None }))
            .collect();
        Obj { size: b.len() as u64, pages, ro, tag: 0 }
    }
    /// concrete read; None when some byte is symbolic
    #[inline]
    pub fn read_conc(&self, off: u64, n: u64) -> Option<u128> {
        let (off, n) = (off as usize, n as usize);
        let (pi, po) = (off / PAGE, off % PAGE);
        let pg = &self.pages[pi];
        if po + n <= pg.data.len() && pg.sym.is_none() {
            let d = &pg.data[po..po + n];
            return Some(match n {
                1 => d[0] as u128,
                2 => u16::from_le_bytes([d[0], d[1]]) as u128,
                4 => u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u128,
                8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
                _ => {
                    let mut r = 0u128;
                    for i in (0..n).rev() {
                        r = (r << 8) | d[i] as u128;
                    }
                    r
                }
            });
        }
        let mut r = 0u128;
        for i in (0..n).rev() {
            let (b, s) = self.byte(off + i);
            if s != NONE {
                return None;
            }
            r = (r << 8) | b as u128;
        }
        Some(r)
    }
    #[inline]
    pub fn byte(&self, off: usize) -> (u8, Ex) {
        let pg = &self.pages[off / PAGE];
        let po = off % PAGE;
        let s = match &pg.sym {
            Some(s) => s[po],
            None => NONE,
        };
        (pg.data[po], s)
    }
    pub fn read_sym(&self, ctx: &mut Ctx, off: u64, n: u64) -> Ex {
        let mut r = NONE;
        for i in 0..n {
            let (b, s) = self.byte((off + i) as usize);
            let e = if s != NONE { s } else { ctx.konst(b as u128, 8) };
            r = if r == NONE { e } else { ctx.concat(e, r) };
        }
        r
    }
    pub fn write_conc(&mut self, off: u64, n: u64, v: u128) {
        let (off, n) = (off as usize, n as usize);
        let mut i = 0;
        while i < n {
            let o = off + i;
            let (pi, po) = (o / PAGE, o % PAGE);
            let pg = Rc::make_mut(&mut self.pages[pi]);
            let k = (pg.data.len() - po).min(n - i);
            for j in 0..k {
                let sh = 8 * (i + j);
                pg.data[po + j] = if sh < 128 { (v >> sh) as u8 } else { 0 };
            }
            if let Some(s) = &mut pg.sym {
                for j in 0..k {
                    s[po + j] = NONE;
                }
            }
            i += k;
        }
    }
    pub fn write_byte(&mut self, off: usize, b: u8, e: Ex) {
        let pg = Rc::make_mut(&mut self.pages[off / PAGE]);
        let po = off % PAGE;
        pg.data[po] = b;
        match &mut pg.sym {
            Some(s) => s[po] = e,
            None => {
                if e != NONE {
                    let mut s = vec![NONE; pg.data.len()].into_boxed_slice();
                    s[po] = e;
                    pg.sym = Some(s);
                }
            }
        }
    }
    pub fn write_sym(&mut self, ctx: &mut Ctx, off: u64, n: u64, e: Ex) {
        for i in 0..n {
            let b = ctx.extract(e, 8 * i as u32, 8);
            match ctx.as_const(b) {
                Some(k) => self.write_byte((off + i) as usize, k as u8, NONE),
                None => self.write_byte((off + i) as usize, 0, b),
            }
        }
    }
    pub fn copy_out(&self, off: u64, n: u64) -> (Vec<u8>, Option<Vec<Ex>>) {
        let (mut o, mut left) = (off as usize, n as usize);
        let mut d = Vec::with_capacity(left);
        let mut s: Option<Vec<Ex>> = None;
        while left > 0 {
            let pg = &self.pages[o / PAGE];
            let po = o % PAGE;
            let k = (pg.data.len() - po).min(left);
            if let Some(ps) = &pg.sym {
                let sv = s.get_or_insert_with(|| vec![NONE; d.len()]);
                sv.extend_from_slice(&ps[po..po + k]);
            } else if let Some(sv) = &mut s {
                sv.resize(d.len() + k, NONE);
            }
            d.extend_from_slice(&pg.data[po..po + k]);
            o += k;
            left -= k;
        }
        (d, s)
    }
    pub fn copy_in(&mut self, off: u64, d: &[u8], s: Option<&[Ex]>) {
        let mut i = 0;
        let n = d.len();
        while i < n {
            let o = off as usize + i;
            let pg = Rc::make_mut(&mut self.pages[o / PAGE]);
            let po = o % PAGE;
            let k = (pg.data.len() - po).min(n - i);
            pg.data[po..po + k].copy_from_slice(&d[i..i + k]);
            match s {
                Some(s) if s[i..i + k].iter().any(|x| *x != NONE) => {
                    let len = pg.data.len();
                    let ps = pg.sym.get_or_insert_with(|| vec![NONE; len].into_boxed_slice());
                    ps[po..po + k].copy_from_slice(&s[i..i + k]);
                }
                _ => {
                    if let Some(ps) = &mut pg.sym {
                        for j in 0..k {
                            ps[po + j] = NONE;
                        }
                        if ps.iter().all(|x| *x == NONE) {
                            pg.sym = None;
                        }
                    }
                }
            }
            i += k;
        }
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
    pub bytes: u64,
}

impl Mem {
    pub fn alloc(&mut self, size: u64, align: u64, tag: u32) -> u64 {
        let al = align.max(16);
        let a = (self.next + al - 1) / al * al;
        self.next = a + size + 32;
        self.objs.insert(a, Rc::new(Obj::zeroed(size, tag)));
        self.bytes += size;
        a
    }
    #[inline]
    pub fn find(&self, addr: u64) -> Option<(u64, &Rc<Obj>)> {
        let (b, o) = self.objs.range(..=addr).next_back()?;
        if addr - b < o.size || (o.size == 0 && addr == *b) {
            Some((*b, o))
        } else {
            None
        }
    }
}
