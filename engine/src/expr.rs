//! Hash-consed bit-vector expressions with eager simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

/// FxHash-style hasher.
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x51_7c_c1_b7_27_22_0a_95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Concat,
    Extract, // aux = low bit
    SExt,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    /// GF(2)-linear form: k indexes `Ctx::lins`
    Lin,
}

pub type Ex = u32;
pub const NONE: Ex = 0;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u128, // const value / var index / extract low bit
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// `konst ^ xor over terms of (bit of base ? column : 0)`, terms sorted by (base, bit).
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct LinData {
    pub konst: u64,
    pub terms: Vec<(Ex, u32, u64)>,
}

pub struct Ctx {
    pub lins: Vec<std::rc::Rc<LinData>>,
    lin_map: FxMap<(u32, std::rc::Rc<LinData>), Ex>,
    pub nodes: Vec<Node>,
    map: FxMap<Node, Ex>,
    range: Vec<(u128, u128)>,
    /// id of the variable set of each node
    pub vset: Vec<u32>,
    pub sets: Vec<Box<[u32]>>,
    set_map: HashMap<Box<[u32]>, u32>,
    set_union: FxMap<(u32, u32), u32>,
    /// saturating tree size estimate
    pub size: Vec<u32>,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
    depth: u32,
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            lins: vec![],
            lin_map: Default::default(),
            nodes: vec![],
            map: Default::default(),
            range: vec![],
            vset: vec![],
            sets: vec![Box::new([])],
            set_map: Default::default(),
            set_union: Default::default(),
            size: vec![],
            memo_gen: vec![],
            memo_val: vec![],
            gen: 0,
            depth: 0,
        };
        c.set_map.insert(Box::new([]), 0);
        // node 0 is reserved as "none"
        c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        c.range.push((0, 0));
        c.vset.push(0);
        c.size.push(0);
        c.memo_gen.push(0);
        c.memo_val.push(0);
        c
    }
    #[inline]
    pub fn w(&self, e: Ex) -> u32 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn as_const(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(x) = self.set_union.get(&key) {
            return *x;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let id = self.intern_set(v.into_boxed_slice());
        self.set_union.insert(key, id);
        id
    }
    fn intern_set(&mut self, s: Box<[u32]>) -> u32 {
        if let Some(i) = self.set_map.get(&s) {
            return *i;
        }
        let id = self.sets.len() as u32;
        self.sets.push(s.clone());
        self.set_map.insert(s, id);
        id
    }
    pub fn rng(&self, e: Ex) -> (u128, u128) {
        self.range[e as usize]
    }
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as u32;
        let full = (0, mask(n.w));
        let ra = self.range[n.a as usize];
        let rb = self.range[n.b as usize];
        let rc = self.range[n.c as usize];
        let r = match n.op {
            Op::Const => (n.k, n.k),
            Op::Concat => {
                let wl = self.w(n.b);
                ((ra.0 << wl) | rb.0, (ra.1 << wl) | rb.1)
            }
            Op::Extract => {
                let lo = n.k as u32;
                let (l, h) = (ra.0 >> lo, ra.1 >> lo);
                if h <= mask(n.w) {
                    (l, h)
                } else {
                    full
                }
            }
            Op::Add => match (ra.0.checked_add(rb.0), ra.1.checked_add(rb.1)) {
                (Some(l), Some(h)) if h <= mask(n.w) => (l, h),
                (Some(l), Some(h)) if n.w < 127 && l > mask(n.w) && h <= 2 * mask(n.w) + 1 => {
                    (l & mask(n.w), h & mask(n.w))
                }
                _ => full,
            },
            Op::Mul => match (ra.0.checked_mul(rb.0), ra.1.checked_mul(rb.1)) {
                (Some(l), Some(h)) if h <= mask(n.w) => (l, h),
                _ => full,
            },
            Op::UDiv => {
                if rb.0 > 0 {
                    (ra.0 / rb.1, ra.1 / rb.0)
                } else {
                    full
                }
            }
            Op::URem => {
                if rb.0 > 0 {
                    (0, ra.1.min(rb.1 - 1))
                } else {
                    full
                }
            }
            Op::And => (0, ra.1.min(rb.1)),
            Op::Or => {
                let m = ra.1 | rb.1;
                (ra.0.max(rb.0), if m == 0 { 0 } else { mask(128 - m.leading_zeros()) })
            }
            Op::Xor => {
                let m = ra.1 | rb.1;
                (0, if m == 0 { 0 } else { mask(128 - m.leading_zeros()) })
            }
            Op::LShr => (0, ra.1),
            Op::Lin => {
                let d = &self.lins[n.k as usize];
                let any = d.terms.iter().fold(0, |m, t| m | t.2);
                ((d.konst & !any) as u128, (d.konst | any) as u128)
            }
            Op::Ite => (rb.0.min(rc.0), rb.1.max(rc.1)),
            _ => full,
        };
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => self.intern_set(Box::new([n.k as u32])),
            Op::Lin => {
                let d = self.lins[n.k as usize].clone();
                let mut v: Vec<u32> = vec![];
                let mut last = NONE;
                for t in &d.terms {
                    if t.0 != last {
                        last = t.0;
                        v.extend(self.sets[self.vset[last as usize] as usize].iter());
                    }
                }
                v.sort_unstable();
                v.dedup();
                self.intern_set(v.into_boxed_slice())
            }
            _ => {
                let (x, y, z) = (self.vset[n.a as usize], self.vset[n.b as usize], self.vset[n.c as usize]);
                let t = self.union(x, y);
                self.union(t, z)
            }
        };
        let sz = (if n.op == Op::Lin { self.lins[n.k as usize].terms.len() as u32 + 1 } else { 1u32 })
            .saturating_add(self.size[n.a as usize])
            .saturating_add(self.size[n.b as usize])
            .saturating_add(self.size[n.c as usize]);
        self.nodes.push(n);
        self.range.push(r);
        self.vset.push(vs);
        self.size.push(sz);
        self.memo_gen.push(0);
        self.memo_val.push(0);
        self.map.insert(n, id);
        id
    }
    pub fn konst(&mut self, k: u128, w: u32) -> Ex {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: u32) -> Ex {
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    fn n2(&mut self, op: Op, w: u32, a: Ex, b: Ex) -> Ex {
        let e = self.mk(Node { op, w, a, b, c: 0, k: 0 });
        // interval collapse
        let (l, h) = self.range[e as usize];
        if l == h && self.nodes[e as usize].op != Op::Const {
            return self.konst(l, w);
        }
        e
    }
    pub fn tru(&mut self) -> Ex {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> Ex {
        self.konst(0, 1)
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        let z = self.konst(0, w - wa);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(sext(k, wa) as u128, w);
        }
        let (_, hi) = self.rng(a);
        if hi < (1u128 << (wa - 1)) {
            return self.zext(a, w);
        }
        if wa == 1 {
            let o = self.konst(u128::MAX, w);
            let z = self.konst(0, w);
            return self.ite(a, o, z);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.as_const(hi), self.as_const(lo)) {
            return self.konst((a << wl) | b, w);
        }
        let (nh, nl) = (self.n(hi), self.n(lo));
        if w <= 64 && (nh.op == Op::Lin || nl.op == Op::Lin) {
            let mut d = self.to_lin(lo);
            let h = self.to_lin(hi);
            for t in &h.terms {
                Self::lin_add(&mut d, t.0, t.1, t.2 << wl);
            }
            d.konst ^= h.konst << wl;
            return self.mk_lin(d, w);
        }
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // the low part need not look like an extract
        if nh.op == Op::Extract && matches!(self.nodes[nh.a as usize].op, Op::Add | Op::Mul | Op::Ite) {
            let m = if nl.op == Op::Concat { nl.a } else { lo };
            let wm = self.w(m);
            if nh.k >= wm as u128 && self.extract(nh.a, nh.k as u32 - wm, wm) == m {
                let t = self.extract(nh.a, nh.k as u32 - wm, wm + wh);
                return if m == lo { t } else { self.concat(t, nl.b) };
            }
        }
        // hi = extract(x, wx..), lo = x  where lo itself covers low part
        if nh.op == Op::Extract && nl.op == Op::Concat {
            let m = self.n(nl.a);
            if m.op == Op::Extract && m.a == nh.a && nh.k == m.k + m.w as u128 {
                let t = self.extract(m.a, m.k as u32, m.w + wh);
                return self.concat(t, nl.b);
            }
        }
        // right-assoc normal form: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, lo);
            return self.concat(nh.a, t);
        }
        if nh.op == Op::Const && nl.op == Op::Concat {
            if let Some(k) = self.as_const(nl.a) {
                let wk = self.w(nl.a);
                let t = self.konst((nh.k << wk) | k, wh + wk);
                return self.concat(t, nl.b);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    fn is_simple(&self, e: Ex) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Const | Op::Var | Op::SExt | Op::Lin => true,
            Op::Concat => self.as_const(n.a).is_some() || self.as_const(n.b).is_some(),
            Op::Add | Op::Mul => self.as_const(n.b).is_some() && self.n(n.a).op != Op::Add && self.is_simple(n.a),
            _ => false,
        }
    }
    pub fn extract(&mut self, e: Ex, lo: u32, w: u32) -> Ex {
        let n = self.n(e);
        if lo == 0 && w == n.w {
            return e;
        }
        debug_assert!(lo + w <= n.w, "extract {lo} {w} of {}", n.w);
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Lin => {
                let d = self.lins[n.k as usize].clone();
                let m = mask(w) as u64;
                let nd = LinData {
                    konst: (d.konst >> lo) & m,
                    terms: d.terms.iter().filter_map(|t| { let c = (t.2 >> lo) & m; (c != 0).then_some((t.0, t.1, c)) }).collect(),
                };
                return self.mk_lin(nd, w);
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            // Only where that does not duplicate a larger computation.
            Op::Add | Op::Mul if lo == 0 && self.is_simple(n.a) && self.is_simple(n.b) => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() || n.w > 64 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        // all-zero part known from the range
        let (_, hi) = self.rng(e);
        if lo < 128 && (hi >> lo) == 0 {
            return self.konst(0, w);
        }
        let r = self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 });
        let (l, h) = self.range[r as usize];
        if l == h {
            return self.konst(l, w);
        }
        // narrow further when high bits of the extraction are known zero
        if lo == 0 {
            let bits = 128 - hi.leading_zeros();
            if bits > 0 && bits < w {
                let x = self.mk(Node { op: Op::Extract, w: bits, a: e, b: 0, c: 0, k: 0 });
                return self.zext(x, w);
            }
        }
        r
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let o = self.konst(u128::MAX, w);
        self.bin(Op::Xor, a, o)
    }
    pub fn neg(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.as_const(a) {
            return self.konst(0u128.wrapping_sub(k), w);
        }
        let m1 = self.konst(u128::MAX, w);
        self.bin(Op::Mul, a, m1)
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        // (x + b) - b
        let na = self.n(a);
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        let nb = self.neg(b);
        self.bin(Op::Add, a, nb)
    }
    pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        (match op {
            Op::Add => a.wrapping_add(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = sext(a, w);
                if b >= w as u128 {
                    (if s < 0 { -1i128 } else { 0 }) as u128
                } else {
                    (s >> b) as u128
                }
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sext(a, w) < sext(b, w)) as u128,
            _ => unreachable!(),
        }) & if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { m }
    }
    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(Self::fold(op, w, x, y), rw);
        }
        match op {
            Op::Eq => return self.eq(a, b),
            Op::Ult => return self.ult(a, b),
            Op::Slt => return self.slt(a, b),
            _ => {}
        }
        if w <= 64 && (self.nodes[a as usize].op == Op::Lin || self.nodes[b as usize].op == Op::Lin) {
            match op {
                Op::Xor => return self.lin_xor(a, b),
                Op::And => {
                    let (l, k) = if self.as_const(a).is_some() { (b, self.as_const(a)) } else { (a, self.as_const(b)) };
                    if let Some(k) = k {
                        let d = self.lins[self.n(l).k as usize].clone();
                        let k = k as u64;
                        let nd = LinData {
                            konst: d.konst & k,
                            terms: d.terms.iter().filter_map(|t| (t.2 & k != 0).then_some((t.0, t.1, t.2 & k))).collect(),
                        };
                        return self.mk_lin(nd, w);
                    }
                }
                Op::Or => {
                    let z = self.zero_bits(a, 6) | self.zero_bits(b, 6);
                    if z & mask(w) == mask(w) {
                        return self.lin_xor(a, b);
                    }
                }
                Op::Add => {
                    let (l, k) = if self.as_const(a).is_some() { (b, self.as_const(a)) } else { (a, self.as_const(b)) };
                    if let Some(k) = k {
                        let d = self.lins[self.n(l).k as usize].clone();
                        let any = d.terms.iter().fold(0, |m, t| m | t.2);
                        let m = 0u128.wrapping_sub(k) & mask(w);
                        if m & !((d.konst & !any) as u128) == 0 {
                            let kk = self.konst(m, w);
                            return self.lin_xor(l, kk);
                        }
                    }
                }
                _ => {}
            }
        }
        // commutative: constant to the right; otherwise order by id
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let kb = self.as_const(b);
        let na = self.n(a);
        let nb = self.n(b);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if na.op == Op::Add {
                    if let Some(k1) = self.as_const(na.b) {
                        if let Some(k2) = kb {
                            let k = self.konst(k1.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, k);
                        }
                        let t = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, t, na.b);
                    }
                }
                if nb.op == Op::Add && self.as_const(nb.b).is_some() {
                    let t = self.bin(Op::Add, a, nb.a);
                    return self.bin(Op::Add, t, nb.b);
                }
                // x + (-x)
                if nb.op == Op::Mul && nb.a == a && self.as_const(nb.b) == Some(mask(w)) {
                    return self.konst(0, w);
                }
                if na.op == Op::Mul && na.a == b && self.as_const(na.b) == Some(mask(w)) {
                    return self.konst(0, w);
                }
                // concat(x, 0) + small const / disjoint: handle as or
                if let Some(k) = kb {
                    if na.op == Op::Concat {
                        let wl = self.w(na.b);
                        if self.as_const(na.b) == Some(0) && k <= mask(wl) {
                            let lo = self.konst(k, wl);
                            return self.concat(na.a, lo);
                        }
                        // concat(0, x) + k without overflow out of the low part, and x+k fits:
                        if self.as_const(na.a) == Some(0) && k <= mask(wl) {
                            let (_, h) = self.rng(na.b);
                            if h + k <= mask(wl) {
                                let kk = self.konst(k, wl);
                                let t = self.bin(Op::Add, na.b, kk);
                                return self.concat(na.a, t);
                            }
                        }
                        // low part constant plus low part of k, no carry
                        if let Some(l) = self.as_const(na.b) {
                            let kl = k & mask(wl);
                            if l + kl <= mask(wl) {
                                let wh = w - wl;
                                let kh = self.konst(k >> wl, wh);
                                let hi = self.bin(Op::Add, na.a, kh);
                                let lo = self.konst(l + kl, wl);
                                return self.concat(hi, lo);
                            }
                        }
                    }
                }
                if let (Some(z), true) = (self.disjoint_or(a, b, w), true) {
                    return z;
                }
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                    if na.op == Op::Mul {
                        if let Some(k1) = self.as_const(na.b) {
                            let kk = self.konst(k1.wrapping_mul(k), w);
                            return self.bin(Op::Mul, na.a, kk);
                        }
                    }
                    if k == mask(w) && na.op == Op::Add && self.as_const(na.b).is_some() {
                        let x = self.neg(na.a);
                        let y = self.neg(na.b);
                        return self.bin(Op::Add, x, y);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == mask(w) {
                        return a;
                    }
                    // contiguous mask
                    let tz = k.trailing_zeros();
                    let ones = (k >> tz).trailing_ones();
                    if (k >> tz) == mask(ones) {
                        let mid = self.extract(a, tz, ones);
                        let t = if tz > 0 {
                            let z = self.konst(0, tz);
                            self.concat(mid, z)
                        } else {
                            mid
                        };
                        return self.zext(t, w);
                    }
                    // inverted contiguous (clear a run): split at boundaries
                    let inv = !k & mask(w);
                    let tz = inv.trailing_zeros();
                    let ones = (inv >> tz).trailing_ones();
                    if (inv >> tz) == mask(ones) && tz > 0 && tz + ones < w {
                        let lo = self.extract(a, 0, tz);
                        let z = self.konst(0, ones);
                        let hi = self.extract(a, tz + ones, w - tz - ones);
                        let t = self.concat(z, lo);
                        return self.concat(hi, t);
                    }
                    if na.op == Op::And {
                        if let Some(k1) = self.as_const(na.b) {
                            let kk = self.konst(k1 & k, w);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(0, 1);
                }
                if w == 1 {
                    // absorption: a & (a & x), and eq(x,k1)&eq(x,k2)
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a && na.b != nb.b {
                        if self.as_const(na.b).is_some() && self.as_const(nb.b).is_some() {
                            return self.konst(0, 1);
                        }
                    }
                }
                if let Some(z) = self.split_bitop(op, a, b) {
                    return z;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return b;
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                }
                if let Some(z) = self.split_bitop(op, a, b) {
                    return z;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(k1) = self.as_const(na.b) {
                            let kk = self.konst(k1 ^ k, w);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(Op::Xor, na.b, b);
                        let y = self.bin(Op::Xor, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    // not of and/or on booleans stays as xor
                } else {
                    // float constants outward
                    if na.op == Op::Xor && self.as_const(na.b).is_some() {
                        let t = self.bin(Op::Xor, na.a, b);
                        return self.bin(Op::Xor, t, na.b);
                    }
                    if nb.op == Op::Xor && self.as_const(nb.b).is_some() {
                        let t = self.bin(Op::Xor, a, nb.a);
                        return self.bin(Op::Xor, t, nb.b);
                    }
                    if nb.op == Op::Xor && (nb.a == a || nb.b == a) {
                        return if nb.a == a { nb.b } else { nb.a };
                    }
                    if na.op == Op::Xor && (na.a == b || na.b == b) {
                        return if na.a == b { na.b } else { na.a };
                    }
                }
                if let Some(z) = self.split_bitop(op, a, b) {
                    return z;
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let lo = self.konst(0, k as u32);
                    let hi = self.extract(a, 0, w - k as u32);
                    return self.concat(hi, lo);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let hi = self.extract(a, k as u32, w - k as u32);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k as u32).min(w - 1);
                    let hi = self.extract(a, k, w - k);
                    return self.sext(hi, w);
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = kb {
                    if k == 1 {
                        return if op == Op::UDiv { a } else { self.konst(0, w) };
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        if op == Op::UDiv {
                            let sc = self.konst(s as u128, w);
                            return self.bin(Op::LShr, a, sc);
                        }
                        let m = self.konst(k - 1, w);
                        return self.bin(Op::And, a, m);
                    }
                    let (_, h) = self.rng(a);
                    if k != 0 && h < k {
                        return if op == Op::UDiv { self.konst(0, w) } else { a };
                    }
                    // narrow
                    let bits = (128 - h.leading_zeros()).max(128 - k.leading_zeros());
                    if k != 0 && bits < w {
                        let x = self.extract(a, 0, bits);
                        let y = self.konst(k, bits);
                        let t = self.bin(op, x, y);
                        return self.zext(t, w);
                    }
                }
            }
            _ => {}
        }
        if w > 1 {
            if matches!(op, Op::Add | Op::Xor) && (na.op == op || nb.op == op) {
                if let Some(z) = self.sorted_chain(op, a, b) {
                    return z;
                }
            }
            if matches!(op, Op::Or | Op::Add | Op::Xor) {
                if let Some((x, y, z)) = self.majority(op, a, b) {
                    let mut v = [x, y, z];
                    v.sort();
                    let p = self.n2(Op::And, w, v[0], v[1]);
                    let q = self.n2(Op::Or, w, v[0], v[1]);
                    let q = self.n2(Op::And, w, q.min(v[2]), q.max(v[2]));
                    return self.n2(Op::Or, w, p.min(q), p.max(q));
                }
            }
        }
        self.n2(op, rw, a, b)
    }
    /// Sums and exclusive ors of several terms, in one order.
    fn sorted_chain(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        let mut leaves: Vec<Ex> = Vec::new();
        let mut todo = vec![a, b];
        while let Some(e) = todo.pop() {
            let n = self.n(e);
            if n.op == op && self.as_const(n.b).is_none() {
                todo.push(n.a);
                todo.push(n.b);
            } else {
                leaves.push(e);
            }
            if leaves.len() + todo.len() > 12 {
                return None;
            }
        }
        if leaves.iter().any(|l| self.as_const(*l).is_some()) {
            return None;
        }
        leaves.sort();
        let mut t = leaves[0];
        for l in &leaves[1..] {
            t = self.n2(op, w, t.min(*l), t.max(*l));
        }
        Some(t)
    }
    /// Is `a op b` the bitwise majority of three values?
    fn majority(&self, op: Op, a: Ex, b: Ex) -> Option<(Ex, Ex, Ex)> {
        for (a, b) in [(a, b), (b, a)] {
            let na = self.n(a);
            let nb = self.n(b);
            if na.op != Op::And || self.as_const(na.b).is_some() {
                continue;
            }
            let (x, y) = (na.a, na.b);
            if nb.op == Op::And {
                // x&y with z&(x|y) or z&(x^y)
                for (z, t) in [(nb.a, nb.b), (nb.b, nb.a)] {
                    let nt = self.n(t);
                    let fits = nt.op == Op::Xor || (nt.op == Op::Or && op == Op::Or);
                    if fits && ((nt.a == x && nt.b == y) || (nt.a == y && nt.b == x)) {
                        return Some((x, y, z));
                    }
                }
            }
            if nb.op == Op::Or && op == Op::Or {
                // x&y | (x&z | y&z)
                let (p, q) = (self.n(nb.a), self.n(nb.b));
                if p.op == Op::And && q.op == Op::And {
                    for (x, y) in [(x, y), (y, x)] {
                        let zp = if p.a == x { p.b } else if p.b == x { p.a } else { continue };
                        let zq = if q.a == y { q.b } else if q.b == y { q.a } else { continue };
                        if zp == zq {
                            return Some((x, y, zp));
                        }
                    }
                }
            }
        }
        None
    }
    fn lin_add(d: &mut LinData, base: Ex, bit: u32, col: u64) {
        match d.terms.binary_search_by(|t| (t.0, t.1).cmp(&(base, bit))) {
            Ok(i) => {
                d.terms[i].2 ^= col;
                if d.terms[i].2 == 0 {
                    d.terms.remove(i);
                }
            }
            Err(i) => d.terms.insert(i, (base, bit, col)),
        }
    }
    /// Node for a linear form (canonicalised).
    pub fn mk_lin(&mut self, d: LinData, w: u32) -> Ex {
        if d.terms.is_empty() {
            return self.konst(d.konst as u128, w);
        }
        if d.konst == 0 {
            // a plain (zero-extended) run of bits of one base?
            let (b, lo, c0) = d.terms[0];
            let n = d.terms.len() as u32;
            if c0 == 1 && n <= w && d.terms.iter().enumerate().all(|(i, t)| t.0 == b && t.1 == lo + i as u32 && t.2 == 1 << i) {
                let x = self.extract(b, lo, n);
                return self.zext(x, w);
            }
        }
        let rc = std::rc::Rc::new(d);
        if let Some(e) = self.lin_map.get(&(w, rc.clone())) {
            return *e;
        }
        let k = self.lins.len() as u128;
        self.lins.push(rc.clone());
        let e = self.mk(Node { op: Op::Lin, w, a: 0, b: 0, c: 0, k });
        self.lin_map.insert((w, rc), e);
        e
    }
    /// Linear form of an expression (opaque parts become bases).
    pub fn to_lin(&mut self, e: Ex) -> LinData {
        let n = self.n(e);
        debug_assert!(n.w <= 64);
        match n.op {
            Op::Const => LinData { konst: n.k as u64, terms: vec![] },
            Op::Lin => (*self.lins[n.k as usize]).clone(),
            Op::Concat => {
                let wl = self.w(n.b);
                let mut d = self.to_lin(n.b);
                let h = self.to_lin(n.a);
                d.konst ^= h.konst << wl;
                for t in &h.terms {
                    Self::lin_add(&mut d, t.0, t.1, t.2 << wl);
                }
                d
            }
            Op::Xor if self.size[e as usize] < 5000 => {
                let x = self.to_lin(n.a);
                let y = self.to_lin(n.b);
                Self::lin_sum(&x, &y)
            }
            Op::Extract => LinData { konst: 0, terms: (0..n.w).map(|i| (n.a, i + n.k as u32, 1u64 << i)).collect() },
            _ => LinData { konst: 0, terms: (0..n.w).map(|i| (e, i, 1u64 << i)).collect() },
        }
    }
    fn lin_sum(x: &LinData, y: &LinData) -> LinData {
        let mut v = Vec::with_capacity(x.terms.len() + y.terms.len());
        let (mut i, mut j) = (0, 0);
        while i < x.terms.len() || j < y.terms.len() {
            let c = if i >= x.terms.len() {
                std::cmp::Ordering::Greater
            } else if j >= y.terms.len() {
                std::cmp::Ordering::Less
            } else {
                (x.terms[i].0, x.terms[i].1).cmp(&(y.terms[j].0, y.terms[j].1))
            };
            match c {
                std::cmp::Ordering::Less => {
                    v.push(x.terms[i]);
                    i += 1;
                }
                std::cmp::Ordering::Greater => {
                    v.push(y.terms[j]);
                    j += 1;
                }
                std::cmp::Ordering::Equal => {
                    let c = x.terms[i].2 ^ y.terms[j].2;
                    if c != 0 {
                        v.push((x.terms[i].0, x.terms[i].1, c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        LinData { konst: x.konst ^ y.konst, terms: v }
    }
    fn lin_xor(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let (x, y) = (self.to_lin(a), self.to_lin(b));
        let d = Self::lin_sum(&x, &y);
        self.mk_lin(d, w)
    }
    /// Affine table lookup: c0 ^ xor_j basis[j] * bit(idx, bits[j]).
    pub fn lin_apply(&mut self, idx: Ex, bits: &[u32], c0: u64, basis: &[u64], w: u32) -> Ex {
        let d = self.to_lin(idx);
        let f = |v: u64| {
            let mut r = 0;
            for (j, b) in bits.iter().enumerate() {
                if (v >> b) & 1 == 1 {
                    r ^= basis[j];
                }
            }
            r
        };
        let nd = LinData {
            konst: c0 ^ f(d.konst),
            terms: d.terms.iter().filter_map(|t| { let c = f(t.2); (c != 0).then_some((t.0, t.1, c)) }).collect(),
        };
        self.mk_lin(nd, w)
    }
    fn is_not_of(&self, a: Ex, b: Ex) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Op::Xor && na.a == b && self.as_const(na.b) == Some(1))
            || (nb.op == Op::Xor && nb.a == a && self.as_const(nb.b) == Some(1))
    }
    /// a+b with no common bits, where one is a concat with zero parts
    fn disjoint_or(&mut self, a: Ex, b: Ex, w: u32) -> Option<Ex> {
        if w > 64 || self.depth > 8 {
            return None;
        }
        let (za, zb) = (self.zero_bits(a, 6), self.zero_bits(b, 6));
        if (za | zb) & mask(w) == mask(w) {
            return Some(self.bin(Op::Or, a, b));
        }
        None
    }
    /// bits known zero
    pub fn zero_bits(&self, e: Ex, depth: u32) -> u128 {
        let n = self.n(e);
        let m = mask(n.w);
        let r = match n.op {
            Op::Const => !n.k & m,
            Op::Lin => {
                let d = &self.lins[n.k as usize];
                !(d.terms.iter().fold(d.konst, |m, t| m | t.2) as u128) & m
            }
            Op::Concat if depth > 0 => {
                let wl = self.w(n.b);
                (self.zero_bits(n.a, depth - 1) << wl) | self.zero_bits(n.b, depth - 1)
            }
            Op::Ite if depth > 0 => self.zero_bits(n.b, depth - 1) & self.zero_bits(n.c, depth - 1),
            Op::And if depth > 0 => self.zero_bits(n.a, depth - 1) | self.zero_bits(n.b, depth - 1),
            Op::Or | Op::Xor if depth > 0 => self.zero_bits(n.a, depth - 1) & self.zero_bits(n.b, depth - 1),
            _ => 0,
        };
        let (_, h) = self.rng(e);
        let top = if h == 0 { m } else { m & !mask(128 - h.leading_zeros()) };
        r | top
    }
    /// Split and/or/xor at concat boundaries when that is useful.
    fn split_bitop(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        let (na, nb) = (self.n(a), self.n(b));
        if op == Op::Xor && na.op != Op::Const && nb.op != Op::Const && self.size[a as usize] + self.size[b as usize] > 12 {
            return None;
        }
        let at = match (na.op, nb.op) {
            (Op::Concat, Op::Concat) => {
                let (x, y) = (self.w(na.b), self.w(nb.b));
                let useful = self.as_const(na.a).is_some()
                    || self.as_const(na.b).is_some()
                    || self.as_const(nb.a).is_some()
                    || self.as_const(nb.b).is_some()
                    || x == y;
                if !useful {
                    return None;
                }
                x.min(y)
            }
            (Op::Concat, _) if self.as_const(na.a).is_some() || self.as_const(na.b).is_some() || nb.op == Op::Const => {
                self.w(na.b)
            }
            (_, Op::Concat) if self.as_const(nb.a).is_some() || self.as_const(nb.b).is_some() || na.op == Op::Const => {
                self.w(nb.b)
            }
            _ => return None,
        };
        let w = na.w;
        let (al, ah) = (self.extract(a, 0, at), self.extract(a, at, w - at));
        let (bl, bh) = (self.extract(b, 0, at), self.extract(b, at, w - at));
        let l = self.bin(op, al, bl);
        let h = self.bin(op, ah, bh);
        Some(self.concat(h, l))
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.tru();
        }
        if self.w(a) <= 64 && (self.nodes[a as usize].op == Op::Lin || self.nodes[b as usize].op == Op::Lin) {
            let w = self.w(a);
            let x = self.lin_xor(a, b);
            let z = self.konst(0, w);
            if self.nodes[x as usize].op != Op::Lin {
                return self.eq(x, z);
            }
            let d = self.lins[self.n(x).k as usize].clone();
            // a bit that is constantly one
            let any = d.terms.iter().fold(0, |m, t| m | t.2);
            if d.konst & !any != 0 {
                return self.fls();
            }
            if w == 1 {
                return self.mk_not1(x);
            }
            return self.n2(Op::Eq, 1, x, z);
        }
        let (mut a, mut b) = (a, b);
        if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let w = self.w(a);
        let (ra, rb) = (self.rng(a), self.rng(b));
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return self.fls();
        }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(k) = self.as_const(b) {
            if w == 1 {
                return if k == 1 { a } else { self.mk_not1(a) };
            }
            match na.op {
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.konst(k >> wl, w - wl);
                    let kl = self.konst(k, wl);
                    let x = self.eq(na.a, kh);
                    if self.as_const(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(na.b, kl);
                    return self.bin(Op::And, x, y);
                }
                Op::Ite => {
                    let (c1, c2) = (self.as_const(na.b), self.as_const(na.c));
                    if c1.is_some() || c2.is_some() || self.size[a as usize] < 200 {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                Op::Add => {
                    if let Some(k1) = self.as_const(na.b) {
                        let kk = self.konst(k.wrapping_sub(k1), w);
                        return self.eq(na.a, kk);
                    }
                }
                Op::Xor => {
                    if let Some(k1) = self.as_const(na.b) {
                        let kk = self.konst(k ^ k1, w);
                        return self.eq(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Or if k == 0 => {
                    let z = self.konst(0, w);
                    let x = self.eq(na.a, z);
                    let y = self.eq(na.b, z);
                    return self.bin(Op::And, x, y);
                }
                Op::SExt => {
                    let wa = self.w(na.a);
                    let t = k & mask(wa);
                    if (sext(t, wa) as u128) & mask(w) == k {
                        let kk = self.konst(t, wa);
                        return self.eq(na.a, kk);
                    }
                    return self.fls();
                }
                _ => {}
            }
        } else {
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                if self.as_const(x) == Some(0) {
                    return x;
                }
                let y = self.eq(na.b, nb.b);
                return self.bin(Op::And, x, y);
            }
            // compare zero-extended values of different widths
            if na.op == Op::Concat || nb.op == Op::Concat {
                let z = (ra.1 | rb.1).leading_zeros();
                let bits = 128 - z;
                if bits < w && bits > 0 && ((na.op == Op::Concat && self.as_const(na.a) == Some(0)) || (nb.op == Op::Concat && self.as_const(nb.a) == Some(0))) {
                    let x = self.extract(a, 0, bits);
                    let y = self.extract(b, 0, bits);
                    return self.eq(x, y);
                }
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if w == 1 {
                let t = self.bin(Op::Xor, a, b);
                return self.mk_not1(t);
            }
        }
        self.n2(Op::Eq, 1, a, b)
    }
    fn mk_not1(&mut self, a: Ex) -> Ex {
        let o = self.konst(1, 1);
        self.bin(Op::Xor, a, o)
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.fls();
        }
        let (ra, rb) = (self.rng(a), self.rng(b));
        if ra.1 < rb.0 {
            return self.tru();
        }
        if ra.0 >= rb.1 {
            return self.fls();
        }
        let w = self.w(a);
        if self.as_const(b) == Some(1) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if self.as_const(a) == Some(0) {
            let z = self.konst(0, w);
            let t = self.eq(b, z);
            return self.mk_not1(t);
        }
        if self.as_const(b) == Some(mask(w)) {
            let t = self.eq(a, b);
            return self.mk_not1(t);
        }
        if w == 1 {
            let n = self.not(a);
            return self.bin(Op::And, n, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let bits = 128 - (ra.1 | rb.1).leading_zeros();
        if bits < w && bits > 0 && (na.op == Op::Concat || na.op == Op::Const) && (nb.op == Op::Concat || nb.op == Op::Const) {
            let x = self.extract(a, 0, bits);
            let y = self.extract(b, 0, bits);
            return self.ult(x, y);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) && na.b == nb.b {
            return self.ult(na.a, nb.a);
        }
        // concat(x, lo) < k  where low bits of k are zero  => x < k>>wl
        if let (Op::Concat, Some(k)) = (na.op, self.as_const(b)) {
            let wl = self.w(na.b);
            if k & mask(wl) == 0 {
                let kk = self.konst(k >> wl, w - wl);
                return self.ult(na.a, kk);
            }
        }
        if let (Some(k), Op::Concat) = (self.as_const(a), nb.op) {
            let wl = self.w(nb.b);
            // k < concat(x, lo); low bits of k all ones => k>>wl < x
            if k & mask(wl) == mask(wl) {
                let kk = self.konst(k >> wl, w - wl);
                return self.ult(kk, nb.a);
            }
        }
        if na.op == Op::Ite && self.as_const(b).is_some() && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        self.n2(Op::Ult, 1, a, b)
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex {
        let t = self.ult(b, a);
        self.mk_not1(t)
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        let (ra, rb) = (self.rng(a), self.rng(b));
        let half = 1u128 << (w - 1);
        if ra.1 < half && rb.1 < half {
            return self.ult(a, b);
        }
        if ra.0 >= half && rb.0 >= half {
            return self.ult(a, b);
        }
        if ra.1 < half && rb.0 >= half {
            return self.fls();
        }
        if ra.0 >= half && rb.1 < half {
            return self.tru();
        }
        // sign test
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.as_const(a) == Some(mask(w)) {
            let t = self.extract(b, w - 1, 1);
            return self.mk_not1(t);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt {
            let wa = self.w(na.a);
            if nb.op == Op::SExt && self.w(nb.a) == wa {
                return self.slt(na.a, nb.a);
            }
            if let Some(k) = self.as_const(b) {
                let t = k & mask(wa);
                if (sext(t, wa) as u128) & mask(w) == k {
                    let kk = self.konst(t, wa);
                    return self.slt(na.a, kk);
                }
            }
        }
        if na.op == Op::Ite && self.as_const(b).is_some() && self.size[a as usize] < 100 {
            let x = self.slt(na.b, b);
            let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        self.n2(Op::Slt, 1, a, b)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.n(c);
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        // nested same condition
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // common zero high parts
        let (ra, rb) = (self.rng(a), self.rng(b));
        let bits = 128 - (ra.1 | rb.1).leading_zeros();
        if bits > 0 && bits < w {
            let x = self.extract(a, 0, bits);
            let y = self.extract(b, 0, bits);
            let t = self.mk_ite(c, x, y);
            return self.zext(t, w);
        }
        self.mk_ite(c, a, b)
    }
    fn mk_ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if a == b {
            return a;
        }
        if self.w(a) == 1 && (self.as_const(a).is_some() || self.as_const(b).is_some()) {
            return self.ite(c, a, b);
        }
        let w = self.w(a);
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn or_all(&mut self, v: &[Ex]) -> Ex {
        let mut r = self.fls();
        for x in v {
            r = self.bin(Op::Or, r, *x);
        }
        r
    }
    /// Rebuild a node with new children.
    pub fn rebuild(&mut self, n: Node, a: Ex, b: Ex, c: Ex) -> Ex {
        match n.op {
            Op::Const | Op::Var | Op::Lin => unreachable!(),
            Op::Concat => self.concat(a, b),
            Op::Extract => self.extract(a, n.k as u32, n.w),
            Op::SExt => self.sext(a, n.w),
            Op::Ite => self.ite(a, b, c),
            _ => self.bin(n.op, a, b),
        }
    }

    /// Evaluate under a model (missing variables are 0).
    pub fn eval(&mut self, e: Ex, model: &[u8]) -> u128 {
        if let Some(k) = self.as_const(e) {
            return k;
        }
        self.gen += 1;
        let g = self.gen;
        let mut stack: Vec<(Ex, bool)> = vec![(e, false)];
        while let Some((x, ready)) = stack.pop() {
            let xi = x as usize;
            if self.memo_gen[xi] == g {
                continue;
            }
            let n = self.nodes[xi];
            match n.op {
                Op::Const => {
                    self.memo_gen[xi] = g;
                    self.memo_val[xi] = n.k;
                    continue;
                }
                Op::Var => {
                    self.memo_gen[xi] = g;
                    self.memo_val[xi] = model.get(n.k as usize).copied().unwrap_or(0) as u128;
                    continue;
                }
                _ => {}
            }
            if n.op == Op::Lin {
                let d = self.lins[n.k as usize].clone();
                if !ready {
                    stack.push((x, true));
                    let mut last = NONE;
                    for t in &d.terms {
                        if t.0 != last {
                            last = t.0;
                            if self.memo_gen[last as usize] != g {
                                stack.push((last, false));
                            }
                        }
                    }
                } else {
                    let mut v = d.konst;
                    for t in &d.terms {
                        if (self.memo_val[t.0 as usize] >> t.1) & 1 == 1 {
                            v ^= t.2;
                        }
                    }
                    self.memo_gen[xi] = g;
                    self.memo_val[xi] = v as u128;
                }
                continue;
            }
            if !ready {
                stack.push((x, true));
                for ch in [n.a, n.b, n.c] {
                    if ch != NONE && self.memo_gen[ch as usize] != g {
                        stack.push((ch, false));
                    }
                }
                continue;
            }
            let va = self.memo_val[n.a as usize];
            let vb = self.memo_val[n.b as usize];
            let v = match n.op {
                Op::Concat => (va << self.w(n.b)) | vb,
                Op::Extract => (va >> n.k) & mask(n.w),
                Op::SExt => (sext(va, self.w(n.a)) as u128) & mask(n.w),
                Op::Ite => {
                    if va == 1 {
                        vb
                    } else {
                        self.memo_val[n.c as usize]
                    }
                }
                _ => Self::fold(n.op, self.w(n.a), va, vb),
            };
            self.memo_gen[xi] = g;
            self.memo_val[xi] = v;
        }
        self.memo_val[e as usize]
    }

    /// Substitute known node values (persisting only for this call).
    pub fn subst(&mut self, e: Ex, known: &FxMap<Ex, Ex>) -> Ex {
        if known.is_empty() {
            return e;
        }
        let mut memo: FxMap<Ex, Ex> = Default::default();
        self.subst_rec(e, known, &mut memo)
    }
    fn subst_rec(&mut self, e: Ex, known: &FxMap<Ex, Ex>, memo: &mut FxMap<Ex, Ex>) -> Ex {
        let n = self.n(e);
        if n.op == Op::Const {
            return e;
        }
        if let Some(k) = known.get(&e) {
            return *k;
        }
        if n.op == Op::Var {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        if n.op == Op::Lin {
            let d = self.lins[n.k as usize].clone();
            let mut bases: Vec<Ex> = d.terms.iter().map(|t| t.0).collect();
            bases.dedup();
            let mut changed: FxMap<Ex, LinData> = Default::default();
            for b in bases {
                let r = self.subst_rec(b, known, memo);
                if r != b {
                    let l = self.to_lin(r);
                    changed.insert(b, l);
                }
            }
            let mut r = e;
            if !changed.is_empty() {
                let mut acc: std::collections::BTreeMap<(Ex, u32), u64> = Default::default();
                let mut konst = d.konst;
                for t in &d.terms {
                    match changed.get(&t.0) {
                        None => *acc.entry((t.0, t.1)).or_default() ^= t.2,
                        Some(l) => {
                            if (l.konst >> t.1) & 1 == 1 {
                                konst ^= t.2;
                            }
                            for u in &l.terms {
                                if (u.2 >> t.1) & 1 == 1 {
                                    *acc.entry((u.0, u.1)).or_default() ^= t.2;
                                }
                            }
                        }
                    }
                }
                let nd = LinData { konst, terms: acc.into_iter().filter(|x| x.1 != 0).map(|((b, i), c)| (b, i, c)).collect() };
                r = self.mk_lin(nd, n.w);
                if let Some(k) = known.get(&r) {
                    r = *k;
                }
            }
            memo.insert(e, r);
            return r;
        }
        let a = if n.a != 0 { self.subst_rec(n.a, known, memo) } else { 0 };
        let b = if n.b != 0 { self.subst_rec(n.b, known, memo) } else { 0 };
        let c = if n.c != 0 { self.subst_rec(n.c, known, memo) } else { 0 };
        let mut r = if a == n.a && b == n.b && c == n.c { e } else { self.rebuild(n, a, b, c) };
        if r != e {
            if let Some(k) = known.get(&r) {
                r = *k;
            }
        }
        memo.insert(e, r);
        r
    }
    /// Every node below `e`, in order, for debugging.
    pub fn listing(&self, e: Ex) -> String {
        let mut seen = std::collections::BTreeSet::new();
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                let n = self.n(x);
                todo.extend([n.a, n.b, n.c].into_iter().filter(|c| *c != 0));
            }
        }
        seen.iter()
            .map(|x| {
                let n = self.n(*x);
                format!("{x} = {:?} k{:#x} w{} {} {} {}\n", n.op, n.k, n.w, n.a, n.b, n.c)
            })
            .collect()
    }
    pub fn show(&self, e: Ex, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Lin => format!("(Lin {} terms)", self.lins[n.k as usize].terms.len()),
            _ if depth == 0 => "..".to_string(),
            _ => {
                let mut s = format!("({:?}", n.op);
                if n.op == Op::Extract {
                    s += &format!("[{}+{}]", n.k, n.w);
                }
                for c in [n.a, n.b, n.c] {
                    if c != 0 {
                        s += " ";
                        s += &self.show(c, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
