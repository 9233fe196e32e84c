//! Z3 back end (C API), independence slicing and query caching.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvneg(c: P, a: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    /// values for the variables of the sliced query
    Sat(std::rc::Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time_us: u64,
    pub max_us: u64,
    /// linear constraints decided by elimination
    pub linear: u64,
}

struct Elim {
    lin: Ex,
    eq: bool,
    privs: Vec<(u32, u32, u64)>,
}

pub struct Solver {
    ctx: P,
    s: P,
    bv: FxMap<Ex, P>,
    bl: FxMap<Ex, P>,
    cache: FxMap<Vec<Ex>, Res>,
    recent: Vec<std::rc::Rc<Vec<(u32, u8)>>>,
    pub stats: Stats,
    timeout_ms: u32,
    since_reset: u32,
    abstracted: u32,
    pub dump: bool,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            bv: Default::default(),
            bl: Default::default(),
            cache: Default::default(),
            recent: vec![],
            stats: Default::default(),
            timeout_ms,
            since_reset: 0,
            abstracted: 0,
            dump: std::env::var("SYMEX_DUMP").is_ok(),
        };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_del_context(self.ctx);
            }
            self.bv.clear();
            self.bl.clear();
            self.since_reset = 0;
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.ctx, sym);
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            let ks = Z3_mk_string_symbol(self.ctx, k.as_ptr());
            Z3_params_set_uint(self.ctx, p, ks, self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.s, p);
        }
    }
    fn num(&self, k: u128, w: u32) -> P {
        unsafe {
            let c = self.ctx;
            if w <= 64 {
                Z3_mk_unsigned_int64(c, k as u64, Z3_mk_bv_sort(c, w))
            } else {
                let hi = Z3_mk_unsigned_int64(c, (k >> 64) as u64, Z3_mk_bv_sort(c, w - 64));
                let lo = Z3_mk_unsigned_int64(c, k as u64, Z3_mk_bv_sort(c, 64));
                Z3_mk_concat(c, hi, lo)
            }
        }
    }
    fn tr_bool(&mut self, x: &Ctx, e: Ex) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let n = x.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq if x.w(n.a) == 1 => {
                    let (a, b) = (self.tr_bool(x, n.a), self.tr_bool(x, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq => {
                    let (a, b) = (self.tr_bv(x, n.a), self.tr_bv(x, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.tr_bv(x, n.a), self.tr_bv(x, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.tr_bv(x, n.a), self.tr_bv(x, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::And => {
                    let v = [self.tr_bool(x, n.a), self.tr_bool(x, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.tr_bool(x, n.a), self.tr_bool(x, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let a = self.tr_bool(x, n.a);
                    if x.as_const(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.tr_bool(x, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (p, a, b) = (self.tr_bool(x, n.a), self.tr_bool(x, n.b), self.tr_bool(x, n.c));
                    Z3_mk_ite(c, p, a, b)
                }
                Op::Extract => {
                    let a = self.tr_bv(x, n.a);
                    let t = Z3_mk_extract(c, n.k as u32, n.k as u32, a);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, t, one)
                }
                _ => {
                    let t = self.tr_bv_raw(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, t, one)
                }
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn tr_bv(&mut self, x: &Ctx, e: Ex) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let n = x.n(e);
        if self.abstracted != 0 && n.w > 1 && x.size[e as usize] as u32 > self.abstracted && matches!(n.op, Op::Add | Op::Xor | Op::Mul) {
            let r = unsafe {
                let sy = Z3_mk_int_symbol(self.ctx, (1 << 30) | e as c_int);
                Z3_mk_const(self.ctx, sy, Z3_mk_bv_sort(self.ctx, n.w))
            };
            self.bv.insert(e, r);
            return r;
        }
        let r = if n.w == 1
            && matches!(n.op, Op::Eq | Op::Ult | Op::Slt | Op::And | Op::Or | Op::Xor | Op::Ite)
        {
            let b = self.tr_bool(x, e);
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            unsafe { Z3_mk_ite(self.ctx, b, o, z) }
        } else {
            self.tr_bv_raw(x, e)
        };
        self.bv.insert(e, r);
        r
    }
    fn tr_bv_raw(&mut self, x: &Ctx, e: Ex) -> P {
        let n = x.n(e);
        let c = self.ctx;
        unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.k as c_int);
                    Z3_mk_const(c, s, Z3_mk_bv_sort(c, 8))
                }
                Op::Ite => {
                    let p = self.tr_bool(x, n.a);
                    let (a, b) = (self.tr_bv(x, n.b), self.tr_bv(x, n.c));
                    Z3_mk_ite(c, p, a, b)
                }
                Op::Extract => {
                    let a = self.tr_bv(x, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a)
                }
                Op::Lin => {
                    let d = x.lins[n.k as usize].clone();
                    let mut r = self.num(d.konst as u128, n.w);
                    for t in &d.terms {
                        let b = self.tr_bv(x, t.0);
                        let mut y = Z3_mk_extract(c, t.1, t.1, b);
                        if n.w > 1 {
                            y = Z3_mk_sign_ext(c, n.w - 1, y);
                            let k = self.num(t.2 as u128, n.w);
                            y = Z3_mk_bvand(c, y, k);
                        }
                        r = Z3_mk_bvxor(c, r, y);
                    }
                    r
                }
                Op::SExt => {
                    let a = self.tr_bv(x, n.a);
                    Z3_mk_sign_ext(c, n.w - x.w(n.a), a)
                }
                Op::Mul if x.as_const(n.b) == Some(mask(n.w)) => {
                    let a = self.tr_bv(x, n.a);
                    Z3_mk_bvneg(c, a)
                }
                Op::Xor if x.as_const(n.b) == Some(mask(n.w)) => {
                    let a = self.tr_bv(x, n.a);
                    Z3_mk_bvnot(c, a)
                }
                _ => {
                    let a = self.tr_bv(x, n.a);
                    let b = self.tr_bv(x, n.b);
                    match n.op {
                        Op::Concat => Z3_mk_concat(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!("{:?}", n.op),
                    }
                }
            }
        }
    }

    /// Select the constraints of `pc` that (transitively) share variables with `q`.
    pub fn slice(x: &Ctx, pc: &[Ex], q: Ex) -> Vec<Ex> {
        let mut vars: FxSet<u32> = x.sets[x.vset[q as usize] as usize].iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = &x.sets[x.vset[*c as usize] as usize];
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(*c);
                    for v in s.iter() {
                        if vars.insert(*v) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out
    }

    /// Splits a conjunction.
    fn flatten(x: &mut Ctx, q: Ex, out: &mut Vec<Ex>) {
        let n = x.n(q);
        if n.op == Op::And && n.w == 1 {
            Self::flatten(x, n.a, out);
            Self::flatten(x, n.b, out);
            return;
        }
        if n.op == Op::Xor && n.w == 1 && x.as_const(n.b) == Some(1) {
            let m = x.n(n.a);
            if m.op == Op::Or {
                let (a, b) = (x.not(m.a), x.not(m.b));
                Self::flatten(x, a, out);
                Self::flatten(x, b, out);
                return;
            }
        }
        if x.as_const(q) != Some(1) {
            out.push(q);
        }
    }

    /// Is `pc && q` satisfiable? `pc` alone is known to be.
    pub fn check(&mut self, x: &mut Ctx, pc: &[Ex], q: Ex, base_model: &[u8]) -> Res {
        if let Some(k) = x.as_const(q) {
            return if k == 1 { Res::Sat(std::rc::Rc::new(vec![])) } else { Res::Unsat };
        }
        let mut key = Self::slice(x, pc, q);
        Self::flatten(x, q, &mut key);
        if key.iter().any(|e| x.as_const(*e) == Some(0)) {
            return Res::Unsat;
        }
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        // try recent models
        if !self.recent.is_empty() {
            let mut m: Vec<u8> = vec![];
            for i in (0..self.recent.len()).rev() {
                m.clear();
                m.extend_from_slice(base_model);
                for (v, b) in self.recent[i].iter() {
                    if *v as usize >= m.len() {
                        m.resize(*v as usize + 1, 0);
                    }
                    m[*v as usize] = *b;
                }
                if x.eval(q, &m) == 1 && key.iter().all(|e| x.eval(*e, &m) == 1) {
                    self.stats.model_hits += 1;
                    let mut vars: FxSet<u32> = Default::default();
                    for e in &key {
                        vars.extend(x.sets[x.vset[*e as usize] as usize].iter());
                    }
                    let mut mv: Vec<(u32, u8)> = vars.iter().map(|v| (*v, m.get(*v as usize).copied().unwrap_or(0))).collect();
                    mv.sort_unstable();
                    let r = Res::Sat(std::rc::Rc::new(mv));
                    self.cache.insert(key, r.clone());
                    return r;
                }
            }
        }
        let r = self.solve(x, &key, base_model);
        if let Res::Sat(m) = &r {
            self.recent.push(m.clone());
            if self.recent.len() > 6 {
                self.recent.remove(0);
            }
        }
        if r != Res::Unknown {
            self.cache.insert(key, r.clone());
        }
        r
    }

    /// Removes linear (checksum) constraints that can always be met by bits
    /// occurring in no other constraint; returns what is left and how to
    /// extend a model to the removed ones (in removal order).
    fn eliminate(x: &Ctx, cs: &[Ex]) -> (Vec<Ex>, Vec<Elim>) {
        let mut count: FxMap<u32, u32> = Default::default();
        let has = |e: Ex| -> Option<(Ex, bool)> {
            let n = x.n(e);
            let (n, eq) = if n.op == Op::Xor && n.w == 1 && x.as_const(n.b) == Some(1) { (x.n(n.a), false) } else { (n, true) };
            (n.op == Op::Eq && x.n(n.a).op == Op::Lin && x.as_const(n.b) == Some(0)).then_some((n.a, eq))
        };
        if !cs.iter().any(|e| has(*e).is_some()) {
            return (cs.to_vec(), vec![]);
        }
        for e in cs {
            for v in x.sets[x.vset[*e as usize] as usize].iter() {
                *count.entry(*v).or_default() += 1;
            }
        }
        let mut left = cs.to_vec();
        let mut out = vec![];
        loop {
            let mut hit = None;
            for (i, e) in left.iter().enumerate() {
                let Some((l, eq)) = has(*e) else { continue };
                let n = x.n(l);
                let d = &x.lins[n.k as usize];
                let mut opaque: FxSet<u32> = Default::default();
                for t in &d.terms {
                    if x.n(t.0).op != Op::Var {
                        opaque.extend(x.sets[x.vset[t.0 as usize] as usize].iter());
                    }
                }
                // pivots: (pivot mask bit, reduced column, combination of private bits)
                let mut privs: Vec<(u32, u32, u64)> = vec![];
                for t in &d.terms {
                    let b = x.n(t.0);
                    if b.op == Op::Var && count[&(b.k as u32)] == 1 && !opaque.contains(&(b.k as u32)) {
                        privs.push((b.k as u32, t.1, t.2));
                    }
                }
                let rank = {
                    let mut basis: Vec<u64> = vec![];
                    for p in &privs {
                        let mut c = p.2;
                        for b in &basis {
                            c = c.min(c ^ b);
                        }
                        if c != 0 {
                            basis.push(c);
                        }
                    }
                    basis.len() as u32
                };
                if (eq && rank == n.w) || (!eq && rank > 0) {
                    hit = Some((i, Elim { lin: l, eq, privs }));
                    break;
                }
            }
            let Some((i, el)) = hit else { break };
            let e = left.remove(i);
            for v in x.sets[x.vset[e as usize] as usize].iter() {
                *count.get_mut(v).unwrap() -= 1;
            }
            out.push(el);
        }
        (left, out)
    }

    fn solve(&mut self, x: &mut Ctx, cs: &[Ex], base: &[u8]) -> Res {
        let (left, els) = Self::eliminate(x, cs);
        if els.is_empty() {
            return self.solve_staged(x, cs, base);
        }
        let r = if left.is_empty() { Res::Sat(std::rc::Rc::new(vec![])) } else { self.solve_z3(x, &left) };
        let Res::Sat(m) = r else { return r };
        let mut model = base.to_vec();
        let set = |model: &mut Vec<u8>, v: u32, b: u8| {
            if v as usize >= model.len() {
                model.resize(v as usize + 1, 0);
            }
            model[v as usize] = b;
        };
        for (v, b) in m.iter() {
            set(&mut model, *v, *b);
        }
        self.stats.linear += els.len() as u64;
        for el in els.iter().rev() {
            let cur = x.eval(el.lin, &model) as u64;
            if (cur == 0) == el.eq {
                continue;
            }
            // want: xor of chosen columns == cur (eq), or any nonzero column (ne)
            let mut flips: Vec<(u32, u32)> = vec![];
            if el.eq {
                let mut basis: Vec<(u64, Vec<(u32, u32)>)> = vec![];
                let sym = |a: &mut Vec<(u32, u32)>, b: &Vec<(u32, u32)>| {
                    for y in b {
                        match a.iter().position(|z| z == y) {
                            Some(i) => {
                                a.swap_remove(i);
                            }
                            None => a.push(*y),
                        }
                    }
                };
                for p in &el.privs {
                    let mut c = p.2;
                    let mut comb = vec![(p.0, p.1)];
                    for (b, cb) in &basis {
                        if c ^ b < c {
                            c ^= b;
                            sym(&mut comb, cb);
                        }
                    }
                    if c != 0 {
                        basis.push((c, comb));
                    }
                    if basis.len() as u32 == x.w(el.lin) {
                        break;
                    }
                }
                let mut c = cur;
                for (b, cb) in &basis {
                    if c ^ b < c {
                        c ^= b;
                        sym(&mut flips, cb);
                    }
                }
                if c != 0 {
                    return Res::Unknown;
                }
            } else {
                flips.push((el.privs[0].0, el.privs[0].1));
            }
            for (v, bit) in flips {
                let b = model.get(v as usize).copied().unwrap_or(0) ^ (1 << bit);
                set(&mut model, v, b);
            }
        }
        let mut vars: FxSet<u32> = Default::default();
        for e in cs {
            vars.extend(x.sets[x.vset[*e as usize] as usize].iter());
        }
        for e in cs {
            if x.eval(*e, &model) != 1 {
                return Res::Unknown;
            }
        }
        let mut mv: Vec<(u32, u8)> = vars.iter().map(|v| (*v, model.get(*v as usize).copied().unwrap_or(0))).collect();
        mv.sort_unstable();
        Res::Sat(std::rc::Rc::new(mv))
    }

    /// Constraints over large computations (hashes): first without those
    /// constraints, then with the computations as free variables, and only
    /// then in full.
    fn solve_staged(&mut self, x: &mut Ctx, cs: &[Ex], base: &[u8]) -> Res {
        const HEAVY: u32 = 400;
        if cs.iter().all(|e| x.size[*e as usize] as u32 <= HEAVY) {
            return self.solve_z3(x, cs);
        }
        let light: Vec<Ex> = cs.iter().copied().filter(|e| x.size[*e as usize] as u32 <= HEAVY).collect();
        if !light.is_empty() {
            match self.solve_z3(x, &light) {
                Res::Unsat => return Res::Unsat,
                Res::Sat(m) => {
                    let mut model = base.to_vec();
                    for (v, b) in m.iter() {
                        if *v as usize >= model.len() {
                            model.resize(*v as usize + 1, 0);
                        }
                        model[*v as usize] = *b;
                    }
                    if cs.iter().all(|e| x.eval(*e, &model) == 1) {
                        let mut vars: FxSet<u32> = Default::default();
                        for e in cs {
                            vars.extend(x.sets[x.vset[*e as usize] as usize].iter());
                        }
                        let mut mv: Vec<(u32, u8)> = vars.iter().map(|v| (*v, model.get(*v as usize).copied().unwrap_or(0))).collect();
                        mv.sort_unstable();
                        return Res::Sat(std::rc::Rc::new(mv));
                    }
                }
                Res::Unknown => {}
            }
        }
        let (bv, bl) = (std::mem::take(&mut self.bv), std::mem::take(&mut self.bl));
        self.abstracted = 250;
        let r = self.solve_z3(x, cs);
        self.abstracted = 0;
        if self.since_reset != 0 {
            self.bv = bv;
            self.bl = bl;
        }
        if r == Res::Unsat {
            return r;
        }
        self.solve_z3(x, cs)
    }

    fn solve_z3(&mut self, x: &Ctx, cs: &[Ex]) -> Res {
        let t0 = Instant::now();
        self.since_reset += 1;
        if self.abstracted == 0 && (self.since_reset > 4000 || self.bv.len() > 2_000_000) {
            self.reset();
        }
        let r = unsafe {
            let asts: Vec<P> = cs.iter().map(|e| self.tr_bool(x, *e)).collect();
            let (c, s) = (self.ctx, self.s);
            Z3_solver_push(c, s);
            for a in asts {
                Z3_solver_assert(c, s, a);
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vars: FxSet<u32> = Default::default();
                    for e in cs {
                        vars.extend(x.sets[x.vset[*e as usize] as usize].iter());
                    }
                    let mut vars: Vec<u32> = vars.into_iter().collect();
                    vars.sort_unstable();
                    let mut out = vec![];
                    for v in vars {
                        let sy = Z3_mk_int_symbol(c, v as c_int);
                        let t = Z3_mk_const(c, sy, Z3_mk_bv_sort(c, 8));
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(c, m, t, true, &mut o) {
                            Z3_get_numeral_uint64(c, o, &mut u);
                        }
                        out.push((v, u as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(std::rc::Rc::new(out))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, s, 1);
            out
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if self.dump && us > 200_000 {
            eprintln!("slow query {} us, {} constraints: {:?}", us, cs.len(), match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unk" });
            for e in cs {
                eprintln!("   {}", x.show(*e, 6));
            }
        }
        r
    }
}
