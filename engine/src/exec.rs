//! Forking symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub fid: u32,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<Ex>,
    pub known: Rc<FxMap<Ex, Ex>>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub steps: u64,
    pub forks: u32,
    pub reached: u64,
    pub notes: Vec<(u32, (Ex, u64))>,
    pub heap_live: u64,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Killed,
    Infeasible,
    Finding(String, String, u32), // kind, message, id
    Error(String),
    Unknown,
}
type R<T> = Result<T, End>;

pub struct Finding {
    pub kind: String,
    pub msg: String,
    pub id: u32,
    pub stack: Vec<String>,
    pub model: Vec<u8>,
    pub steps: u64,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_secs: f64,
    pub max_paths: u64,
    pub max_alloc: u64,
    pub max_findings: usize,
    pub mux_limit: u64,
}

pub struct Exec {
    pub m: Module,
    pub ctx: Ctx,
    pub solver: Solver,
    pub globals: BTreeMap<u64, Rc<Obj>>,
    pub work: Vec<State>,
    pub params: Vec<u64>,
    pub lim: Limits,
    pub t0: Instant,
    pub paths_done: u64,
    pub paths_killed: u64,
    pub paths_infeasible: u64,
    pub forks: u64,
    pub instrs: u64,
    pub max_path_steps: u64,
    pub findings: Vec<Finding>,
    pub errors: Vec<String>,
    pub incomplete: Vec<String>,
    pub reached: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub obligations: u64,
    pub discharged: u64,
    pub fn_hits: FxMap<u32, u64>,
    pub br_forks: FxMap<(u32, u32, u32), u64>,
    pub max_vars: u32,
    pub samples: Vec<(Vec<u8>, Vec<(u32, u64)>)>,
    pub errno_addr: u64,
    pub profile: bool,
    pub trace: bool,
}

fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Exec {
    pub fn new(m: Module, ctx: Ctx, lim: Limits, params: Vec<u64>, solver_ms: u32) -> Exec {
        let mut globals = BTreeMap::new();
        for g in &m.globals {
            globals.insert(g.addr, Rc::new(Obj::from_bytes(&g.data, g.constant)));
        }
        Exec {
            m,
            ctx,
            solver: Solver::new(solver_ms),
            globals,
            work: vec![],
            params,
            lim,
            t0: Instant::now(),
            paths_done: 0,
            paths_killed: 0,
            paths_infeasible: 0,
            forks: 0,
            instrs: 0,
            max_path_steps: 0,
            findings: vec![],
            errors: vec![],
            incomplete: vec![],
            reached: 0,
            asserts: 0,
            asserts_sym: 0,
            obligations: 0,
            discharged: 0,
            fn_hits: Default::default(),
            br_forks: Default::default(),
            max_vars: 0,
            samples: vec![],
            errno_addr: 0,
            profile: std::env::var("SYMEX_PROFILE").is_ok(),
            trace: std::env::var("SYMEX_TRACE").is_ok(),
        }
    }

    // ---- values ----
    fn norm(&self, e: Ex) -> Val {
        let n = self.ctx.n(e);
        if n.op == Op::Const && n.w <= 64 {
            Val::C(n.k as u64)
        } else {
            Val::S(e)
        }
    }
    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            Val::C(k) => self.ctx.konst(*k as u128, w),
            Val::S(e) => *e,
            Val::A(vs) => {
                // vector to integer
                let n = vs.len() as u32;
                let lw = w / n;
                let mut r = NONE;
                for x in vs.iter() {
                    let e = self.ex(x, lw);
                    r = if r == NONE { e } else { self.ctx.concat(e, r) };
                }
                r
            }
        }
    }
    fn wide_const(&self, v: &Val) -> Option<u128> {
        match v {
            Val::C(k) => Some(*k as u128),
            Val::S(e) => self.ctx.as_const(*e),
            _ => None,
        }
    }

    // ---- constraints ----
    fn add_known(&mut self, known: &mut FxMap<Ex, Ex>, c: Ex, depth: u32) {
        let t = self.ctx.tru();
        known.insert(c, t);
        let n = self.ctx.n(c);
        if depth > 64 {
            return;
        }
        match n.op {
            Op::And => {
                self.add_known(known, n.a, depth + 1);
                self.add_known(known, n.b, depth + 1);
            }
            Op::Eq => {
                if self.ctx.as_const(n.b).is_some() {
                    known.insert(n.a, n.b);
                }
            }
            Op::Xor if self.ctx.as_const(n.b) == Some(1) => {
                let f = self.ctx.fls();
                known.insert(n.a, f);
                let x = self.ctx.n(n.a);
                if x.op == Op::Or && x.w == 1 {
                    let p = self.ctx.not(x.a);
                    let q = self.ctx.not(x.b);
                    self.add_known(known, p, depth + 1);
                    self.add_known(known, q, depth + 1);
                }
            }
            _ => {}
        }
    }
    fn push_pc(&mut self, st: &mut State, c: Ex) {
        let n = self.ctx.n(c);
        if n.op == Op::And {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if n.op == Op::Xor && self.ctx.as_const(n.b) == Some(1) {
            let x = self.ctx.n(n.a);
            if x.op == Op::Or && x.w == 1 {
                let p = self.ctx.not(x.a);
                let q = self.ctx.not(x.b);
                self.push_pc(st, p);
                self.push_pc(st, q);
                return;
            }
        }
        if n.op == Op::Const {
            return;
        }
        st.pc.push(c);
    }
    fn add_constraint(&mut self, st: &mut State, orig: Ex, simp: Ex) {
        let mut k = std::mem::take(Rc::make_mut(&mut st.known));
        self.add_known(&mut k, simp, 0);
        if orig != simp {
            self.add_known(&mut k, orig, 0);
        }
        *Rc::make_mut(&mut st.known) = k;
        self.push_pc(st, simp);
    }
    fn simp(&mut self, st: &State, e: Ex) -> Ex {
        if self.ctx.size[e as usize] > 20000 || st.known.is_empty() {
            return st.known.get(&e).copied().unwrap_or(e);
        }
        let known = st.known.clone();
        self.ctx.subst(e, &known)
    }
    fn overlay(model: &Rc<Vec<u8>>, m: &[(u32, u8)]) -> Rc<Vec<u8>> {
        let mut v = (**model).clone();
        for (i, b) in m {
            if *i as usize >= v.len() {
                v.resize(*i as usize + 1, 0);
            }
            v[*i as usize] = *b;
        }
        Rc::new(v)
    }
    /// Decide a boolean, forking when both outcomes are possible. The forked
    /// state re-executes the current instruction.
    fn decide(&mut self, st: &mut State, cond: Ex) -> R<bool> {
        if let Some(k) = self.ctx.as_const(cond) {
            return Ok(k == 1);
        }
        let c = self.simp(st, cond);
        if let Some(k) = self.ctx.as_const(c) {
            return Ok(k == 1);
        }
        let model = st.model.clone();
        let v = self.ctx.eval(c, &model) == 1;
        let nc = self.ctx.not(c);
        let ncond = self.ctx.not(cond);
        let (taken, other, ot, oo) = if v { (c, nc, cond, ncond) } else { (nc, c, ncond, cond) };
        match self.solver.check(&mut self.ctx, &st.pc, other, &model) {
            Res::Unsat => {
                // implied: remember, no need to add to the path condition
                let t = taken;
                let mut k = std::mem::take(Rc::make_mut(&mut st.known));
                self.add_known(&mut k, t, 0);
                if ot != t {
                    self.add_known(&mut k, ot, 0);
                }
                *Rc::make_mut(&mut st.known) = k;
                Ok(v)
            }
            Res::Sat(m) => {
                self.forks += 1;
                if self.profile {
                    let f = st.frames.last().unwrap();
                    *self.br_forks.entry((f.fid, f.block, f.ip)).or_insert(0) += 1;
                }
                let mut o = st.clone();
                o.forks += 1;
                o.model = Self::overlay(&st.model, &m);
                self.add_constraint(&mut o, oo, other);
                self.work.push(o);
                self.add_constraint(st, ot, taken);
                Ok(v)
            }
            Res::Unknown => {
                if let Some(d) = std::env::var("SYMEX_SHOW").ok().and_then(|d| d.parse().ok()) {
                    eprintln!("undecided: {}", self.ctx.show(ot, d));
                    eprintln!("{}", self.ctx.listing(ot));
                    for c in st.pc.clone() {
                        eprintln!("given:\n{}", self.ctx.listing(c));
                    }
                }
                let s = format!("solver gave no answer at {}", self.where_(st));
                self.incomplete.push(s);
                self.add_constraint(st, ot, taken);
                Ok(v)
            }
        }
    }
    fn concretize(&mut self, st: &mut State, e: Ex) -> R<u64> {
        if let Some(k) = self.ctx.as_const(e) {
            return Ok(k as u64);
        }
        let s = self.simp(st, e);
        if let Some(k) = self.ctx.as_const(s) {
            return Ok(k as u64);
        }
        let model = st.model.clone();
        let v = self.ctx.eval(s, &model);
        let w = self.ctx.w(s);
        let k = self.ctx.konst(v, w);
        let c = self.ctx.eq(s, k);
        let r = self.decide(st, c)?;
        if !r {
            return Err(End::Error("concretize: model mismatch".into()));
        }
        Ok(v as u64)
    }
    fn conc_val(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(k) => Ok(*k),
            Val::S(e) => self.concretize(st, *e),
            Val::A(_) => Err(End::Error("concretize aggregate".into())),
        }
    }
    /// kill the path unless cond can hold; adds it
    /// A model of `c` and the path condition, if it only takes setting
    /// variables that `c` equates to something.
    fn repair(&mut self, st: &State, c: Ex) -> Option<Vec<u8>> {
        let mut m = (*st.model).clone();
        let mut todo = vec![c];
        while let Some(e) = todo.pop() {
            let n = self.ctx.n(e);
            if n.op == Op::And && n.w == 1 {
                todo.push(n.a);
                todo.push(n.b);
            } else if n.op == Op::Eq {
                for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                    let mut vars = Vec::new();
                    let mut t = x;
                    loop {
                        let nt = self.ctx.n(t);
                        match nt.op {
                            Op::Var => vars.insert(0, nt.k as u32),
                            Op::Concat if self.ctx.n(nt.a).op == Op::Var => {
                                vars.insert(0, self.ctx.n(nt.a).k as u32);
                                t = nt.b;
                                continue;
                            }
                            _ => vars.clear(),
                        }
                        break;
                    }
                    if !vars.is_empty() {
                        let v = self.ctx.eval(y, &m);
                        for (i, x) in vars.iter().enumerate() {
                            if *x as usize >= m.len() {
                                m.resize(*x as usize + 1, 0);
                            }
                            m[*x as usize] = (v >> (8 * i)) as u8;
                        }
                        break;
                    }
                }
            }
        }
        if self.ctx.eval(c, &m) != 1 || st.pc.iter().any(|p| self.ctx.eval(*p, &m) != 1) {
            return None;
        }
        Some(m)
    }
    fn assume(&mut self, st: &mut State, cond: Ex) -> R<()> {
        let c = self.simp(st, cond);
        if let Some(k) = self.ctx.as_const(c) {
            return if k == 1 { Ok(()) } else { Err(End::Infeasible) };
        }
        let model = st.model.clone();
        let repaired = if self.ctx.eval(c, &model) != 1 { self.repair(st, c) } else { None };
        if let Some(m) = repaired {
            st.model = Rc::new(m);
        } else if self.ctx.eval(c, &model) != 1 {
            match self.solver.check(&mut self.ctx, &st.pc, c, &model) {
                Res::Unsat => return Err(End::Infeasible),
                Res::Sat(m) => st.model = Self::overlay(&st.model, &m),
                Res::Unknown => return Err(End::Unknown),
            }
        }
        self.add_constraint(st, cond, c);
        Ok(())
    }

    fn note_val(&mut self, v: (Ex, u64), m: &[u8]) -> u64 {
        if v.0 == NONE {
            v.1
        } else {
            self.ctx.eval(v.0, m) as u64
        }
    }
    fn where_(&self, st: &State) -> String {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| format!("{}:{}:{}", self.m.funcs[f.fid as usize].name, f.block, f.ip))
            .collect::<Vec<_>>()
            .join(" < ")
    }

    // ---- memory ----
    fn find_obj<'a>(&'a self, st: &'a State, addr: u64) -> Option<(u64, &'a Rc<Obj>)> {
        if let Some(x) = st.mem.find(addr) {
            return Some(x);
        }
        let (b, o) = self.globals.range(..=addr).next_back()?;
        if addr - b < o.size || (o.size == 0 && addr == *b) {
            Some((*b, o))
        } else {
            None
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, base: u64) -> &'a mut Obj {
        if !st.mem.objs.contains_key(&base) {
            let g = self.globals[&base].clone();
            st.mem.objs.insert(base, g);
        }
        Rc::make_mut(st.mem.objs.get_mut(&base).unwrap())
    }
    fn bounds(&self, st: &State, addr: u64, n: u64) -> R<(u64, u64)> {
        match self.find_obj(st, addr) {
            Some((b, o)) if addr - b + n <= o.size => Ok((b, addr - b)),
            _ => Err(End::Finding(
                "memory".into(),
                format!("access of {n} bytes at {addr:#x} outside any object; {}", self.where_(st)),
                0,
            )),
        }
    }
    fn load_int(&mut self, st: &mut State, p: &Val, n: u64, w: u32) -> R<Val> {
        match p {
            Val::C(a) => {
                let (b, off) = self.bounds(st, *a, n)?;
                let o = match st.mem.objs.get(&b) {
                    Some(o) => o.clone(),
                    None => self.globals[&b].clone(),
                };
                if let Some(k) = o.read_conc(off, n) {
                    return Ok(mkc(&mut self.ctx, k & mask(w), w));
                }
                let mut e = o.read_sym(&mut self.ctx, off, n);
                if self.ctx.w(e) > w {
                    e = self.ctx.extract(e, 0, w);
                }
                Ok(self.norm(e))
            }
            Val::S(e) => {
                let e = self.simp(st, *e);
                if let Some(k) = self.ctx.as_const(e) {
                    return self.load_int(st, &Val::C(k as u64), n, w);
                }
                self.load_symbolic(st, e, n, w)
            }
            _ => Err(End::Error("load from aggregate pointer".into())),
        }
    }
    /// ensure that a symbolic address stays inside the object that holds its
    /// model value (forking off the other cases)
    fn resolve(&mut self, st: &mut State, e: Ex, n: u64) -> R<(u64, Rc<Obj>)> {
        let model = st.model.clone();
        let a0 = self.ctx.eval(e, &model) as u64;
        let (b, off) = self.bounds(st, a0, n)?;
        let _ = off;
        let o = match st.mem.objs.get(&b) {
            Some(o) => o.clone(),
            None => self.globals[&b].clone(),
        };
        let kb = self.ctx.konst(b as u128, 64);
        let d = self.ctx.sub(e, kb);
        let lim = self.ctx.konst((o.size - n + 1) as u128, 64);
        let c = self.ctx.ult(d, lim);
        let inb = self.decide(st, c)?;
        if !inb {
            return Err(End::Error("resolve: model mismatch".into()));
        }
        Ok((b, o))
    }
    fn load_symbolic(&mut self, st: &mut State, e: Ex, n: u64, w: u32) -> R<Val> {
        // pointer that is an ite of constants etc: concretize unless table-like
        let (b, o) = self.resolve(st, e, n)?;
        let kb = self.ctx.konst(b as u128, 64);
        let d = self.ctx.sub(e, kb);
        let d = self.simp(st, d);
        if let Some(k) = self.ctx.as_const(d) {
            return self.load_int(st, &Val::C(b + k as u64), n, w);
        }
        let maxoff = o.size - n;
        // constant displacement
        let mut d = d;
        let mut disp = 0u64;
        let nd = self.ctx.n(d);
        if nd.op == Op::Add {
            if let Some(k) = self.ctx.as_const(nd.b) {
                let (_, h) = self.ctx.rng(nd.a);
                if k <= maxoff as u128 && h <= (u64::MAX >> 1) as u128 {
                    disp = k as u64;
                    d = nd.a;
                }
            }
        }
        let zb = self.ctx.zero_bits(d, 40);
        let nb = 64 - (maxoff - disp).leading_zeros();
        // bits that vary
        let bits: Vec<u32> = (0..nb).filter(|i| (zb >> i) & 1 == 0).collect();
        let all_conc = o.pages.iter().all(|p| p.sym.is_none());
        let leaves = 1u64 << bits.len().min(40);
        let lim = if all_conc && o.ro { 4096 } else { self.lim.mux_limit };
        if leaves <= lim && n * 8 <= 64 {
            let bitx: Vec<Ex> = bits.iter().map(|i| self.ctx.extract(d, *i, 1)).collect();
            // leaf values
            let mut leaf: Vec<Ex> = Vec::with_capacity(leaves as usize);
            let mut conc: Vec<u64> = vec![];
            for i in 0..leaves {
                let mut off = disp;
                for (j, b) in bits.iter().enumerate() {
                    if (i >> j) & 1 == 1 {
                        off += 1 << b;
                    }
                }
                if off > maxoff {
                    let z = self.ctx.konst(0, (n * 8) as u32);
                    leaf.push(z);
                    conc.push(0);
                } else if let Some(k) = o.read_conc(off, n) {
                    conc.push(k as u64);
                    let x = self.ctx.konst(k, (n * 8) as u32);
                    leaf.push(x);
                } else {
                    let x = o.read_sym(&mut self.ctx, off, n);
                    leaf.push(x);
                }
            }
            let ew = (n * 8) as u32;
            let mut res = NONE;
            if all_conc && conc.len() == leaves as usize && leaves >= 16 {
                // affine over GF(2)?
                let c0 = conc[0];
                let mut affine = true;
                let basis: Vec<u64> = (0..bits.len()).map(|j| conc[1 << j] ^ c0).collect();
                for i in 0..leaves as usize {
                    let mut x = c0;
                    for (j, b) in basis.iter().enumerate() {
                        if (i >> j) & 1 == 1 {
                            x ^= b;
                        }
                    }
                    if x != conc[i] {
                        affine = false;
                        break;
                    }
                }
                if affine {
                    let r = self.ctx.lin_apply(d, &bits, c0, &basis, ew);
                    res = r;
                }
            }
            if res == NONE {
                let mut cur = leaf;
                for bx in &bitx {
                    let mut nx = Vec::with_capacity(cur.len() / 2);
                    for p in cur.chunks(2) {
                        nx.push(self.ctx.ite(*bx, p[1], p[0]));
                    }
                    cur = nx;
                }
                res = cur[0];
            }
            if ew > w {
                res = self.ctx.extract(res, 0, w);
            }
            return Ok(self.norm(res));
        }
        let a = self.concretize(st, e)?;
        self.load_int(st, &Val::C(a), n, w)
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => {
                let n = (*w as u64 + 7) / 8;
                self.load_int(st, p, n, *w)
            }
            Ty::Ptr | Ty::F64 => self.load_int(st, p, 8, 64),
            Ty::F32 => self.load_int(st, p, 4, 32),
            Ty::Arr(..) | Ty::St(..) | Ty::Vec(..) => {
                let a = self.conc_val(st, p)?;
                let mut v = vec![];
                if let Ty::Vec(n, t) = ty {
                    if t.bits() % 8 != 0 {
                        // e.g. <8 x i1>
                        let tot = n * t.bits();
                        let x = self.load_int(st, &Val::C(a), (tot as u64 + 7) / 8, tot)?;
                        return self.split_vec(&x, *n, t.bits());
                    }
                }
                for i in 0..ty.nelem() {
                    let t = ty.elem(i).clone();
                    v.push(self.load(st, &Val::C(a + ty.field_off(i)), &t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(End::Error(format!("load {ty:?}"))),
        }
    }
    fn split_vec(&mut self, x: &Val, n: u32, w: u32) -> R<Val> {
        let e = self.ex(x, n * w);
        let mut v = vec![];
        for i in 0..n {
            let l = self.ctx.extract(e, i * w, w);
            v.push(self.norm(l));
        }
        Ok(Val::A(Rc::new(v)))
    }
    fn store_int(&mut self, st: &mut State, a: u64, n: u64, v: &Val) -> R<()> {
        let (b, off) = self.bounds(st, a, n)?;
        if let Some(g) = self.globals.get(&b) {
            if g.ro && !st.mem.objs.contains_key(&b) {
                return Err(End::Finding("memory".into(), format!("write to constant; {}", self.where_(st)), 0));
            }
        }
        match v {
            Val::C(k) => self.obj_mut(st, b).write_conc(off, n, *k as u128),
            Val::S(e) => {
                if let Some(k) = self.ctx.as_const(*e) {
                    self.obj_mut(st, b).write_conc(off, n, k);
                    return Ok(());
                }
                let mut e = *e;
                let w = self.ctx.w(e);
                if (w as u64) < n * 8 {
                    e = self.ctx.zext(e, (n * 8) as u32);
                }
                if !st.mem.objs.contains_key(&b) {
                    let g = self.globals[&b].clone();
                    st.mem.objs.insert(b, g);
                }
                let o = Rc::make_mut(st.mem.objs.get_mut(&b).unwrap());
                o.write_sym(&mut self.ctx, off, n, e);
            }
            Val::A(_) => return Err(End::Error("store aggregate as int".into())),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_int(st, a, (*w as u64 + 7) / 8, v),
            Ty::Ptr | Ty::F64 => self.store_int(st, a, 8, v),
            Ty::F32 => self.store_int(st, a, 4, v),
            Ty::Arr(..) | Ty::St(..) | Ty::Vec(..) => {
                if let Ty::Vec(n, t) = ty {
                    if t.bits() % 8 != 0 {
                        let tot = n * t.bits();
                        let e = self.ex(v, tot);
                        let v = self.norm(e);
                        return self.store_int(st, a, (tot as u64 + 7) / 8, &v);
                    }
                }
                match v {
                    Val::A(vs) => {
                        for (i, x) in vs.iter().enumerate() {
                            let t = ty.elem(i).clone();
                            self.store(st, a + ty.field_off(i), &t, x)?;
                        }
                        Ok(())
                    }
                    _ => Err(End::Error("store scalar as aggregate".into())),
                }
            }
            _ => Err(End::Error(format!("store {ty:?}"))),
        }
    }
    /// memmove whose source address may be symbolic: short ones are read
    /// byte by byte (see load_symbolic), others concretize the source.
    fn copy_from(&mut self, st: &mut State, d: u64, s: &Val, n: u64) -> R<()> {
        if let Val::S(e) = s {
            if n == 0 {
                return Ok(());
            }
            if n <= 64 {
                // the range as a whole has to be inside one object
                let (b, o) = self.resolve(st, *e, n)?;
                let _ = (b, o);
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n {
                    let k = self.ctx.konst(i as u128, 64);
                    let a = self.ctx.bin(Op::Add, *e, k);
                    v.push(self.load_int(st, &Val::S(a), 1, 8)?);
                }
                for (i, x) in v.iter().enumerate() {
                    self.store_int(st, d + i as u64, 1, x)?;
                }
                return Ok(());
            }
        }
        let s = self.conc_val(st, s)?;
        self.copy(st, d, s, n)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sb, so) = self.bounds(st, s, n)?;
        let (db, dof) = self.bounds(st, d, n)?;
        let o = match st.mem.objs.get(&sb) {
            Some(o) => o.clone(),
            None => self.globals[&sb].clone(),
        };
        // whole-page sharing
        if so as usize % PAGE == 0 && dof as usize % PAGE == 0 && n as usize >= PAGE && sb != db {
            let full = n as usize / PAGE;
            let pages: Vec<Rc<Page>> = o.pages[so as usize / PAGE..so as usize / PAGE + full].to_vec();
            let dobj = self.obj_mut(st, db);
            for (i, p) in pages.into_iter().enumerate() {
                dobj.pages[dof as usize / PAGE + i] = p;
            }
            let done = (full * PAGE) as u64;
            return self.copy(st, d + done, s + done, n - done);
        }
        let (data, sym) = o.copy_out(so, n);
        drop(o);
        self.obj_mut(st, db).copy_in(dof, &data, sym.as_deref());
        Ok(())
    }
    fn read_cstr(&self, st: &State, p: u64, n: u64) -> String {
        if n > 4096 {
            return String::new();
        }
        match self.bounds(st, p, n) {
            Ok((b, off)) => {
                let o = match st.mem.objs.get(&b) {
                    Some(o) => o,
                    None => &self.globals[&b],
                };
                let (d, _) = o.copy_out(off, n);
                String::from_utf8_lossy(&d).into_owned()
            }
            _ => String::new(),
        }
    }

    // ---- scalar ops ----
    fn bin(&mut self, st: &mut State, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => (sx(x, w) >> y.min(63)) as u64,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return Err(End::Finding("div".into(), format!("division by zero {}", self.where_(st)), 0));
                    }
                    match op {
                        BinOp::UDiv => x / y,
                        BinOp::URem => x % y,
                        BinOp::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                        _ => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                    }
                }
            };
            return Ok(Val::C(r & m));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = vec![];
            for (p, q) in x.clone().iter().zip(y.clone().iter()) {
                v.push(self.bin(st, op, w, p, q)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let c = &mut self.ctx;
        let r = match op {
            BinOp::Add => c.bin(Op::Add, x, y),
            BinOp::Sub => c.sub(x, y),
            BinOp::Mul => c.bin(Op::Mul, x, y),
            BinOp::UDiv => c.bin(Op::UDiv, x, y),
            BinOp::URem => c.bin(Op::URem, x, y),
            BinOp::SDiv => c.bin(Op::SDiv, x, y),
            BinOp::SRem => c.bin(Op::SRem, x, y),
            BinOp::And => c.bin(Op::And, x, y),
            BinOp::Or => c.bin(Op::Or, x, y),
            BinOp::Xor => c.bin(Op::Xor, x, y),
            BinOp::Shl => c.bin(Op::Shl, x, y),
            BinOp::LShr => c.bin(Op::LShr, x, y),
            BinOp::AShr => c.bin(Op::AShr, x, y),
        };
        Ok(self.norm(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sxx, syy) = (sx(x, w), sx(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sxx > syy,
                Pred::Sge => sxx >= syy,
                Pred::Slt => sxx < syy,
                Pred::Sle => sxx <= syy,
            };
            return Val::C(r as u64);
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let v = x.clone().iter().zip(y.clone().iter()).map(|(p1, q)| self.icmp(p, w, p1, q)).collect();
            return Val::A(Rc::new(v));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let c = &mut self.ctx;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let t = c.eq(x, y);
                c.not(t)
            }
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => {
                let t = c.slt(x, y);
                c.not(t)
            }
            Pred::Slt => c.slt(x, y),
            Pred::Sle => {
                let t = c.slt(y, x);
                c.not(t)
            }
        };
        self.norm(r)
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        if let (Ty::Vec(n, f), Ty::Vec(n2, t)) = (from, to) {
            if n == n2 {
                if let Val::A(v) = a {
                    let mut o = vec![];
                    for x in v.clone().iter() {
                        o.push(self.cast(k, f, t, x)?);
                    }
                    return Ok(Val::A(Rc::new(o)));
                }
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        match k {
            Cast::Bit => {
                if from.is_agg() || to.is_agg() {
                    let e = self.ex(a, fw);
                    if let Ty::Vec(n, t) = to {
                        let x = self.norm(e);
                        return self.split_vec(&x, *n, t.bits());
                    }
                    return Ok(self.norm(e));
                }
                Ok(a.clone())
            }
            Cast::Trunc => {
                if let Val::C(x) = a {
                    return Ok(Val::C(x & m64(tw)));
                }
                let e = self.ex(a, fw);
                let r = self.ctx.extract(e, 0, tw);
                Ok(self.norm(r))
            }
            Cast::ZExt => {
                if let (Val::C(_), true) = (a, tw <= 64) {
                    return Ok(a.clone());
                }
                let e = self.ex(a, fw);
                let r = self.ctx.zext(e, tw);
                Ok(self.norm(r))
            }
            Cast::SExt => {
                if let (Val::C(x), true) = (a, tw <= 64) {
                    return Ok(Val::C(sx(*x, fw) as u64 & m64(tw)));
                }
                let e = self.ex(a, fw);
                let r = self.ctx.sext(e, tw);
                Ok(self.norm(r))
            }
        }
    }
    fn select(&mut self, st: &mut State, ty: &Ty, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::S(e) => {
                let e = st.known.get(e).copied().unwrap_or(*e);
                if let Some(k) = self.ctx.as_const(e) {
                    return Ok(if k == 1 { a.clone() } else { b.clone() });
                }
                if ty.is_agg() {
                    if let (Val::A(x), Val::A(y)) = (a, b) {
                        let mut v = vec![];
                        for (i, (p, q)) in x.clone().iter().zip(y.clone().iter()).enumerate() {
                            let t = ty.elem(i).clone();
                            v.push(self.select(st, &t, &Val::S(e), p, q)?);
                        }
                        return Ok(Val::A(Rc::new(v)));
                    }
                }
                if *ty == Ty::Ptr {
                    // avoid symbolic pointers between different objects
                    if let (Val::C(x), Val::C(y)) = (a, b) {
                        if x == y {
                            return Ok(a.clone());
                        }
                        let ox = self.find_obj(st, *x).map(|t| t.0);
                        let oy = self.find_obj(st, *y).map(|t| t.0);
                        if ox != oy || ox.is_none() {
                            let t = self.decide(st, e)?;
                            return Ok(if t { a.clone() } else { b.clone() });
                        }
                    }
                }
                let w = ty.bits();
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.ctx.ite(e, x, y);
                Ok(self.norm(r))
            }
            Val::A(cs) => {
                let (x, y) = match (a, b) {
                    (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                    _ => return Err(End::Error("vector select".into())),
                };
                let t = ty.elem(0).clone();
                let mut v = vec![];
                for i in 0..cs.len() {
                    v.push(self.select(st, &t, &cs[i].clone(), &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
        }
    }

    // ---- control ----
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.block;
        let func = f.func.clone();
        let b = &func.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let mut found = false;
                for (pb, o) in &p.inc {
                    if *pb == from {
                        let v = match o {
                            Opd::R(r) => f.regs[*r as usize].clone(),
                            Opd::K(v) => v.clone(),
                        };
                        vals.push((p.d, v));
                        found = true;
                        break;
                    }
                }
                debug_assert!(found);
                if !found {
                    self.errors.push("phi without incoming".into());
                }
            }
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        f.block = to;
        f.ip = 0;
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    fn finish_call(&mut self, st: &mut State, d: Option<u32>, v: Val, normal: Option<u32>) {
        if let Some(d) = d {
            self.set(st, d, v);
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
    }
    fn push_frame(&mut self, st: &mut State, fid: u32, args: Vec<Val>, ret: Option<u32>, normal: Option<u32>) -> R<()> {
        let func = self.m.func(fid, &mut self.ctx);
        if st.frames.len() > 400 {
            return Err(End::Finding("stack".into(), "call depth over 400".into(), 0));
        }
        *self.fn_hits.entry(fid).or_insert(0) += 1;
        let mut regs = vec![Val::C(0); func.nregs as usize];
        for (i, p) in func.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        st.frames.push(Frame { func, fid, regs, block: 0, ip: 0, ret, normal, allocas: vec![] });
        Ok(())
    }

    pub fn run(&mut self, entry: &str) {
        let fid = match self.m.fidx.get(entry) {
            Some(f) => *f,
            None => {
                self.errors.push(format!("no entry {entry}"));
                return;
            }
        };
        let mut st = State {
            frames: vec![],
            mem: Mem { objs: Default::default(), next: 0x1_0000_0000, bytes: 0 },
            pc: vec![],
            known: Default::default(),
            model: Default::default(),
            nvars: 0,
            steps: 0,
            forks: 0,
            reached: 0,
            notes: vec![],
            heap_live: 0,
        };
        self.errno_addr = st.mem.alloc(16, 16, 0);
        if let Err(e) = self.push_frame(&mut st, fid, vec![], None, None) {
            self.errors.push(format!("{e:?}"));
            return;
        }
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.lim.max_secs {
                self.incomplete.push(format!("time limit, {} states left", self.work.len() + 1));
                break;
            }
            if self.paths_done + self.paths_infeasible > self.lim.max_paths {
                self.incomplete.push(format!("path limit, {} states left", self.work.len() + 1));
                break;
            }
            let end = loop {
                match self.slice_run(&mut st) {
                    Ok(()) => {
                        if self.t0.elapsed().as_secs_f64() > self.lim.max_secs {
                            break End::Error("time limit inside a path".into());
                        }
                    }
                    Err(e) => break e,
                }
            };
            self.max_path_steps = self.max_path_steps.max(st.steps);
            self.max_vars = self.max_vars.max(st.nvars);
            if self.trace {
                eprintln!("path end {end:?} steps {} forks {} notes {:?}", st.steps, st.forks, st.notes);
            }
            match end {
                End::Done => {
                    self.paths_done += 1;
                    self.reached |= st.reached;
                    if self.samples.len() < 3 || (self.paths_done % 997 == 0 && self.samples.len() < 6) {
                        let mut v = (*st.model).clone();
                        v.resize(st.nvars as usize, 0);
                        let m = st.model.clone();
                        let notes = st.notes.iter().map(|(i, e)| (*i, self.note_val(*e, &m))).collect();
                        self.samples.push((v, notes));
                    }
                }
                End::Killed => {
                    self.paths_killed += 1;
                    self.reached |= st.reached;
                }
                End::Infeasible => self.paths_infeasible += 1,
                End::Unknown => self.incomplete.push(format!("solver gave no answer; {}", self.where_(&st))),
                End::Finding(kind, msg, id) => {
                    let mut v = (*st.model).clone();
                    v.resize(st.nvars as usize, 0);
                    let stack = st.frames.iter().rev().map(|f| self.m.funcs[f.fid as usize].name.clone()).collect();
                    self.findings.push(Finding { kind, msg, id, stack, model: v, steps: st.steps });
                    if self.findings.len() >= self.lim.max_findings {
                        break;
                    }
                }
                End::Error(e) => {
                    let w = self.where_(&st);
                    if e.starts_with("time limit") {
                        self.incomplete.push(format!("{e}; {w}"));
                        break;
                    }
                    self.errors.push(format!("{e}; {w}"));
                    if self.errors.len() > 5 {
                        break;
                    }
                }
            }
        }
        if self.profile {
            let mut v: Vec<_> = self.br_forks.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, b, i), n) in v.iter().take(25) {
                eprintln!("forks {n:8} {}:{b}:{i}", self.m.funcs[*f as usize].name);
            }
            eprintln!("exprs {} sets {}", self.ctx.nodes.len(), self.ctx.sets.len());
        }
    }

    /// run up to a slice of instructions
    fn slice_run(&mut self, st: &mut State) -> R<()> {
        for _ in 0..2_000_000u32 {
            if st.frames.is_empty() {
                return Err(End::Done);
            }
            let fr = st.frames.last().unwrap();
            let func = fr.func.clone();
            let ins: &I = &func.blocks[fr.block as usize].insts[fr.ip as usize];
            st.steps += 1;
            self.instrs += 1;
            if st.steps > self.lim.max_steps {
                return Err(End::Finding("hang".into(), format!("more than {} steps; {}", self.lim.max_steps, self.where_(st)), 0));
            }
            self.step(st, ins)?;
        }
        Ok(())
    }

    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    fn step(&mut self, st: &mut State, ins: &I) -> R<()> {
        match ins {
            I::Bin { op, w, d, a, b, .. } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.bin(st, *op, *w, &x, &y)?;
                self.set(st, *d, v);
            }
            I::Icmp { p, w, d, a, b, .. } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.icmp(*p, *w, &x, &y);
                self.set(st, *d, v);
            }
            I::Cast { k, from, to, d, a } => {
                let x = self.get(st, a);
                let v = self.cast(*k, from, to, &x)?;
                self.set(st, *d, v);
            }
            I::Load { ty, d, p } => {
                let x = self.get(st, p);
                let v = self.load(st, &x, ty)?;
                self.set(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let pv = self.get(st, p);
                let a = self.conc_val(st, &pv)?;
                let x = self.get(st, v);
                self.store(st, a, ty, &x)?;
            }
            I::Gep { d, base, off, idx } => {
                let b = self.get(st, base);
                let mut conc = *off;
                let mut symb = NONE;
                for (o, w, scale) in idx {
                    match self.get(st, o) {
                        Val::C(k) => conc = conc.wrapping_add((sx(k, *w) as u64).wrapping_mul(*scale)),
                        Val::S(e) => {
                            let x = self.ctx.sext(e, 64);
                            let s = self.ctx.konst(*scale as u128, 64);
                            let t = self.ctx.bin(Op::Mul, x, s);
                            symb = if symb == NONE { t } else { self.ctx.bin(Op::Add, symb, t) };
                        }
                        _ => return Err(End::Error("gep index".into())),
                    }
                }
                let v = match (b, symb) {
                    (Val::C(k), NONE) => Val::C(k.wrapping_add(conc)),
                    (b, symb) => {
                        let x = self.ex(&b, 64);
                        let k = self.ctx.konst(conc as u128, 64);
                        let mut t = self.ctx.bin(Op::Add, x, k);
                        if symb != NONE {
                            t = self.ctx.bin(Op::Add, t, symb);
                        }
                        self.norm(t)
                    }
                };
                self.set(st, *d, v);
            }
            I::Select { ty, d, c, a, b, .. } => {
                let (c, x, y) = (self.get(st, c), self.get(st, a), self.get(st, b));
                let v = self.select(st, ty, &c, &x, &y)?;
                self.set(st, *d, v);
            }
            I::Br(t) => {
                self.jump(st, *t);
                return Ok(());
            }
            I::CondBr { c, t, f } => {
                let b = match self.get(st, c) {
                    Val::C(k) => k & 1 == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return Err(End::Error("br".into())),
                };
                self.jump(st, if b { *t } else { *f });
                return Ok(());
            }
            I::Switch { w, v, def, cases } => {
                match self.get(st, v) {
                    Val::C(k) => {
                        let t = cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::S(e) => {
                        let e = self.simp(st, e);
                        if let Some(k) = self.ctx.as_const(e) {
                            let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                            self.jump(st, t);
                            return Ok(());
                        }
                        // group the cases by target
                        let mut targets: Vec<(u32, Ex)> = vec![];
                        for (k, t) in cases {
                            let kk = self.ctx.konst(*k, *w);
                            let c = self.ctx.eq(e, kk);
                            match targets.iter_mut().find(|x| x.0 == *t) {
                                Some(x) => x.1 = self.ctx.bin(Op::Or, x.1, c),
                                None => targets.push((*t, c)),
                            }
                        }
                        for (t, c) in targets {
                            if t == *def {
                                continue;
                            }
                            if self.decide(st, c)? {
                                self.jump(st, t);
                                return Ok(());
                            }
                        }
                        self.jump(st, *def);
                    }
                    _ => return Err(End::Error("switch".into())),
                }
                return Ok(());
            }
            I::Ret(v) => {
                let val = v.as_ref().map(|o| self.get(st, o));
                let f = st.frames.pop().unwrap();
                for a in f.allocas {
                    st.mem.objs.remove(&a);
                }
                if st.frames.is_empty() {
                    return Err(End::Done);
                }
                self.finish_call(st, f.ret, val.unwrap_or(Val::C(0)), f.normal);
                return Ok(());
            }
            I::Call { d, ty, f, args, normal } => return self.call(st, *d, ty, f, args, *normal),
            I::ExtractValue { d, a, idx } => {
                let mut v = self.get(st, a);
                for i in idx {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(End::Error("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
            }
            I::InsertValue { d, a, v, idx } => {
                let agg = self.get(st, a);
                let x = self.get(st, v);
                let r = Self::insert(&agg, idx, x).ok_or_else(|| End::Error("insertvalue".into()))?;
                self.set(st, *d, r);
            }
            I::ExtractElem { d, a, i } => {
                let iv = self.get(st, i);
                let k = self.conc_val(st, &iv)?;
                let v = match self.get(st, a) {
                    Val::A(x) => x[k as usize].clone(),
                    _ => return Err(End::Error("extractelement".into())),
                };
                self.set(st, *d, v);
            }
            I::InsertElem { d, a, v, i } => {
                let iv = self.get(st, i);
                let k = self.conc_val(st, &iv)?;
                let agg = self.get(st, a);
                let x = self.get(st, v);
                let r = Self::insert(&agg, &[k as u32], x).ok_or_else(|| End::Error("insertelement".into()))?;
                self.set(st, *d, r);
            }
            I::Shuffle { d, a, b, m, n } => {
                let (x, y) = match (self.get(st, a), self.get(st, b)) {
                    (Val::A(x), Val::A(y)) => (x, y),
                    _ => return Err(End::Error("shuffle".into())),
                };
                let v = m
                    .iter()
                    .map(|i| {
                        let i = *i as usize;
                        if i < *n {
                            x[i].clone()
                        } else {
                            y[i - n].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, Val::A(Rc::new(v)));
            }
            I::Alloca { d, size, align } => {
                let a = st.mem.alloc(*size, *align, 1);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, *d, Val::C(a));
            }
            I::Copy { d, a } => {
                let v = self.get(st, a);
                self.set(st, *d, v);
            }
            I::Nop => {}
            I::Unreachable => {
                return Err(End::Finding("unreachable".into(), format!("unreachable executed; {}", self.where_(st)), 0));
            }
            I::AtomicRmw { d, op, ty, p, v } => {
                let pv = self.get(st, p);
                let a = self.conc_val(st, &pv)?;
                let old = self.load(st, &Val::C(a), ty)?;
                let x = self.get(st, v);
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(st, BinOp::Add, w, &old, &x)?,
                    "sub" => self.bin(st, BinOp::Sub, w, &old, &x)?,
                    "and" => self.bin(st, BinOp::And, w, &old, &x)?,
                    "or" => self.bin(st, BinOp::Or, w, &old, &x)?,
                    "xor" => self.bin(st, BinOp::Xor, w, &old, &x)?,
                    _ => return Err(End::Error(format!("atomicrmw {op}"))),
                };
                self.store(st, a, ty, &new)?;
                self.set(st, *d, old);
            }
            I::CmpXchg { d, ty, p, c, n } => {
                let pv = self.get(st, p);
                let a = self.conc_val(st, &pv)?;
                let old = self.load(st, &Val::C(a), ty)?;
                let cv = self.get(st, c);
                let eqv = self.icmp(Pred::Eq, ty.bits(), &old, &cv);
                let k = self.conc_val(st, &eqv)?;
                if k == 1 {
                    let nv = self.get(st, n);
                    self.store(st, a, ty, &nv)?;
                }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::C(k)])));
            }
            I::Unsupported(s) => return Err(End::Error(format!("unsupported instruction {s}"))),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn insert(agg: &Val, idx: &[u32], x: Val) -> Option<Val> {
        if idx.is_empty() {
            return Some(x);
        }
        match agg {
            Val::A(v) => {
                let mut v2 = (**v).clone();
                let i = idx[0] as usize;
                v2[i] = Self::insert(&v2[i], &idx[1..], x)?;
                Some(Val::A(Rc::new(v2)))
            }
            _ => None,
        }
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, ty: &Ty, f: &Callee, args: &[(Opd, Ty)], normal: Option<u32>) -> R<()> {
        let fid = match f {
            Callee::Func(f) => *f,
            Callee::Ind(o) => {
                let v = self.get(st, o);
                let a = self.conc_val(st, &v)?;
                match self.m.faddr.get(&a) {
                    Some(f) => *f,
                    None => return Err(End::Error(format!("indirect call to {a:#x}"))),
                }
            }
            Callee::Asm => {
                self.finish_call(st, d, Val::C(0), normal);
                return Ok(());
            }
        };
        let vals: Vec<Val> = args.iter().map(|(o, _)| self.get(st, o)).collect();
        match self.m.funcs[fid as usize].hook {
            Hook::None => self.push_frame(st, fid, vals, d, normal),
            Hook::Panic => {
                let mut msg = self.m.funcs[fid as usize].name.clone();
                // the last pointer argument is usually a Location
                if let Some(Val::C(loc)) = vals.last() {
                    if self.bounds(st, *loc, 24).is_ok() {
                        let p = self.load_int(st, &Val::C(*loc), 8, 64)?;
                        let n = self.load_int(st, &Val::C(*loc + 8), 8, 64)?;
                        let l = self.load_int(st, &Val::C(*loc + 16), 4, 32)?;
                        if let (Val::C(p), Val::C(n), Val::C(l)) = (p, n, l) {
                            msg = format!("{}:{} ({})", self.read_cstr(st, p, n), l, msg);
                        }
                    }
                }
                Err(End::Finding("panic".into(), msg, 0))
            }
            Hook::Abort => Err(End::Finding("abort".into(), self.where_(st), 0)),
            Hook::Intrin => {
                let name = self.m.funcs[fid as usize].name.clone();
                let tys: Vec<Ty> = args.iter().map(|a| a.1.clone()).collect();
                let v = self.intrinsic(st, &name, ty, &vals, &tys)?;
                self.finish_call(st, d, v, normal);
                Ok(())
            }
            Hook::Ext => {
                let name = self.m.funcs[fid as usize].name.clone();
                let v = self.external(st, &name, &vals)?;
                self.finish_call(st, d, v, normal);
                Ok(())
            }
        }
    }

    fn lanes(&mut self, st: &mut State, name: &str, ty: &Ty, a: &[Val], tys: &[Ty]) -> R<Option<Val>> {
        if let (Ty::Vec(n, t), Some(Val::A(_))) = (ty, a.first()) {
            let mut out = vec![];
            for i in 0..*n as usize {
                let la: Vec<Val> = a
                    .iter()
                    .map(|x| match x {
                        Val::A(v) => v[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                let lt: Vec<Ty> = tys
                    .iter()
                    .map(|x| match x {
                        Ty::Vec(_, t) => (**t).clone(),
                        o => o.clone(),
                    })
                    .collect();
                let t = (**t).clone();
                out.push(self.intrinsic(st, name, &t, &la, &lt)?);
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        Ok(None)
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, ty: &Ty, a: &[Val], tys: &[Ty]) -> R<Val> {
        let n = &name[5..];
        let base: &str = {
            // strip type suffixes
            let mut e = n.len();
            for (i, _) in n.match_indices('.') {
                let rest = &n[i + 1..];
                let c = rest.as_bytes().first().copied().unwrap_or(0);
                if (c == b'i' || c == b'p' || c == b'v' || c == b'f')
                    && rest.len() > 1
                    && rest.as_bytes()[1].is_ascii_digit()
                {
                    e = i;
                    break;
                }
            }
            &n[..e]
        };
        match base {
            "lifetime.start" | "lifetime.end" | "experimental.noalias.scope.decl" | "dbg.value" | "dbg.declare" | "assume"
            | "x86.sse2.pause" | "prefetch" | "invariant.start" | "invariant.end" | "donothing" | "sideeffect" => return Ok(Val::C(0)),
            "trap" | "ubsantrap" | "debugtrap" => return Err(End::Finding("abort".into(), format!("trap {}", self.where_(st)), 0)),
            "expect" | "expect.with.probability" | "threadlocal.address" | "ssa.copy" | "launder.invariant.group" => return Ok(a[0].clone()),
            "is.constant" => return Ok(Val::C(0)),
            "objectsize" => return Ok(Val::C(u64::MAX)),
            "memcpy" | "memmove" | "memcpy.inline" => {
                let len = self.conc_val(st, &a[2])?;
                let d = self.conc_val(st, &a[0])?;
                self.copy_from(st, d, &a[1], len)?;
                return Ok(Val::C(0));
            }
            "memset" | "memset.inline" => {
                let len = self.conc_val(st, &a[2])?;
                let d = self.conc_val(st, &a[0])?;
                self.memset(st, d, &a[1], len)?;
                return Ok(Val::C(0));
            }
            _ => {}
        }
        if !base.starts_with("vector.reduce") && !base.starts_with("x86.") {
            if let Some(v) = self.lanes(st, name, ty, a, tys)? {
                return Ok(v);
            }
        }
        let w = if tys.is_empty() || tys[0].is_agg() || matches!(tys[0], Ty::Void | Ty::Other) { 64 } else { tys[0].bits() };
        match base {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                self.select(st, &Ty::Int(w), &c, &a[0], &a[1])
            }
            "uadd.sat" => {
                let s = self.bin(st, BinOp::Add, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &s, &a[0]);
                let m = mkc(&mut self.ctx, u128::MAX, w);
                self.select(st, &Ty::Int(w), &c, &m, &s)
            }
            "usub.sat" => {
                let s = self.bin(st, BinOp::Sub, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                let m = mkc(&mut self.ctx, 0, w);
                self.select(st, &Ty::Int(w), &c, &m, &s)
            }
            "sadd.sat" | "ssub.sat" => {
                let op = if base == "sadd.sat" { BinOp::Add } else { BinOp::Sub };
                let s = self.bin(st, op, w, &a[0], &a[1])?;
                let x = self.ex(&a[0], w);
                let y = self.ex(&a[1], w);
                let x1 = self.ctx.sext(x, w + 1);
                let y1 = self.ctx.sext(y, w + 1);
                let t = if op == BinOp::Add { self.ctx.bin(Op::Add, x1, y1) } else { self.ctx.sub(x1, y1) };
                let se = self.ex(&s, w);
                let s1 = self.ctx.sext(se, w + 1);
                let c = self.ctx.eq(t, s1);
                let c = self.norm(c);
                // an overflow saturates towards the sign of the first operand
                let z = mkc(&mut self.ctx, 0, w);
                let neg = self.icmp(Pred::Slt, w, &a[0], &z);
                let lo = mkc(&mut self.ctx, 1u128 << (w - 1), w);
                let hi = mkc(&mut self.ctx, (1u128 << (w - 1)) - 1, w);
                let lim = self.select(st, &Ty::Int(w), &neg, &lo, &hi)?;
                self.select(st, &Ty::Int(w), &c, &s, &lim)
            }
            "ptrmask" => self.bin(st, BinOp::And, 64, &a[0], &a[1]),
            "uadd.with.overflow" => {
                let s = self.bin(st, BinOp::Add, w, &a[0], &a[1])?;
                let c = match (&a[0], &a[1]) {
                    (x, Val::C(k)) | (Val::C(k), x) if w <= 64 => {
                        // overflow iff x > max - k
                        let lim = Val::C(m64(w) - k);
                        self.icmp(Pred::Ugt, w, x, &lim)
                    }
                    _ => self.icmp(Pred::Ult, w, &s, &a[0]),
                };
                Ok(Val::A(Rc::new(vec![s, c])))
            }
            "usub.with.overflow" => {
                let s = self.bin(st, BinOp::Sub, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                Ok(Val::A(Rc::new(vec![s, c])))
            }
            "umul.with.overflow" => {
                let s = self.bin(st, BinOp::Mul, w, &a[0], &a[1])?;
                if let (Some(x), Some(y)) = (self.wide_const(&a[0]), self.wide_const(&a[1])) {
                    let o = match x.checked_mul(y) {
                        Some(p) => p > mask(w),
                        None => true,
                    };
                    return Ok(Val::A(Rc::new(vec![s, Val::C(o as u64)])));
                }
                if let (x, Val::C(k)) | (Val::C(k), x) = (&a[0], &a[1]) {
                    if w <= 64 {
                        let c = if *k == 0 {
                            Val::C(0)
                        } else {
                            self.icmp(Pred::Ugt, w, x, &Val::C(m64(w) / k))
                        };
                        return Ok(Val::A(Rc::new(vec![s, c])));
                    }
                }
                if w > 64 {
                    return Err(End::Error("wide umul overflow".into()));
                }
                let x = self.ex(&a[0], w);
                let y = self.ex(&a[1], w);
                let (rx, ry) = (self.ctx.rng(x), self.ctx.rng(y));
                if let Some(p) = rx.1.checked_mul(ry.1) {
                    if p <= mask(w) {
                        return Ok(Val::A(Rc::new(vec![s, Val::C(0)])));
                    }
                }
                let x2 = self.ctx.zext(x, 2 * w);
                let y2 = self.ctx.zext(y, 2 * w);
                let p = self.ctx.bin(Op::Mul, x2, y2);
                let h = self.ctx.extract(p, w, w);
                let z = self.ctx.konst(0, w);
                let c = self.ctx.eq(h, z);
                let c = self.ctx.not(c);
                let c = self.norm(c);
                Ok(Val::A(Rc::new(vec![s, c])))
            }
            "sadd.with.overflow" | "ssub.with.overflow" => {
                let op = if base.starts_with("sadd") { BinOp::Add } else { BinOp::Sub };
                let s = self.bin(st, op, w, &a[0], &a[1])?;
                let x = self.ex(&a[0], w);
                let y = self.ex(&a[1], w);
                let x1 = self.ctx.sext(x, w + 1);
                let y1 = self.ctx.sext(y, w + 1);
                let t = if op == BinOp::Add { self.ctx.bin(Op::Add, x1, y1) } else { self.ctx.sub(x1, y1) };
                let se = self.ex(&s, w);
                let s1 = self.ctx.sext(se, w + 1);
                let c = self.ctx.eq(t, s1);
                let c = self.ctx.not(c);
                let c = self.norm(c);
                Ok(Val::A(Rc::new(vec![s, c])))
            }
            "smul.with.overflow" if w <= 64 => {
                let s = self.bin(st, BinOp::Mul, w, &a[0], &a[1])?;
                let x = self.ex(&a[0], w);
                let y = self.ex(&a[1], w);
                let x1 = self.ctx.sext(x, 2 * w);
                let y1 = self.ctx.sext(y, 2 * w);
                let t = self.ctx.bin(Op::Mul, x1, y1);
                let se = self.ex(&s, w);
                let s1 = self.ctx.sext(se, 2 * w);
                let c = self.ctx.eq(t, s1);
                let c = self.ctx.not(c);
                let c = self.norm(c);
                Ok(Val::A(Rc::new(vec![s, c])))
            }
            "abs" => {
                let z = mkc(&mut self.ctx, 0, w);
                let ng = self.bin(st, BinOp::Sub, w, &z, &a[0])?;
                let c = self.icmp(Pred::Slt, w, &a[0], &z);
                self.select(st, &Ty::Int(w), &c, &ng, &a[0])
            }
            "ucmp" | "scmp" => {
                let rw = ty.bits();
                let p = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, &a[0], &a[1]);
                let gt = self.icmp(p, w, &a[1], &a[0]);
                let m1 = mkc(&mut self.ctx, u128::MAX, rw);
                let o = mkc(&mut self.ctx, 1, rw);
                let z = mkc(&mut self.ctx, 0, rw);
                let t = self.select(st, &Ty::Int(rw), &gt, &o, &z)?;
                self.select(st, &Ty::Int(rw), &lt, &m1, &t)
            }
            "bswap" => {
                if let Some(k) = self.wide_const(&a[0]) {
                    let r = (k.swap_bytes()) >> (128 - w);
                    return Ok(mkc(&mut self.ctx, r, w));
                }
                let e = self.ex(&a[0], w);
                let mut r = NONE;
                for i in 0..w / 8 {
                    let b = self.ctx.extract(e, i * 8, 8);
                    r = if r == NONE { b } else { self.ctx.concat(r, b) };
                }
                Ok(self.norm(r))
            }
            "bitreverse" => {
                if let Some(k) = self.wide_const(&a[0]) {
                    let r = k.reverse_bits() >> (128 - w);
                    return Ok(mkc(&mut self.ctx, r, w));
                }
                let e = self.ex(&a[0], w);
                let mut r = NONE;
                for i in 0..w {
                    let b = self.ctx.extract(e, i, 1);
                    r = if r == NONE { b } else { self.ctx.concat(r, b) };
                }
                Ok(self.norm(r))
            }
            "ctpop" => {
                if let Some(k) = self.wide_const(&a[0]) {
                    return Ok(mkc(&mut self.ctx, k.count_ones() as u128, w));
                }
                let e = self.ex(&a[0], w);
                let mut r = self.ctx.konst(0, w);
                for i in 0..w {
                    let b = self.ctx.extract(e, i, 1);
                    let b = if w > 1 { self.ctx.zext(b, w) } else { b };
                    r = self.ctx.bin(Op::Add, r, b);
                }
                Ok(self.norm(r))
            }
            "ctlz" | "cttz" => {
                if let Some(k) = self.wide_const(&a[0]) {
                    let r = if base == "ctlz" {
                        if k == 0 {
                            w
                        } else {
                            k.leading_zeros() - (128 - w)
                        }
                    } else if k == 0 {
                        w
                    } else {
                        k.trailing_zeros()
                    };
                    return Ok(mkc(&mut self.ctx, r as u128, w));
                }
                let e = self.ex(&a[0], w);
                let mut r = self.ctx.konst(w as u128, w);
                for i in 0..w {
                    let pos = if base == "ctlz" { i } else { w - 1 - i };
                    let b = self.ctx.extract(e, pos, 1);
                    let v = if base == "ctlz" { w - 1 - pos } else { pos };
                    let k = self.ctx.konst(v as u128, w);
                    r = self.ctx.ite(b, k, r);
                }
                Ok(self.norm(r))
            }
            "fshl" | "fshr" => {
                if let Some(s) = self.wide_const(&a[2]) {
                    let s = (s % w as u128) as u32;
                    if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                        let cat = ((*x as u128) << w) | *y as u128;
                        let r = if base == "fshl" { cat >> (w - s) } else { cat >> s };
                        return Ok(Val::C(r as u64 & m64(w)));
                    }
                    let x = self.ex(&a[0], w);
                    let y = self.ex(&a[1], w);
                    if s == 0 {
                        return Ok(if base == "fshl" { a[0].clone() } else { a[1].clone() });
                    }
                    // result = high s bits...
                    let r = if base == "fshl" {
                        let h = self.ctx.extract(x, 0, w - s);
                        let l = self.ctx.extract(y, w - s, s);
                        self.ctx.concat(h, l)
                    } else {
                        let h = self.ctx.extract(x, 0, s);
                        let l = self.ctx.extract(y, s, w - s);
                        self.ctx.concat(h, l)
                    };
                    return Ok(self.norm(r));
                }
                if w > 64 || !w.is_power_of_two() {
                    return Err(End::Error("fsh".into()));
                }
                let x = self.ex(&a[0], w);
                let y = self.ex(&a[1], w);
                let s = self.ex(&a[2], w);
                let cat = self.ctx.concat(x, y);
                let m = self.ctx.konst(w as u128 - 1, w);
                let s = self.ctx.bin(Op::And, s, m);
                let s2 = self.ctx.zext(s, 2 * w);
                let r = if base == "fshl" {
                    let t = self.ctx.bin(Op::Shl, cat, s2);
                    self.ctx.extract(t, w, w)
                } else {
                    let t = self.ctx.bin(Op::LShr, cat, s2);
                    self.ctx.extract(t, 0, w)
                };
                Ok(self.norm(r))
            }
            "load.relative" => {
                let p = self.conc_val(st, &a[0])?;
                let ad = self.bin(st, BinOp::Add, 64, &Val::C(p), &a[1])?;
                let v = self.load_int(st, &ad, 4, 32)?;
                let k = self.conc_val(st, &v)?;
                Ok(Val::C(p.wrapping_add(sx(k, 32) as u64)))
            }
            "x86.sse2.pmovmskb.128" => {
                if let Val::A(v) = &a[0] {
                    let mut r = NONE;
                    for x in v.clone().iter() {
                        let e = self.ex(x, 8);
                        let b = self.ctx.extract(e, 7, 1);
                        r = if r == NONE { b } else { self.ctx.concat(b, r) };
                    }
                    let r = self.ctx.zext(r, 32);
                    return Ok(self.norm(r));
                }
                Err(End::Error("pmovmskb".into()))
            }
            _ if base.starts_with("vector.reduce.") => {
                let op = &base["vector.reduce.".len()..];
                let lw = match &tys[0] {
                    Ty::Vec(_, t) => t.bits(),
                    _ => return Err(End::Error("reduce".into())),
                };
                let v = match &a[0] {
                    Val::A(v) => v.clone(),
                    _ => return Err(End::Error("reduce".into())),
                };
                let mut r = v[0].clone();
                for x in v.iter().skip(1) {
                    r = match op {
                        "add" => self.bin(st, BinOp::Add, lw, &r, x)?,
                        "or" => self.bin(st, BinOp::Or, lw, &r, x)?,
                        "and" => self.bin(st, BinOp::And, lw, &r, x)?,
                        "xor" => self.bin(st, BinOp::Xor, lw, &r, x)?,
                        "mul" => self.bin(st, BinOp::Mul, lw, &r, x)?,
                        "umin" | "umax" => {
                            let c = self.icmp(if op == "umin" { Pred::Ult } else { Pred::Ugt }, lw, &r, x);
                            self.select(st, &Ty::Int(lw), &c, &r, x)?
                        }
                        _ => return Err(End::Error(format!("reduce {op}"))),
                    };
                }
                Ok(r)
            }
            _ => Err(End::Error(format!("intrinsic {name}"))),
        }
    }

    fn memset(&mut self, st: &mut State, d: u64, v: &Val, len: u64) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        let (b, off) = self.bounds(st, d, len)?;
        match v {
            Val::C(k) => {
                let buf = vec![*k as u8; len as usize];
                self.obj_mut(st, b).copy_in(off, &buf, None);
            }
            Val::S(e) => {
                let e = *e;
                let o = self.obj_mut(st, b);
                for i in 0..len {
                    o.write_byte((off + i) as usize, 0, e);
                }
            }
            _ => return Err(End::Error("memset".into())),
        }
        Ok(())
    }

    fn read_bytes(&mut self, st: &State, p: u64, n: u64) -> R<Vec<Ex>> {
        let (b, off) = self.bounds(st, p, n)?;
        let o = match st.mem.objs.get(&b) {
            Some(o) => o.clone(),
            None => self.globals[&b].clone(),
        };
        let mut v = vec![];
        for i in 0..n {
            let (d, s) = o.byte((off + i) as usize);
            v.push(if s != NONE { s } else { self.ctx.konst(d as u128, 8) });
        }
        Ok(v)
    }

    /// A symbolic allocation size is not enumerated: the object gets the
    /// smallest of a few capacities that is known to suffice.
    fn alloc_size(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(k) => Ok(*k),
            Val::S(e) => {
                let e = self.simp(st, *e);
                if let Some(k) = self.ctx.as_const(e) {
                    return Ok(k as u64);
                }
                let w = self.ctx.w(e);
                for lim in [256u64, 4096, 65536, self.lim.max_alloc] {
                    let k = self.ctx.konst(lim as u128, w);
                    let c = self.ctx.ule(e, k);
                    if self.decide(st, c)? {
                        return Ok(lim);
                    }
                }
                Ok(u64::MAX)
            }
            _ => Err(End::Error("alloc size".into())),
        }
    }
    fn do_alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        if size > self.lim.max_alloc || st.heap_live.saturating_add(size) > 2 * self.lim.max_alloc {
            return 0;
        }
        st.heap_live += size;
        st.mem.alloc(size, align, 2)
    }
    fn do_free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        match st.mem.objs.remove(&p) {
            Some(o) if o.tag == 2 => {
                st.heap_live -= o.size;
                Ok(())
            }
            _ => Err(End::Finding("memory".into(), format!("bad free {p:#x}; {}", self.where_(st)), 0)),
        }
    }

    fn new_sym(&mut self, st: &mut State, bytes: u32) -> Ex {
        let mut r = NONE;
        for i in 0..bytes {
            let v = self.ctx.var(st.nvars + i);
            r = if r == NONE { v } else { self.ctx.concat(v, r) };
        }
        st.nvars += bytes;
        r
    }

    fn external(&mut self, st: &mut State, name: &str, a: &[Val]) -> R<Val> {
        match name {
            "v_sym" => {
                let n = self.conc_val(st, &a[0])?;
                let e = self.new_sym(st, n as u32);
                let e = self.ctx.zext(e, 64);
                Ok(self.norm(e))
            }
            "v_sym_bytes" => {
                let p = self.conc_val(st, &a[0])?;
                let n = self.conc_val(st, &a[1])?;
                for i in 0..n {
                    let e = self.new_sym(st, 1);
                    self.store_int(st, p + i, 1, &Val::S(e))?;
                }
                Ok(Val::C(0))
            }
            "v_assume" => {
                match &a[0] {
                    Val::C(k) => {
                        if k & 1 == 0 {
                            return Err(End::Infeasible);
                        }
                    }
                    Val::S(e) => {
                        let e = self.ctx.extract(*e, 0, 1);
                        self.assume(st, e)?
                    }
                    _ => {}
                }
                Ok(Val::C(0))
            }
            "v_assert" => {
                self.asserts += 1;
                self.obligations += 1;
                let id = self.conc_val(st, &a[1])? as u32;
                match &a[0] {
                    Val::C(k) => {
                        if k & 1 == 0 {
                            return Err(End::Finding("assert".into(), format!("assertion {id}"), id));
                        }
                    }
                    Val::S(e) => {
                        let e = self.ctx.extract(*e, 0, 1);
                        self.asserts_sym += 1;
                        let c = self.simp(st, e);
                        let nc = self.ctx.not(c);
                        let model = st.model.clone();
                        if self.ctx.as_const(c) == Some(1) {
                        } else if self.ctx.eval(c, &model) == 0 {
                            return Err(End::Finding("assert".into(), format!("assertion {id}"), id));
                        } else {
                            match self.solver.check(&mut self.ctx, &st.pc, nc, &model) {
                                Res::Unsat => {}
                                Res::Sat(m) => {
                                    st.model = Self::overlay(&st.model, &m);
                                    return Err(End::Finding("assert".into(), format!("assertion {id}"), id));
                                }
                                Res::Unknown => return Err(End::Unknown),
                            }
                        }
                    }
                    _ => {}
                }
                self.discharged += 1;
                Ok(Val::C(0))
            }
            "v_reach" => {
                let id = self.conc_val(st, &a[0])?;
                st.reached |= 1 << (id & 63);
                Ok(Val::C(0))
            }
            "v_note" => {
                let id = self.conc_val(st, &a[0])? as u32;
                let v = match &a[1] {
                    Val::C(k) => (NONE, *k),
                    Val::S(e) => (*e, 0),
                    _ => (NONE, 0),
                };
                if self.trace {
                    if let Val::S(e) = &a[1] {
                        eprintln!("note {id} {}", self.ctx.show(*e, 8));
                    }
                }
                st.notes.push((id, v));
                Ok(Val::C(0))
            }
            "v_kill" => Err(End::Killed),
            "v_param" => {
                let i = self.conc_val(st, &a[0])? as usize;
                match self.params.get(i) {
                    Some(p) => Ok(Val::C(*p)),
                    None => Err(End::Error(format!("missing parameter {i}"))),
                }
            }
            "v_concretize" => {
                let k = self.conc_val(st, &a[0])?;
                Ok(Val::C(k))
            }
            "v_is_symbolic" => Ok(Val::C(matches!(&a[0], Val::S(_)) as u64)),
            "v_select" => {
                // (cond, x, y) without forking
                let c = match &a[0] {
                    Val::S(e) => Val::S(self.ctx.extract(*e, 0, 1)),
                    o => o.clone(),
                };
                self.select(st, &Ty::Int(64), &c, &a[1], &a[2])
            }
            "v_alloc" | "v_alloc_zeroed" => {
                let al = self.conc_val(st, &a[1])?;
                let n = self.alloc_size(st, &a[0])?;
                Ok(Val::C(self.do_alloc(st, n, al)))
            }
            "v_dealloc" => {
                let p = self.conc_val(st, &a[0])?;
                self.do_free(st, p)?;
                Ok(Val::C(0))
            }
            "v_realloc" => {
                let p = self.conc_val(st, &a[0])?;
                let al = self.conc_val(st, &a[2])?;
                let new = self.alloc_size(st, &a[3])?;
                let old = match st.mem.objs.get(&p) {
                    Some(o) => o.size,
                    None => return Err(End::Finding("memory".into(), format!("bad realloc; {}", self.where_(st)), 0)),
                };
                let q = self.do_alloc(st, new, al);
                if q != 0 {
                    self.copy(st, q, p, old.min(new))?;
                    self.do_free(st, p)?;
                }
                Ok(Val::C(q))
            }
            "malloc" => {
                let n = self.alloc_size(st, &a[0])?;
                Ok(Val::C(self.do_alloc(st, n, 16)))
            }
            "calloc" => {
                let n = self.conc_val(st, &a[0])?;
                let k = self.conc_val(st, &a[1])?;
                Ok(Val::C(self.do_alloc(st, n.saturating_mul(k), 16)))
            }
            "free" => {
                let p = self.conc_val(st, &a[0])?;
                self.do_free(st, p)?;
                Ok(Val::C(0))
            }
            "memcpy" | "memmove" => {
                let d = self.conc_val(st, &a[0])?;
                let n = self.conc_val(st, &a[2])?;
                self.copy_from(st, d, &a[1], n)?;
                Ok(Val::C(d))
            }
            "memset" => {
                let d = self.conc_val(st, &a[0])?;
                let n = self.conc_val(st, &a[2])?;
                let v = match &a[1] {
                    Val::S(e) => Val::S(self.ctx.extract(*e, 0, 8)),
                    o => o.clone(),
                };
                self.memset(st, d, &v, n)?;
                Ok(Val::C(d))
            }
            "bcmp" | "memcmp" => {
                let x = self.conc_val(st, &a[0])?;
                let y = self.conc_val(st, &a[1])?;
                let n = self.conc_val(st, &a[2])?;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let p = self.read_bytes(st, x, n)?;
                let q = self.read_bytes(st, y, n)?;
                let z = self.ctx.konst(0, 32);
                let mut r = z;
                if name == "bcmp" {
                    let mut all = self.ctx.tru();
                    for i in 0..n as usize {
                        let e = self.ctx.eq(p[i], q[i]);
                        all = self.ctx.bin(Op::And, all, e);
                    }
                    let o = self.ctx.konst(1, 32);
                    r = self.ctx.ite(all, z, o);
                } else {
                    for i in (0..n as usize).rev() {
                        let e = self.ctx.eq(p[i], q[i]);
                        let l = self.ctx.ult(p[i], q[i]);
                        let m1 = self.ctx.konst(u128::MAX, 32);
                        let o = self.ctx.konst(1, 32);
                        let d = self.ctx.ite(l, m1, o);
                        r = self.ctx.ite(e, r, d);
                    }
                }
                Ok(self.norm(r))
            }
            "strlen" => {
                let mut p = self.conc_val(st, &a[0])?;
                let p0 = p;
                loop {
                    let v = self.load_int(st, &Val::C(p), 1, 8)?;
                    if self.conc_val(st, &v)? == 0 {
                        return Ok(Val::C(p - p0));
                    }
                    p += 1;
                }
            }
            "__errno_location" => Ok(Val::C(self.errno_addr)),
            _ if name.contains("35___rust_no_alloc_shim_is_unstable") || name.contains("no_alloc_shim_is_unstable") => Ok(Val::C(0)),
            _ => Err(End::Error(format!("external function {name}"))),
        }
    }
}
