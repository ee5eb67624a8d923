//! Symbolic execution of LLVM IR with Taylor-model values.
use crate::ir::*;
use crate::tm::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u64, u32),
    P(usize, i64),
    F(f64),
    T(Rc<Tm>),
    /// bit pattern of a symbolic double; mode 0: all 64 bits, 1: mantissa only, 2: sign and mantissa
    B(Rc<Tm>, u8),
    /// biased exponent field of a symbolic double, plus an offset; the flag says it was shifted left by 52
    E(Rc<Tm>, i64, bool),
    /// a value computed from the mantissa of a symbolic double whose binade is not fixed in this box
    NB(Rc<Tm>),
    /// |t| for a t whose sign is not fixed in this box
    Abs(Rc<Tm>),
    /// integer part of a symbolic double, used in comparisons with constants only
    Tr(Rc<Tm>),
    Agg(Rc<Vec<V>>),
    /// a floating-point value that could not be computed over this box (matters only if it is used in a decision or returned)
    Bad(Rc<String>),
    Undef,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel { Lt, Le, Eq }

/// path constraint: tm REL 0
#[derive(Debug)]
pub struct Con { pub tm: Tm, pub rel: Rel }

#[derive(Debug)]
pub enum Stop {
    /// split variable at these doubles (each becomes a point box)
    Split(usize, Vec<f64>),
    /// the box is too wide for this computation
    Bisect(String),
    /// needs a finer box in a way that bisecting may or may not solve; treated as Bisect
    Unsupported(String),
    /// result of a merge was used in a discrete way: run again without merging
    NoMerge,
}

pub struct FnInfo {
    pub f: Func,
    pub ipdom: Vec<Option<usize>>,
    pub live: Vec<Vec<bool>>, // live after the phis of block b
    pub cmp_only: Vec<bool>, // registers used by integer comparisons with constants only
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<FnInfo>,
    pub regs: Vec<V>,
    pub blk: usize,
    pub ip: usize,
    pub dst: Option<usize>,
    pub hist: HashMap<(usize, usize), (i64, u32)>,
}

#[derive(Clone)]
pub struct Alloc { pub bytes: Vec<u8>, pub cells: BTreeMap<u64, (u64, V)> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Rc<Alloc>>,
    pub cons: Vec<Rc<Con>>,
    pub forced: Option<i64>,
}

pub enum Outcome { Reached(State), Done(State), Panic(State, String) }

enum Step {
    Next,
    Jump(usize),
    Call(String, usize, Vec<V>, Option<usize>),
    Ret(Option<V>),
    Panic(String),
    Fork(Fork),
}
struct Fork { noise: bool, arms: Vec<Arm> }
struct Arm { forced: Option<i64>, key: i64, con: Option<Con>, clip: Option<(Rc<Tm>, f64, f64)>, repl: Option<(Rc<Tm>, V)> }

pub struct Exec<'a> {
    pub hint: RefCell<Option<Tm>>,
    has_abs: bool,
    pub prog: &'a Program,
    pub k: Ctx,
    pub vars: Vec<(f64, f64)>,  // ranges of the active variables
    pub bx: Vec<(f64, f64)>,
    pub act: Vec<usize>,
    pub noise_k: u32,
    pub allow_merge: bool,
    pub merge_tol: f64,
    pub max_paths: usize,
    pub max_steps: u64,
    pub steps: u64,
    pub paths: usize,
    pub forks: u64,
    pub merges: u64,
    pub dropped: u64,
    pub fns: HashMap<(String, usize), Rc<FnInfo>>,
    pub globals: RefCell<HashMap<(String, usize), usize>>,
    pub gmem: RefCell<Vec<Rc<Alloc>>>,
    pub used: BTreeSet<String>,
    /// index of the variable that stands for the accumulated error of one value (see `promote`)
    pub ev: Option<usize>,
    pub promote: Vec<(String, usize)>,
}

const GBASE: usize = 1 << 40;
type ER<T> = Result<T, Stop>;

fn nd(x: f64) -> f64 { // next down
    if x == 0.0 { return -5e-324; }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b - 1 } else { b + 1 })
}
fn nu(x: f64) -> f64 { -nd(-x) }
pub fn next_down(x: f64) -> f64 { nd(x) }
pub fn next_up(x: f64) -> f64 { nu(x) }

/// order-preserving integer of a double
pub fn ord(x: f64) -> i64 { let b = x.to_bits() as i64; if b < 0 { i64::MIN.wrapping_sub(b).wrapping_sub(0) } else { b } }
pub fn unord(i: i64) -> f64 { if i < 0 { f64::from_bits(i64::MIN.wrapping_sub(i) as u64) } else { f64::from_bits(i as u64) } }

fn mask(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn sx(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl FnInfo {
    fn new(f: Func) -> FnInfo {
        let n = f.blocks.len();
        let succ: Vec<Vec<usize>> = f.blocks.iter().map(|b| match b.last() {
            Some(Ins::Br { to }) => vec![*to],
            Some(Ins::CondBr { t, f, .. }) => vec![*t, *f],
            Some(Ins::Switch { def, cases, .. }) => { let mut v = vec![*def]; v.extend(cases.iter().map(|c| c.1)); v }
            _ => vec![],
        }).collect();
        // blocks that can only end in a panic do not take part in post-dominance
        let is_exit = |b: usize| matches!(f.blocks[b].last(), Some(Ins::Ret { .. }));
        let mut good = vec![false; n];
        loop {
            let mut ch = false;
            for b in 0..n { if !good[b] && (is_exit(b) || succ[b].iter().any(|s| good[*s])) { good[b] = true; ch = true; } }
            if !ch { break; }
        }
        // post-dominator sets as bitsets (functions are small)
        let words = (n + 63) / 64;
        let full = vec![u64::MAX; words];
        let mut pd: Vec<Vec<u64>> = (0..n).map(|_| full.clone()).collect();
        let single = |b: usize| { let mut v = vec![0u64; words]; v[b / 64] |= 1 << (b % 64); v };
        for b in 0..n { if is_exit(b) { pd[b] = single(b); } }
        loop {
            let mut ch = false;
            for b in (0..n).rev() {
                if is_exit(b) || !good[b] { continue; }
                let mut v = full.clone();
                for s in &succ[b] { if good[*s] { for w in 0..words { v[w] &= pd[*s][w]; } } }
                v[b / 64] |= 1 << (b % 64);
                if v != pd[b] { pd[b] = v; ch = true; }
            }
            if !ch { break; }
        }
        let cnt = |v: &Vec<u64>| v.iter().map(|w| w.count_ones()).sum::<u32>();
        let mut ipdom = vec![None; n];
        for b in 0..n {
            if !good[b] { continue; }
            let want = cnt(&pd[b]) - 1;
            for c in 0..n {
                if c != b && good[c] && pd[b][c / 64] >> (c % 64) & 1 == 1 && cnt(&pd[c]) == want { ipdom[b] = Some(c); }
            }
        }
        // liveness
        let nr = f.nregs;
        let mut live_in: Vec<Vec<bool>> = vec![vec![false; nr]; n]; // after phis
        loop {
            let mut ch = false;
            for b in (0..n).rev() {
                let mut l = vec![false; nr];
                for s in &succ[b] {
                    let mut ls = live_in[*s].clone();
                    for ins in &f.blocks[*s] { if let Ins::Phi { dst, .. } = ins { ls[*dst] = false; } }
                    for ins in &f.blocks[*s] { if let Ins::Phi { inc, .. } = ins { for (o, p) in inc { if *p == b { mark(o, &mut ls); } } } }
                    for r in 0..nr { if ls[r] { l[r] = true; } }
                }
                for ins in f.blocks[b].iter().rev() {
                    if let Ins::Phi { .. } = ins { continue; }
                    if let Some(d) = dst_of(ins) { l[d] = false; }
                    uses(ins, &mut l);
                }
                if l != live_in[b] { live_in[b] = l; ch = true; }
            }
            if !ch { break; }
        }
        let mut other = vec![false; nr];
        for b in &f.blocks { for ins in b {
            match ins {
                Ins::ICmp { pred, a: Opd::Reg(_), b: Opd::Int(c, _), .. } if *c < (1 << 52) && pred != "eq" && pred != "ne" => {}
                Ins::Phi { inc, .. } => for (o, _) in inc { mark(o, &mut other); },
                i => uses(i, &mut other),
            }
        } }
        let cmp_only = other.iter().map(|x| !x).collect();
        FnInfo { f, ipdom, live: live_in, cmp_only }
    }
}

fn mark(o: &Opd, l: &mut Vec<bool>) {
    match o { Opd::Reg(r) => l[*r] = true, Opd::Agg(v) => for x in v { mark(x, l) }, _ => {} }
}
fn dst_of(i: &Ins) -> Option<usize> {
    match i {
        Ins::Bin { dst, .. } | Ins::FNeg { dst, .. } | Ins::ICmp { dst, .. } | Ins::FCmp { dst, .. } | Ins::Cast { dst, .. } | Ins::Phi { dst, .. } | Ins::Select { dst, .. } | Ins::Load { dst, .. } | Ins::Gep { dst, .. } | Ins::Alloca { dst, .. } | Ins::Extract { dst, .. } | Ins::Insert { dst, .. } => Some(*dst),
        Ins::Call { dst, .. } => *dst,
        _ => None,
    }
}
fn uses(i: &Ins, l: &mut Vec<bool>) {
    match i {
        Ins::Bin { a, b, .. } | Ins::ICmp { a, b, .. } | Ins::FCmp { a, b, .. } => { mark(a, l); mark(b, l); }
        Ins::FNeg { a, .. } | Ins::Cast { a, .. } | Ins::Extract { a, .. } => mark(a, l),
        Ins::Select { c, a, b, .. } => { mark(c, l); mark(a, l); mark(b, l); }
        Ins::CondBr { c, .. } => mark(c, l),
        Ins::Switch { v, .. } => mark(v, l),
        Ins::Ret { v: Some(v) } => mark(v, l),
        Ins::Call { callee, args, .. } => { mark(callee, l); for a in args { mark(a, l); } }
        Ins::Load { p, .. } => mark(p, l),
        Ins::Store { v, p, .. } => { mark(v, l); mark(p, l); }
        Ins::Gep { p, idx, .. } => { mark(p, l); for a in idx { mark(a, l); } }
        Ins::Insert { a, v, .. } => { mark(a, l); mark(v, l); }
        _ => {}
    }
}

/// What a comparison of two symbolic values needs
enum Dec { Known(std::cmp::Ordering), Ambig(Tm) }

impl<'a> Exec<'a> {
    pub fn new(prog: &'a Program, deg: usize, vars: Vec<(f64, f64)>) -> Exec<'a> {
        let nv = vars.len();
        Exec {
            hint: RefCell::new(None), has_abs: false, prog, k: Ctx::new(nv, deg), bx: vars.clone(), act: (0..nv).collect(), vars, noise_k: 3, allow_merge: true, merge_tol: 1e-13, max_paths: 400, max_steps: 20_000_000,
            steps: 0, paths: 0, forks: 0, merges: 0, dropped: 0, fns: HashMap::new(), globals: RefCell::new(HashMap::new()),
            gmem: RefCell::new(vec![]), used: BTreeSet::new(), ev: None, promote: vec![],
        }
    }
    /// `bx` may contain degenerate (point) dimensions; the others become symbolic variables
    pub fn reset_box(&mut self, deg: usize, bx: Vec<(f64, f64)>) {
        self.has_abs = false;
        *self.hint.borrow_mut() = None;
        self.act = (0..bx.len()).filter(|i| bx[*i].0 != bx[*i].1).collect();
        let mut vars: Vec<(f64, f64)> = self.act.iter().map(|i| bx[*i]).collect();
        self.ev = None;
        if !self.promote.is_empty() && !vars.is_empty() { self.ev = Some(vars.len()); vars.push((-1.0, 1.0)); }
        self.bx = bx;
        let deg = if vars.is_empty() { 0 } else { deg };
        if self.k.nv != vars.len() || self.k.deg != deg { self.k = Ctx::new(vars.len(), deg); }
        self.vars = vars;
        self.steps = 0;
        self.paths = 0;
        self.allow_merge = true;
    }
    fn func(&mut self, name: &str, module: usize) -> Rc<FnInfo> {
        if let Some(f) = self.fns.get(&(name.to_string(), module)) { return f.clone(); }
        let f = Rc::new(FnInfo::new(self.prog.parse_fn(name, module)));
        self.used.insert(name.to_string());
        self.fns.insert((name.to_string(), module), f.clone());
        f
    }
    pub fn var_v(&self, d: usize) -> V {
        match self.act.iter().position(|a| *a == d) { Some(i) => self.var(i), None => V::F(self.bx[d].0) }
    }
    pub fn cr(&self, d: usize) -> (f64, f64) { self.center_radius(self.act.iter().position(|a| *a == d).unwrap()) }
    fn var(&self, i: usize) -> V {
        let (lo, hi) = self.vars[i];
        if lo == hi { return V::F(lo); }
        let c = 0.5 * lo + 0.5 * hi;
        let r = (hi - c).max(c - lo);
        let r = if c + r < hi || c - r > lo { nu(r) } else { r };
        V::T(Rc::new(Tm::var(&self.k, i, c, r, lo, hi)))
    }
    pub fn center_radius(&self, i: usize) -> (f64, f64) {
        let (lo, hi) = self.vars[i];
        if lo == hi { return (lo, 0.0); }
        let c = 0.5 * lo + 0.5 * hi;
        let r = (hi - c).max(c - lo);
        let r = if c + r < hi || c - r > lo { nu(r) } else { r };
        (c, r)
    }

    pub fn start(&mut self, entry: &str, args: Vec<V>, nout: usize) -> ER<State> {
        let m = (0..self.prog.modules.len()).find(|m| self.prog.modules[*m].funcs.contains_key(entry)).ok_or(Stop::Unsupported(format!("no entry {}", entry)))?;
        let f = self.func(entry, m);
        let mut regs = vec![V::Undef; f.f.nregs];
        let mem = vec![Rc::new(Alloc { bytes: vec![0; nout * 8], cells: BTreeMap::new() })];
        for (i, a) in args.into_iter().enumerate() { regs[f.f.params[i]] = a; }
        let last = *f.f.params.last().unwrap();
        regs[last] = V::P(0, 0);
        Ok(State { frames: vec![Frame { f, regs, blk: 0, ip: 0, dst: None, hist: HashMap::new() }], mem, cons: vec![], forced: None })
    }
    pub fn outputs(&self, st: &State, nout: usize) -> Vec<V> {
        (0..nout).map(|i| match st.mem[0].cells.get(&(8 * i as u64)) { Some((8, v)) => v.clone(), _ => V::F(0.0) }).collect()
    }

    /// run until the frame `depth` (1-based) enters block `blk` (or returns, if None)
    pub fn run(&mut self, mut st: State, depth: usize, stop: Option<usize>) -> ER<Vec<Outcome>> {
        loop {
            self.steps += 1;
            if self.steps > self.max_steps { return Err(Stop::Bisect("step budget".into())); }
            let d = st.frames.len();
            let step = self.step(&mut st)?;
            match step {
                Step::Next => {}
                Step::Jump(to) => {
                    self.goto(&mut st, to)?;
                    if d == depth && stop == Some(to) { return Ok(vec![Outcome::Reached(st)]); }
                }
                Step::Call(name, m, args, dst) => {
                    let args = self.promote_arg(&mut st, &name, args);
                    let f = self.func(&name, m);
                    let mut regs = vec![V::Undef; f.f.nregs];
                    for (i, a) in args.into_iter().enumerate() { if i < f.f.params.len() { regs[f.f.params[i]] = a; } }
                    st.frames.last_mut().unwrap().ip += 1;
                    if st.frames.len() > 60 { return Err(Stop::Unsupported("call depth".into())); }
                    st.frames.push(Frame { f, regs, blk: 0, ip: 0, dst, hist: HashMap::new() });
                }
                Step::Ret(v) => {
                    let fr = st.frames.pop().unwrap();
                    if st.frames.is_empty() { return Ok(vec![Outcome::Done(st)]); }
                    if let (Some(d), Some(v)) = (fr.dst, v) { st.frames.last_mut().unwrap().regs[d] = v; }
                    if stop.is_none() && st.frames.len() < depth { return Ok(vec![Outcome::Reached(st)]); }
                }
                Step::Panic(m) => { return Ok(vec![Outcome::Panic(st, m)]); }
                Step::Fork(fk) => {
                    self.forks += 1;
                    let fr = st.frames.last().unwrap();
                    let key = (fr.blk, fr.ip);
                    let (last, count) = fr.hist.get(&key).cloned().unwrap_or((i64::MIN, 0));
                    let mut arms = fk.arms;
                    if count >= 60 { return Err(Stop::Bisect("loop exit stays ambiguous".into())); }
                    if fk.noise && count >= self.noise_k && arms.len() > 1 && arms.iter().any(|a| a.key == last) {
                        // stated bound: a test decided only by rounding noise does not fall the same way for ever
                        arms.retain(|a| a.key != last);
                        self.dropped += 1;
                    }
                    let ip = fr.f.ipdom[fr.blk];
                    let base = st.cons.len();
                    let mut reached = vec![];
                    let mut done = vec![];
                    let n = arms.len();
                    for (ai, arm) in arms.into_iter().enumerate() {
                        let mut s = if ai + 1 == n { State { frames: std::mem::take(&mut st.frames), mem: std::mem::take(&mut st.mem), cons: std::mem::take(&mut st.cons), forced: None } } else { st.clone() };
                        if let Some(c) = arm.con { s.cons.push(Rc::new(c)); }
                        if let Some((t, lo, hi)) = arm.clip { clip(&mut s, &t, lo, hi); }
                        if let Some((t, v)) = arm.repl { replace(&mut s, &t, &v); }
                        s.forced = arm.forced;
                        let fr = s.frames.last_mut().unwrap();
                        let c = if last == arm.key { count + 1 } else { 1 };
                        fr.hist.insert(key, (arm.key, c));
                        for o in self.run(s, d, ip)? {
                            match o { Outcome::Reached(s) => reached.push(s), o => { self.paths += 1; done.push(o) } }
                        }
                        if self.paths + reached.len() > self.max_paths { return Err(Stop::Bisect("too many paths".into())); }
                    }
                    if self.allow_merge && reached.len() > 1 { reached = self.merge_all(reached, base); }
                    // is the join point also where the caller wants to stop?
                    let joined_here = if ip.is_none() { stop.is_none() && d == depth } else { d == depth && ip == stop };
                    if joined_here {
                        done.extend(reached.into_iter().map(Outcome::Reached));
                        return Ok(done);
                    }
                    if reached.len() == 1 && done.is_empty() { st = reached.pop().unwrap(); continue; }
                    let mut out = done;
                    for s in reached { out.extend(self.run(s, depth, stop)?); }
                    return Ok(out);
                }
            }
        }
    }

    fn goto(&mut self, st: &mut State, to: usize) -> ER<()> {
        let fr = st.frames.last().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let mut vals = vec![];
        let mut ip = 0;
        for ins in &f.f.blocks[to] {
            if let Ins::Phi { dst, inc } = ins {
                let o = &inc.iter().find(|x| x.1 == from).ok_or(Stop::Unsupported("phi".into()))?.0;
                vals.push((*dst, self.val(st, o)?));
                ip += 1;
            } else { break; }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals { fr.regs[d] = v; }
        fr.blk = to;
        fr.ip = ip;
        Ok(())
    }

    // ------------------------------------------------------------------ merging
    fn merge_all(&mut self, mut v: Vec<State>, base: usize) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        'next: for s in v.drain(..) {
            for o in out.iter_mut() {
                if let Some(m) = self.merge(o, &s, base) { *o = m; self.merges += 1; continue 'next; }
            }
            out.push(s);
        }
        out
    }
    fn merge(&self, a: &State, b: &State, base: usize) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.mem.len() != b.mem.len() { return None; }
        let mut frames = vec![];
        let top = a.frames.len() - 1;
        for (i, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
            if x.blk != y.blk || x.ip != y.ip || !Rc::ptr_eq(&x.f, &y.f) { return None; }
            let mut regs = Vec::with_capacity(x.regs.len());
            // a state that is stopped right at a block entry has exact liveness; otherwise assume all live
            let at_entry = x.ip == 0 || x.f.f.blocks[x.blk].get(x.ip - 1).map(|p| matches!(p, Ins::Phi { .. })).unwrap_or(false);
            for r in 0..x.regs.len() {
                let (p, q) = (&x.regs[r], &y.regs[r]);
                if i == top && at_entry && !x.f.live[x.blk][r] { regs.push(V::Undef); continue; }
                regs.push(self.merge_v(p, q)?);
            }
            let mut hist = x.hist.clone();
            for (kk, v) in &y.hist { let e = hist.entry(*kk).or_insert(*v); if e.1 < v.1 { *e = *v; } }
            frames.push(Frame { f: x.f.clone(), regs, blk: x.blk, ip: x.ip, dst: x.dst, hist });
        }
        let mut mem = vec![];
        for (x, y) in a.mem.iter().zip(&b.mem) {
            if Rc::ptr_eq(x, y) { mem.push(x.clone()); continue; }
            if x.bytes != y.bytes || x.cells.len() != y.cells.len() { return None; }
            let mut cells = BTreeMap::new();
            for ((o, (s, v)), (o2, (s2, v2))) in x.cells.iter().zip(&y.cells) {
                if o != o2 || s != s2 { return None; }
                cells.insert(*o, (*s, self.merge_v(v, v2)?));
            }
            mem.push(Rc::new(Alloc { bytes: x.bytes.clone(), cells }));
        }
        let mut cons: Vec<Rc<Con>> = vec![];
        for i in 0..base.min(a.cons.len()).min(b.cons.len()) {
            if Rc::ptr_eq(&a.cons[i], &b.cons[i]) { cons.push(a.cons[i].clone()); } else { break; }
        }
        Some(State { frames, mem, cons, forced: None })
    }
    fn merge_v(&self, a: &V, b: &V) -> Option<V> {
        match (a, b) {
            (V::Bad(m), _) | (_, V::Bad(m)) => Some(V::Bad(m.clone())),
            (V::Undef, V::Undef) => Some(V::Undef),
            (V::Undef, x) | (x, V::Undef) => { let _ = x; Some(V::Undef) }
            (V::I(x, w), V::I(y, _)) => if x == y { Some(V::I(*x, *w)) } else { None },
            (V::P(x, o), V::P(y, p)) => if x == y && o == p { Some(a.clone()) } else { None },
            (V::F(x), V::F(y)) if x.to_bits() == y.to_bits() => Some(a.clone()),
            (V::T(x), V::T(y)) if Rc::ptr_eq(x, y) => Some(a.clone()),
            (V::B(x, m), V::B(y, n)) if Rc::ptr_eq(x, y) && m == n => Some(a.clone()),
            (V::E(x, o, f), V::E(y, p, g)) if Rc::ptr_eq(x, y) && o == p && f == g => Some(a.clone()),
            (V::NB(x), V::NB(y)) if Rc::ptr_eq(x, y) => Some(a.clone()),
            (V::Abs(x), V::Abs(y)) if Rc::ptr_eq(x, y) => Some(a.clone()),
            (V::Tr(x), V::Tr(y)) if Rc::ptr_eq(x, y) => Some(a.clone()),
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) { v.push(self.merge_v(p, q)?); }
                Some(V::Agg(Rc::new(v)))
            }
            (V::F(_), V::F(_)) | (V::T(_), V::T(_)) | (V::F(_), V::T(_)) | (V::T(_), V::F(_)) => {
                let x = self.tm(a)?;
                let y = self.tm(b)?;
                let mut dm = 0.0;
                for i in 0..self.k.n { dm += (x.c[i] - y.c[i]).abs(); }
                dm *= 1.0 + 1e-12;
                let mag = x.mag().max(y.mag());
                if dm > self.merge_tol * mag && dm > 1e-300 { return None; }
                let mut r = x.clone();
                r.rem = x.rem.max(y.rem + dm) * (1.0 + 1e-14) + if dm > 0.0 { 1e-322 } else { 0.0 };
                r.lo = x.lo.min(y.lo);
                r.hi = x.hi.max(y.hi);
                r.lat = if x.lat == i32::MIN || y.lat == i32::MIN { i32::MIN } else { x.lat.min(y.lat) };
                Some(V::T(Rc::new(r)))
            }
            _ => None,
        }
    }

    // ------------------------------------------------------------------ values
    pub fn tm(&self, v: &V) -> Option<Tm> {
        match v { V::T(t) => Some((**t).clone()), V::F(f) if f.is_finite() => Some(Tm::cst(&self.k, *f)), _ => None }
    }
    fn mk(&self, t: Tm) -> ER<V> {
        if t.rem == 0.0 && t.is_const() && t.c[0] != 0.0 { return Ok(V::F(t.c[0])); }
        if t.rem.is_nan() || t.c.iter().any(|x| x.is_nan()) || !t.finite() || t.mag() > f64::MAX {
            if t.lo > f64::MAX && t.lo.is_finite() { return Ok(V::F(f64::INFINITY)); }
            return Err(Stop::Bisect("overflow".into()));
        }
        Ok(V::T(Rc::new(t)))
    }
    fn fail(f: Fail) -> Stop { Stop::Bisect(format!("{:?}", f)) }

    fn val(&self, st: &State, o: &Opd) -> ER<V> {
        Ok(match o {
            Opd::Reg(r) => st.frames.last().unwrap().regs[*r].clone(),
            Opd::Int(v, w) => V::I(*v, *w),
            Opd::F(f) => V::F(*f),
            Opd::Global(n) => V::P(self.global(n, st.frames.last().unwrap().f.f.module)?, 0),
            Opd::GlobalOff(n, off) => V::P(self.global(n, st.frames.last().unwrap().f.f.module)?, *off),
            Opd::Null => V::I(0, 64),
            Opd::IntPtr(v) => V::I(*v, 64),
            Opd::Undef(t) => self.undef(t),
            Opd::Zero(t) => self.zero(t),
            Opd::Agg(v) => { let mut r = vec![]; for x in v { r.push(self.val(st, x)?); } V::Agg(Rc::new(r)) }
        })
    }
    fn undef(&self, t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(|t| self.undef(t)).collect())),
            Ty::Arr(n, e) | Ty::Vec(n, e) => V::Agg(Rc::new((0..*n).map(|_| self.undef(e)).collect())),
            _ => V::Undef,
        }
    }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            Ty::Arr(n, e) | Ty::Vec(n, e) => V::Agg(Rc::new((0..*n).map(|_| self.zero(e)).collect())),
            Ty::F64 => V::F(0.0),
            Ty::I(w) => V::I(0, *w),
            _ => V::I(0, 64),
        }
    }
    fn global(&self, n: &str, module: usize) -> ER<usize> {
        if let Some(i) = self.globals.borrow().get(&(n.to_string(), module)) { return Ok(*i); }
        let g = self.prog.parse_global(n, module);
        let bytes = match g { Some(g) => g.bytes.unwrap_or_default(), None => vec![] };
        let id = GBASE + self.gmem.borrow().len();
        self.gmem.borrow_mut().push(Rc::new(Alloc { bytes, cells: BTreeMap::new() }));
        self.globals.borrow_mut().insert((n.to_string(), module), id);
        Ok(id)
    }
    fn set(&self, st: &mut State, dst: usize, v: V) { st.frames.last_mut().unwrap().regs[dst] = v; }

    fn load(&self, st: &State, ty: &Ty, id: usize, off: i64) -> ER<V> {
        let g;
        let al: &Alloc = if id >= GBASE { g = self.gmem.borrow()[id - GBASE].clone(); &*g } else { &st.mem[id] };
        match ty {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() { v.push(self.load(st, &f[i], id, off + ty.field_off(i) as i64)?); }
                return Ok(V::Agg(Rc::new(v)));
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let mut v = vec![];
                for i in 0..*n { v.push(self.load(st, e, id, off + (i * e.size()) as i64)?); }
                return Ok(V::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let size = ty.size();
        let off = off as u64;
        if let Some((s, v)) = al.cells.get(&off) {
            if *s == size { return self.coerce(v, ty); }
        }
        // overlapping cells: only concrete bytes can be assembled
        let mut buf = vec![0u8; size as usize];
        if (off + size) as usize > al.bytes.len() { return Err(Stop::Unsupported(format!("load out of bounds {} {} {}", off, size, al.bytes.len()))); }
        buf.copy_from_slice(&al.bytes[off as usize..(off + size) as usize]);
        for (o, (s, v)) in al.cells.range(off.saturating_sub(32)..off + size) {
            if o + s <= off { continue; }
            let by = match v { V::I(x, _) => x.to_le_bytes(), V::F(f) => f.to_bits().to_le_bytes(), V::Undef => [0; 8], _ => return Err(Stop::Unsupported("partial load of symbolic value".into())) };
            for i in 0..*s { let p = o + i; if p >= off && p < off + size { buf[(p - off) as usize] = by[i as usize]; } }
        }
        let mut w = [0u8; 8];
        if size > 8 { return Err(Stop::Unsupported("wide load".into())); }
        w[..size as usize].copy_from_slice(&buf);
        let x = u64::from_le_bytes(w);
        Ok(match ty { Ty::F64 => V::F(f64::from_bits(x)), Ty::I(n) => V::I(x & mask(*n), *n), Ty::Ptr => V::I(x, 64), _ => return Err(Stop::Unsupported("load type".into())) })
    }
    fn coerce(&self, v: &V, ty: &Ty) -> ER<V> {
        Ok(match (v, ty) {
            (V::I(x, _), Ty::F64) => V::F(f64::from_bits(*x)),
            (V::F(f), Ty::I(64)) => V::I(f.to_bits(), 64),
            (V::T(t), Ty::I(64)) => V::B(t.clone(), 0),
            (V::B(t, 0), Ty::F64) => V::T(t.clone()),
            _ => v.clone(),
        })
    }
    fn store(&self, st: &mut State, ty: &Ty, v: V, id: usize, off: i64) -> ER<()> {
        if let V::Agg(a) = &v {
            for i in 0..a.len() {
                let (t, o) = match ty { Ty::Struct(f, _) => (f[i].clone(), ty.field_off(i)), Ty::Arr(_, e) | Ty::Vec(_, e) => ((**e).clone(), i as u64 * e.size()), _ => return Err(Stop::Unsupported("agg store".into())) };
                self.store(st, &t, a[i].clone(), id, off + o as i64)?;
            }
            return Ok(());
        }
        if id >= GBASE { return Err(Stop::Unsupported("store to global".into())); }
        let size = ty.size();
        let al = Rc::make_mut(&mut st.mem[id]);
        let off = off as u64;
        if (off + size) as usize > al.bytes.len() { return Err(Stop::Unsupported("store out of bounds".into())); }
        let over: Vec<u64> = al.cells.range(off.saturating_sub(32)..off + size).filter(|(o, (s, _))| **o + *s > off).map(|(o, _)| *o).collect();
        for o in over {
            if o == off && al.cells[&o].0 == size { continue; }
            // flatten a partially overwritten concrete cell into bytes
            let (s, old) = al.cells.remove(&o).unwrap();
            let by = match old { V::I(x, _) => x.to_le_bytes(), V::F(f) => f.to_bits().to_le_bytes(), _ => { if o >= off && o + s <= off + size { continue; } return Err(Stop::Unsupported("partial overwrite".into())) } };
            for i in 0..s { al.bytes[(o + i) as usize] = by[i as usize]; }
        }
        al.cells.insert(off, (size, v));
        Ok(())
    }

    // ------------------------------------------------------------------ decisions
    /// order of a and b, or the ambiguous difference
    fn cmp(&self, a: &V, b: &V) -> ER<Dec> {
        for v in [a, b] { if let V::Bad(m) = v { return Err(Stop::Bisect((**m).clone())); } }
        use std::cmp::Ordering::*;
        if let (V::T(x), V::T(y)) = (a, b) { if Rc::ptr_eq(x, y) { return Ok(Dec::Known(Equal)); } }
        match (a, b) {
            (V::F(x), V::F(y)) => return Ok(Dec::Known(x.partial_cmp(y).unwrap())),
            (V::F(x), _) if x.is_infinite() => return Ok(Dec::Known(if *x > 0.0 { Greater } else { Less })),
            (_, V::F(y)) if y.is_infinite() => return Ok(Dec::Known(if *y > 0.0 { Less } else { Greater })),
            _ => {}
        }
        let (al, ah) = self.rng(a)?;
        let (bl, bh) = self.rng(b)?;
        if ah < bl { return Ok(Dec::Known(Less)); }
        if al > bh { return Ok(Dec::Known(Greater)); }
        let x = self.tm(a).ok_or(Stop::Unsupported("cmp".into()))?;
        let y = self.tm(b).ok_or(Stop::Unsupported("cmp".into()))?;
        let d = x.sub(&y, &self.k);
        if d.hi < 0.0 { return Ok(Dec::Known(Less)); }
        if d.lo > 0.0 { return Ok(Dec::Known(Greater)); }
        Ok(Dec::Ambig(d))
    }
    fn rng(&self, v: &V) -> ER<(f64, f64)> {
        match v { V::F(f) => Ok((*f, *f)), V::T(t) => Ok((t.lo, t.hi)), _ => Err(Stop::Unsupported(format!("range of {:?}", v))) }
    }
    /// is the sign of d decided by the remainder rather than by the polynomial?
    fn noisy(&self, d: &Tm) -> bool {
        match self.ev {
            None => d.width_nc() <= 8.0 * d.rem,
            Some(_) => { let x = self.epart(d); d.width_nc() - x <= 8.0 * (d.rem + x) }
        }
    }
    /// size of the terms that contain the error variable
    pub fn epart(&self, d: &Tm) -> f64 {
        match self.ev { None => 0.0, Some(e) => self.k.exps.iter().zip(&d.c).filter(|(x, _)| x[e] > 0).map(|(_, c)| c.abs()).sum() }
    }
    fn flat(&self, t: &Tm) -> Option<Tm> {
        let e = self.ev?;
        let mut r: Option<Tm> = None;
        for (i, x) in self.k.exps.iter().enumerate() {
            if x[e] > 0 && t.c[i] != 0.0 {
                let n = r.get_or_insert_with(|| t.clone());
                n.rem = (n.rem + t.c[i].abs()) * (1.0 + 1e-15) + 1e-322;
                n.c[i] = 0.0;
            }
        }
        r
    }
    /// Calls of the functions named by the job: the error interval of one argument becomes a symbolic variable of its own,
    /// so that the callee and later uses of the same value see the same error.  Other values lose their dependence on the
    /// previous meaning of that variable (it goes back into their error intervals).
    fn promote_arg(&self, st: &mut State, name: &str, mut args: Vec<V>) -> Vec<V> {
        let e = match self.ev { Some(e) => e, None => return args };
        let ai = match self.promote.iter().find(|p| name.contains(&p.0)) { Some(p) => p.1, None => return args };
        let old = match args.get(ai) { Some(V::T(t)) => t.clone(), _ => return args };
        let mut seen: HashMap<*const Tm, (Rc<Tm>, Rc<Tm>)> = HashMap::new();
        let mut fl = |v: &V| -> Option<V> { self.flat_v(v, &mut seen) };
        for fr in st.frames.iter_mut() { for r in fr.regs.iter_mut() { if let Some(v) = fl(r) { *r = v; } } }
        for a in st.mem.iter_mut() {
            if a.cells.values().any(|(_, v)| !matches!(v, V::I(..) | V::P(..) | V::F(_))) {
                let m = Rc::make_mut(a);
                for (_, v) in m.cells.values_mut() { if let Some(n) = fl(v) { *v = n; } }
            }
        }
        for a in args.iter_mut() { if let Some(v) = fl(a) { *a = v; } }
        for c in st.cons.iter_mut() { if let Some(t) = self.flat(&c.tm) { *c = Rc::new(Con { tm: t, rel: c.rel }); } }
        let cur = match &args[ai] { V::T(t) => t.clone(), _ => return args };
        let _ = old;
        if !(cur.rem > 0.0) || !cur.rem.is_finite() { return args; }
        let mut n = (*cur).clone();
        let i = (0..self.k.n).find(|i| self.k.grade[*i] == 1 && self.k.exps[*i][e] == 1).unwrap();
        n.c[i] = n.rem;
        n.rem = 0.0;
        let nv = V::T(Rc::new(n));
        replace(st, &cur, &nv);
        for a in args.iter_mut() { if let Some(v) = map_v(a, &cur, &nv) { *a = v; } }
        args
    }
    fn flat_v(&self, v: &V, seen: &mut HashMap<*const Tm, (Rc<Tm>, Rc<Tm>)>) -> Option<V> {
        let t = match v {
            V::T(t) | V::B(t, _) | V::E(t, _, _) | V::NB(t) | V::Abs(t) | V::Tr(t) => t,
            V::Agg(a) => { let n: Vec<Option<V>> = a.iter().map(|x| self.flat_v(x, seen)).collect(); return if n.iter().any(|x| x.is_some()) { Some(V::Agg(Rc::new(n.into_iter().zip(a.iter()).map(|(n, o)| n.unwrap_or_else(|| o.clone())).collect()))) } else { None }; }
            _ => return None,
        };
        let n = match seen.get(&Rc::as_ptr(t)) { Some(x) => x.1.clone(), None => { let n = Rc::new(self.flat(t)?); seen.insert(Rc::as_ptr(t), (t.clone(), n.clone())); n } };
        Some(match v { V::T(_) => V::T(n), V::B(_, m) => V::B(n, *m), V::E(_, o, f) => V::E(n, *o, *f), V::NB(_) => V::NB(n), V::Abs(_) => V::Abs(n), V::Tr(_) => V::Tr(n), _ => unreachable!() })
    }

    /// where d (depending on one variable only, monotone) crosses zero: the doubles of that variable around it
    fn crossing(&self, d: &Tm) -> Option<(usize, Vec<f64>)> {
        let k = &self.k;
        let i = d.single_var(k)?;
        if self.ev == Some(i) { return None; }
        // coefficients of the univariate polynomial
        let mut u = vec![0.0; k.deg + 1];
        for (j, e) in k.exps.iter().enumerate() { if k.grade[j] == e[i] as usize { u[e[i] as usize] = d.c[j]; } }
        let mut tail = 0.0;
        for (j, c) in u.iter().enumerate().skip(2) { tail += j as f64 * c.abs(); }
        if !(u[1].abs() > tail) { return None; }
        let ev = |t: f64| u.iter().rev().fold(0.0, |r, c| r * t + c);
        let slope = u[1].abs() - tail;
        let s = u[1].signum();
        let (mut a, mut b) = (-1.0f64, 1.0f64);
        for _ in 0..80 { let m = 0.5 * (a + b); if ev(m) * s < 0.0 { a = m } else { b = m } }
        let t = 0.5 * (a + b);
        let w = d.rem / slope;
        let (c, r) = self.center_radius(i);
        let (lo, hi) = self.vars[i];
        let x = c + r * t;
        if !(r * w).is_finite() { return None; }
        let z1 = x - r * w;
        let z2 = x + r * w;
        let (mut p, mut q) = (ord(z1), ord(z2));
        if d.rem > 0.0 { p -= 1; q += 1; }
        // the root itself is only known to double precision
        if x != 0.0 || d.rem != 0.0 { p -= 1; q += 1; }
        let (ol, oh) = (ord(lo), ord(hi));
        if q < p { return None; }
        if q.saturating_sub(p) > 12 { return None; }
        let pts: Vec<f64> = (p..=q).filter(|z| *z >= ol && *z <= oh).map(unord).collect();
        if pts.is_empty() { return None; }
        Some((i, pts))
    }

    /// decide a < b / a == b / a > b by splitting or forking; arms labelled -1, 0, 1
    /// `want_eq`: equality matters separately from both sides
    fn fork_cmp(&self, a: &V, b: &V, d: Tm, classes: [i64; 3], forced: bool) -> ER<Step> {
        // classes: outcome label for less, equal, greater
        let constant = matches!(a, V::F(_)) || matches!(b, V::F(_));
        if constant && !self.noisy(&d) {
            if let Some((i, pts)) = self.crossing(&d) { return Err(Stop::Split(self.act[i], pts)); }
        }
        let noise = self.noisy(&d);
        let can = [d.lo < 0.0, d.lo <= 0.0 && d.hi >= 0.0, d.hi > 0.0];
        let mut arms = vec![];
        let mut seen: Vec<i64> = vec![];
        // different from zero on either side: keep the two sides apart, so that each knows it is not zero
        let apart = noise && matches!((a, b), (V::T(_), V::F(z)) if *z == 0.0) && classes[0] == classes[2] && classes[1] != classes[0];
        for c in 0..3 {
            if !can[c] || (seen.contains(&classes[c]) && !apart) { continue; }
            let lab = classes[c];
            seen.push(lab);
            let inl = if apart { [c == 0, c == 1, c == 2] } else { [classes[0] == lab && can[0], classes[1] == lab && can[1], classes[2] == lab && can[2]] };
            let con = match inl {
                [true, false, false] => Some(Con { tm: d.clone(), rel: Rel::Lt }),
                [true, true, false] => Some(Con { tm: d.clone(), rel: Rel::Le }),
                [false, true, false] => Some(Con { tm: d.clone(), rel: Rel::Eq }),
                [false, true, true] => Some(Con { tm: d.neg(), rel: Rel::Le }),
                [false, false, true] => Some(Con { tm: d.neg(), rel: Rel::Lt }),
                _ => None,
            };
            let mut cl = None;
            let mut repl = None;
            let mut do_clip = |t: &Rc<Tm>, lo_side: bool, v: (f64, f64), strict: bool| {
                if lo_side { cl = Some((t.clone(), f64::NEG_INFINITY, if strict { nd(v.1) } else { v.1 })); } else { cl = Some((t.clone(), if strict { nu(v.0) } else { v.0 }, f64::INFINITY)); }
            };
            match (a, b, inl) {
                (V::T(t), V::F(f), [false, true, false]) => if *f != 0.0 { repl = Some((t.clone(), V::F(*f))) } else { cl = Some((t.clone(), 0.0, 0.0)) },
                (V::F(f), V::T(t), [false, true, false]) => if *f != 0.0 { repl = Some((t.clone(), V::F(*f))) } else { cl = Some((t.clone(), 0.0, 0.0)) },
                (V::T(t), _, [true, e, false]) => do_clip(t, true, self.rng(b)?, !e),
                (V::T(t), _, [false, e, true]) => do_clip(t, false, self.rng(b)?, !e),
                (V::F(f), V::T(t), [true, e, false]) => do_clip(t, false, (*f, *f), !e),
                (V::F(f), V::T(t), [false, e, true]) => do_clip(t, true, (*f, *f), !e),
                _ => {}
            }
            arms.push(Arm { forced: if forced { Some(lab) } else { None }, key: lab, con, clip: cl, repl });
        }
        Ok(Step::Fork(Fork { noise, arms }))
    }

    /// sign of a symbolic value: Ok(None) = a fork is needed
    fn need_sign(&self, t: &Rc<Tm>) -> Result<bool, ER<Step>> {
        if t.lo >= 0.0 { return Ok(false); }
        if t.hi < 0.0 || (t.hi <= 0.0 && t.lo < 0.0) { return Ok(true); }
        Err(self.fork_cmp(&V::T(t.clone()), &V::F(0.0), (**t).clone(), [-1, 1, 1], false))
    }
    /// biased exponent of a symbolic value whose sign is known
    fn need_binade(&self, t: &Rc<Tm>) -> Result<i64, ER<Step>> {
        let neg = match self.need_sign(t) { Ok(n) => n, Err(e) => return Err(e) };
        let (l, h) = if neg { (-t.hi, -t.lo) } else { (t.lo, t.hi) };
        let (el, eh) = ((l.to_bits() >> 52) as i64, (h.to_bits() >> 52) as i64);
        if el == eh { return Ok(el); }
        // threshold: the largest power of two in the range, or the middle one if there are many
        let e = if eh - el > 2 { (el + eh) / 2 + 1 } else { eh };
        let c = f64::from_bits((e as u64) << 52);
        let c = if neg { -c } else { c };
        let d = t.sub(&Tm::cst(&self.k, c), &self.k);
        Err(if eh - el > 8 { Err(Stop::Bisect("many binades".into())) } else { self.fork_cmp(&V::T(t.clone()), &V::F(c), d, if neg { [-1, -1, 1] } else { [-1, 1, 1] }, false) })
    }

    /// |t| against c where the sign of t is open: one arm inside (-c, c), one arm outside, without deciding the sign
    fn fork_abs(&self, pred: &str, x: &V, y: &V, t: &Rc<Tm>) -> ER<Option<Step>> {
        // normalise to |t| ? c
        let (c, flip) = match (x, y) { (V::Abs(_), V::F(_)) | (V::Abs(_), V::T(_)) => (y, false), (V::F(_), V::Abs(_)) | (V::T(_), V::Abs(_)) => (x, true), _ => return Ok(None) };
        let small = match pred { "olt" | "ult" | "ole" | "ule" => !flip, "ogt" | "ugt" | "oge" | "uge" => flip, _ => return Ok(None) };
        let (cl, ch) = match c { V::F(f) if f.is_finite() => (*f, *f), V::T(q) => (q.lo, q.hi), _ => return Ok(None) };
        if !(ch > 0.0) { return Ok(None); }
        let cv = self.tm(c).ok_or(Stop::Unsupported("abs cmp".into()))?;
        let d = t.sub(&cv, &self.k);
        let e = t.neg().sub(&cv, &self.k);
        let noise = self.noisy(t) || self.noisy(&d);
        if !noise && matches!(c, V::F(_)) {
            for z in [&d, &e] {
                if z.lo <= 0.0 && z.hi >= 0.0 && !self.noisy(z) { if let Some((i, pts)) = self.crossing(z) { return Err(Stop::Split(self.act[i], pts)); } }
            }
        }
        let con = if d.hi >= 0.0 { Some(Con { tm: d.clone(), rel: Rel::Le }) } else if e.hi >= 0.0 { Some(Con { tm: e.clone(), rel: Rel::Le }) } else { None };
        let inside = Arm { forced: Some(small as i64), key: small as i64, con, clip: Some((t.clone(), -ch, ch)), repl: None };
        let (ocon, oclip) = if e.hi < 0.0 { (Some(Con { tm: d.neg(), rel: Rel::Le }), Some((t.clone(), cl, f64::INFINITY))) }
            else if d.hi < 0.0 { (Some(Con { tm: e.neg(), rel: Rel::Le }), Some((t.clone(), f64::NEG_INFINITY, -cl))) } else { (None, None) };
        let outside = Arm { forced: Some(!small as i64), key: !small as i64, con: ocon, clip: oclip, repl: None };
        Ok(Some(Step::Fork(Fork { noise, arms: vec![inside, outside] })))
    }

    /// an instruction about to use an absolute value of undetermined sign: decide the comparison if it can be, else fork on the sign
    fn force_abs(&self, st: &mut State, ins: &Ins) -> ER<Option<Step>> {
        let ops: Vec<&Opd> = match ins {
            Ins::Bin { a, b, .. } | Ins::FCmp { a, b, .. } | Ins::ICmp { a, b, .. } => vec![a, b],
            Ins::FNeg { a, .. } | Ins::Cast { a, .. } => vec![a],
            Ins::Call { callee: Opd::Global(n), args, .. } if n.starts_with("llvm.") || !self.prog_has(n) => args.iter().collect(),
            _ => return Ok(None),
        };
        for o in ops {
            let t = match self.val(st, o)? { V::Abs(t) => t, _ => continue };
            if let Ins::FCmp { pred, a, b, dst } = ins {
                let (x, y) = (self.val(st, a)?, self.val(st, b)?);
                let hull = |v: &V| -> Option<(f64, f64)> { match v { V::Abs(t) => Some((0.0, t.hi.max(-t.lo))), V::T(t) => Some((t.lo, t.hi)), V::F(f) if !f.is_nan() => Some((*f, *f)), _ => None } };
                if let (Some(p), Some(q)) = (hull(&x), hull(&y)) {
                    let r = if p.1 < q.0 { 0 } else if p.0 > q.1 { 2 } else { 1 };
                    if r != 1 {
                        let v = match pred.as_str() { "one" | "une" | "ord" => true, "olt" | "ult" | "ole" | "ule" => r == 0, "ogt" | "ugt" | "oge" | "uge" => r == 2, _ => false };
                        let fr = st.frames.last_mut().unwrap();
                        fr.regs[*dst] = V::I(v as u64, 1);
                        fr.ip += 1;
                        return Ok(Some(Step::Next));
                    }
                }
            }
            if let Ins::FCmp { pred, a, b, .. } = ins {
                if t.lo < 0.0 && t.hi > 0.0 {
                    if st.forced.is_some() { return Ok(None); }
                    if let Some(f) = self.fork_abs(pred, &self.val(st, a)?, &self.val(st, b)?, &t)? { return Ok(Some(f)); }
                }
            }
            let n = match self.need_sign(&t) { Ok(n) => n, Err(r) => return r.map(Some) };
            let v = if n { V::T(Rc::new(t.neg())) } else { V::T(t.clone()) };
            let fr = st.frames.last_mut().unwrap();
            for r in fr.regs.iter_mut() { let hit = matches!(r, V::Abs(q) if Rc::ptr_eq(q, &t)); if hit { *r = v.clone(); } }
            return Ok(Some(Step::Next));
        }
        Ok(None)
    }
    fn prog_has(&self, n: &str) -> bool { self.prog.find(n, 0).is_some() || self.prog.modules.iter().any(|m| m.funcs.contains_key(n)) }

    fn binades(&self, t: &Tm) -> (i64, i64, bool) {
        let neg = t.hi <= 0.0 && t.lo < 0.0;
        let (l, h) = if neg { (-t.hi, -t.lo) } else { (t.lo, t.hi) };
        let l = if l <= 0.0 { 0.0 } else { l };
        ((l.to_bits() >> 52) as i64, (h.to_bits() >> 52) as i64, neg)
    }
    /// outcome of a function of the biased exponent (sign known); forks at a power of two if it varies
    fn exp_case(&self, t: &Rc<Tm>, f: &dyn Fn(i64) -> u64) -> Result<u64, ER<Step>> {
        let (el, eh, neg) = self.binades(t);
        let v = f(el);
        for e in el + 1..=eh {
            if f(e) != v {
                let c = f64::from_bits((e as u64) << 52);
                let c = if neg { -c } else { c };
                if c == 0.0 || !c.is_finite() { return Err(Err(Stop::Bisect("exponent case".into()))); }
                let d = t.sub(&Tm::cst(&self.k, c), &self.k);
                return Err(self.fork_cmp(&V::T(t.clone()), &V::F(c), d, if neg { [-1, -1, 1] } else { [-1, 1, 1] }, false));
            }
        }
        Ok(v)
    }
    fn binade_stop(&self, t: &Rc<Tm>) -> Stop {
        match self.need_binade(t) { Err(Err(s)) => s, _ => Stop::Bisect("binade".into()) }
    }

    /// integer k with k <= t < k+1 (floor)
    fn need_floor(&self, t: &Rc<Tm>) -> Result<f64, ER<Step>> {
        let (l, h) = (t.lo.floor(), t.hi.floor());
        if l == h { return Ok(l); }
        if h - l > 6.0 { *self.hint.borrow_mut() = Some((**t).clone()); return Err(Err(Stop::Bisect("many integers".into()))); }
        let c = h;
        let d = t.sub(&Tm::cst(&self.k, c), &self.k);
        Err(self.fork_cmp(&V::T(t.clone()), &V::F(c), d, [-1, 1, 1], false))
    }
    /// truncation toward zero
    fn need_trunc(&self, t: &Rc<Tm>) -> Result<f64, ER<Step>> {
        let (l, h) = (t.lo.trunc(), t.hi.trunc());
        if l == h { return Ok(l); }
        if h - l > 6.0 { *self.hint.borrow_mut() = Some((**t).clone()); return Err(Err(Stop::Bisect("many integers".into()))); }
        if h >= 1.0 { let d = t.sub(&Tm::cst(&self.k, h), &self.k); return Err(self.fork_cmp(&V::T(t.clone()), &V::F(h), d, [-1, 1, 1], false)); }
        let d = t.sub(&Tm::cst(&self.k, l), &self.k);
        Err(self.fork_cmp(&V::T(t.clone()), &V::F(l), d, [-1, -1, 1], false))
    }

    // ------------------------------------------------------------------ float arithmetic
    pub fn fbin(&self, op: &str, a: &V, b: &V) -> ER<V> {
        match self.fbin0(op, a, b) { Err(Stop::Bisect(m)) => Ok(V::Bad(Rc::new(m))), r => r }
    }
    fn fbin0(&self, op: &str, a: &V, b: &V) -> ER<V> {
        let k = &self.k;
        match (a, b) {
            (V::F(x), V::F(y)) => return Ok(V::F(match op { "fadd" => x + y, "fsub" => x - y, "fmul" => x * y, "fdiv" => x / y, "frem" => x % y, _ => return Err(Stop::Unsupported(op.into())) })),
            (V::Undef, _) | (_, V::Undef) => return Err(Stop::NoMerge),
            (V::Bad(m), _) | (_, V::Bad(m)) => return Ok(V::Bad(m.clone())),
            (V::NB(t), _) | (_, V::NB(t)) => return Ok(V::NB(t.clone())),
            (V::F(x), V::T(_)) | (V::T(_), V::F(x)) if x.is_nan() => return Ok(V::F(f64::NAN)),
            (V::F(x), V::T(t)) if x.is_infinite() => return match op {
                "fadd" | "fsub" => Ok(V::F(*x)),
                "fmul" | "fdiv" => if t.lo > 0.0 { Ok(V::F(*x)) } else if t.hi < 0.0 { Ok(V::F(-*x)) } else { Err(Stop::Bisect("inf times sign".into())) },
                _ => Err(Stop::Unsupported(op.into())),
            },
            (V::T(t), V::F(y)) if y.is_infinite() => return match op {
                "fadd" => Ok(V::F(*y)),
                "fsub" => Ok(V::F(-*y)),
                "fmul" => if t.lo > 0.0 { Ok(V::F(*y)) } else if t.hi < 0.0 { Ok(V::F(-*y)) } else { Err(Stop::Bisect("inf times sign".into())) },
                "fdiv" => if t.lo >= 0.0 { Ok(V::F(0.0 / *y)) } else if t.hi < 0.0 { Ok(V::F(-0.0 / *y)) } else { Err(Stop::Bisect("sign of zero".into())) },
                _ => Err(Stop::Unsupported(op.into())),
            },
            _ => {}
        }
        let (x, y) = match (self.tm(a), self.tm(b)) { (Some(x), Some(y)) => (x, y), _ => return Err(Stop::Unsupported(format!("{} {:?} {:?}", op, a, b))) };
        let same = matches!((a, b), (V::T(p), V::T(q)) if Rc::ptr_eq(p, q));
        match op {
            "fadd" => { if let V::F(f) = a { if *f == 0.0 { return Ok(b.clone()); } } if let V::F(f) = b { if *f == 0.0 { return Ok(a.clone()); } } self.mk(x.add(&y, k).round()) }
            "fsub" => {
                if same { return Ok(V::F(0.0)); }
                if let V::F(f) = b { if *f == 0.0 { return Ok(a.clone()); } }
                if let V::F(f) = a { if *f == 0.0 { return self.mk(y.neg()); } }
                self.mk(x.sub(&y, k).round())
            }
            "fmul" => {
                for (c, t) in [(a, &y), (b, &x)] {
                    if let V::F(f) = c {
                        if *f == 0.0 { return if t.lo >= 0.0 { Ok(V::F(*f)) } else if t.hi < 0.0 { Ok(V::F(-*f)) } else { self.mk(Tm::cst(k, 0.0)) }; }
                        if *f == 1.0 { return Ok(if std::ptr::eq(c, a) { b.clone() } else { a.clone() }); }
                        if *f == -1.0 { return self.mk(t.neg()); }
                    }
                }
                let r = if same { x.mul(&x, k) } else { x.mul(&y, k) };
                if r.lo > f64::MAX * 1.0000000001 { return Ok(V::F(f64::INFINITY)); }
                if r.hi < -f64::MAX * 1.0000000001 { return Ok(V::F(f64::NEG_INFINITY)); }
                // lower bound of the magnitude when the product overflows everywhere
                if !r.finite() {
                    let g = x.mig() * y.mig();
                    if g == f64::INFINITY { let s = (x.lo < 0.0) != (y.lo < 0.0); return Ok(V::F(if s { f64::NEG_INFINITY } else { f64::INFINITY })); }
                }
                self.mk(r.round())
            }
            "fdiv" => {
                if let V::F(f) = b { if *f == 1.0 { return Ok(a.clone()); } if *f == -1.0 { return self.mk(x.neg()); } }
                if let V::F(f) = a { if *f == 0.0 && y.mig() > 0.0 { return Ok(V::F(if y.lo > 0.0 { *f } else { -*f })); } }
                if let V::F(f) = b {
                    if *f == 0.0 && x.mig() > 0.0 { return Ok(V::F(if x.lo > 0.0 { 1.0 / *f } else { -1.0 / *f })); }
                }
                if same && x.mig() > 0.0 { return Ok(V::F(1.0)); }
                if y.mig() > 0.0 && y.mag() < f64::INFINITY {
                    let g = x.mig() / y.mag();
                    if g == f64::INFINITY { let s = (x.lo < 0.0) != (y.lo < 0.0); return Ok(V::F(if s { f64::NEG_INFINITY } else { f64::INFINITY })); }
                }
                self.mk(x.div(&y, k).map_err(Self::fail)?.round())
            }
            _ => Err(Stop::Unsupported(op.into())),
        }
    }
    fn math1(&self, name: &str, a: &V) -> ER<Option<V>> {
        if let V::Bad(_) = a { return Ok(Some(a.clone())); }
        match self.math10(name, a) { Err(Stop::Bisect(m)) => Ok(Some(V::Bad(Rc::new(m)))), r => r }
    }
    fn math10(&self, name: &str, a: &V) -> ER<Option<V>> {
        let k = &self.k;
        match a {
            V::F(x) => Ok(Some(V::F(match name {
                "sqrt" => x.sqrt(), "exp" => x.exp(), "log" => x.ln(), "sin" => x.sin(), "cos" => x.cos(), "sinh" => x.sinh(), "cosh" => x.cosh(),
                "fabs" => x.abs(), "floor" => x.floor(), "trunc" => x.trunc(), "ceil" => x.ceil(), "tan" => x.tan(), "exp2" => x.exp2(), "log2" => x.log2(), "log10" => x.log10(), "expm1" => x.exp_m1(), "log1p" => x.ln_1p(),
                "tanh" => x.tanh(), "atan" => x.atan(), "asin" => x.asin(), "acos" => x.acos(), "round" => x.round(), "rint" | "roundeven" | "nearbyint" => x.round_ties_even(), "cbrt" => x.cbrt(),
                _ => return Ok(None),
            }))),
            V::T(t) => {
                let r = match name {
                    "sqrt" if t.hi >= 0.0 => t.sqrt(k).map_err(Self::fail)?.round(),
                    "exp" => {
                        if t.lo > 709.7828 { return Ok(Some(V::F(f64::INFINITY))); }
                        if t.hi < -745.14 { return Ok(Some(V::F(0.0))); }
                        let mut r = t.exp(k).map_err(Self::fail)?.blur_ulp(1.0); r.meet(0.0, f64::INFINITY); r
                    }
                    "log" | "log2" | "log10" | "sqrt" if t.hi < 0.0 => return Ok(Some(V::F(f64::NAN))),
                    "log" => t.ln(k).map_err(Self::fail)?.blur_ulp(1.0),
                    "log1p" => t.add(&Tm::cst(k, 1.0), k).ln(k).map_err(Self::fail)?.blur_ulp(1.0),
                    "expm1" => { let mut r = t.exp(k).map_err(Self::fail)?; r.lat = i32::MIN; r.sub(&Tm::cst(k, 1.0), k).blur_ulp(1.0) }
                    "sin" => t.sincos(k).map_err(Self::fail)?.0.blur_ulp(1.0),
                    "cos" => t.sincos(k).map_err(Self::fail)?.1.blur_ulp(1.0),
                    "sinh" => t.sinhcosh(k).map_err(Self::fail)?.0.blur_ulp(2.0),
                    "cosh" => t.sinhcosh(k).map_err(Self::fail)?.1.blur_ulp(2.0),
                    "tanh" => { let (s, c) = t.sinhcosh(k).map_err(Self::fail)?; s.div(&c, k).map_err(Self::fail)?.blur_ulp(2.0) }
                    "tan" => { let (s, c) = t.sincos(k).map_err(Self::fail)?; s.div(&c, k).map_err(Self::fail)?.blur_ulp(1.0) }
                    "cbrt" => { if t.lo <= 0.0 { return Err(Stop::Bisect("cbrt".into())); } let l = t.ln(k).map_err(Self::fail)?; l.div(&Tm::cst(k, 3.0), k).map_err(Self::fail)?.exp(k).map_err(Self::fail)?.blur_ulp(1.0) }
                    _ => return Ok(None),
                };
                Ok(Some(self.mk(r)?))
            }
            V::Undef => Err(Stop::NoMerge),
            _ => Ok(None),
        }
    }

    // ------------------------------------------------------------------ one instruction
    fn step(&mut self, st: &mut State) -> ER<Step> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.f.blocks[fr.blk][fr.ip];
        macro_rules! done { ($dst:expr, $v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[$dst] = v; fr.ip += 1; return Ok(Step::Next); }} }
        macro_rules! need { ($e:expr) => { match $e { Ok(x) => x, Err(r) => return r } } }
        if self.has_abs { if let Some(r) = self.force_abs(st, ins)? { return Ok(r); } }
        match ins {
            Ins::Bin { op, ty, a, b, dst } => {
                let (x, y) = (self.val(st, a)?, self.val(st, b)?);
                if op.starts_with('f') {
                    if let (V::Agg(p), V::Agg(q)) = (&x, &y) {
                        let mut v = vec![];
                        for (p, q) in p.iter().zip(q.iter()) { v.push(self.fbin(op, p, q)?); }
                        done!(*dst, V::Agg(Rc::new(v)));
                    }
                    done!(*dst, self.fbin(op, &x, &y)?);
                }
                let w = match ty { Ty::I(w) => *w, _ => return Err(Stop::Unsupported(format!("bin {:?}", ty))) };
                match (&x, &y) {
                    (V::I(p, _), V::I(q, _)) => {
                        let (p, q) = (*p, *q);
                        let m = mask(w);
                        let r = match op.as_str() {
                            "add" => p.wrapping_add(q), "sub" => p.wrapping_sub(q), "mul" => p.wrapping_mul(q),
                            "udiv" => { if q == 0 { return Ok(Step::Panic("div0".into())); } p / q }
                            "urem" => { if q == 0 { return Ok(Step::Panic("div0".into())); } p % q }
                            "sdiv" => { if q == 0 { return Ok(Step::Panic("div0".into())); } sx(p, w).wrapping_div(sx(q, w)) as u64 }
                            "srem" => { if q == 0 { return Ok(Step::Panic("div0".into())); } sx(p, w).wrapping_rem(sx(q, w)) as u64 }
                            "and" => p & q, "or" => p | q, "xor" => p ^ q,
                            "shl" => if q >= w as u64 { 0 } else { p << q },
                            "lshr" => if q >= w as u64 { 0 } else { p >> q },
                            "ashr" => if q >= w as u64 { 0 } else { (sx(p, w) >> q) as u64 },
                            _ => return Err(Stop::Unsupported(op.clone())),
                        };
                        done!(*dst, V::I(r & m, w));
                    }
                    (V::E(t, off, sh), V::I(c, _)) | (V::I(c, _), V::E(t, off, sh)) => {
                        let left = matches!(x, V::E(..));
                        let (t, off, sh, c) = (t.clone(), *off, *sh, *c);
                        let (el, eh, _) = self.binades(&t);
                        let nonneg = el + off >= 0;
                        match op.as_str() {
                            "add" if !sh => done!(*dst, V::E(t, off + sx(c, w), false)),
                            "sub" if !sh && left => done!(*dst, V::E(t, off - sx(c, w), false)),
                            "and" if !sh && nonneg && eh + off < 2048 && c == 2047 => done!(*dst, V::E(t, off, false)),
                            "and" if !sh && off == 2048 && c == 2047 => done!(*dst, V::E(t, 0, false)),
                            "shl" if !sh && left && c == 52 && w == 64 && nonneg && eh + off < 2048 => done!(*dst, V::E(t, off, true)),
                            _ => {
                                let e = need!(self.need_binade(&t)) + off;
                                let v = if sh { (e as u64) << 52 } else { e as u64 } & mask(w);
                                // replace the operand and run the instruction again
                                let fr = st.frames.last_mut().unwrap();
                                for r in fr.regs.iter_mut() { let hit = matches!(r, V::E(q, o, s) if Rc::ptr_eq(q, &t) && *o == off && *s == sh); if hit { *r = V::I(v, w); } }
                                return Ok(Step::Next);
                            }
                        }
                    }
                    (V::B(t, mode), V::E(u, off, true)) | (V::E(u, off, true), V::B(t, mode)) if (op == "or" || op == "add") && *mode > 0 => {
                        if !Rc::ptr_eq(t, u) { return Err(Stop::Bisect("exponent of another value".into())); }
                        let (el, eh, neg) = self.binades(t);
                        if el == 0 || eh >= 2047 || el + off <= 0 || eh + off >= 2047 { return Err(Stop::Bisect("special exponent".into())); }
                        let mut r = t.scale2(*off as i32);
                        if *mode == 1 && neg { r = r.neg(); }
                        done!(*dst, V::B(Rc::new(r), 0));
                    }
                    (V::NB(t), _) | (_, V::NB(t)) => return Err(self.binade_stop(t)),
                    (V::B(t, mode), V::I(c, _)) | (V::I(c, _), V::B(t, mode)) => {
                        let left = matches!(x, V::B(..));
                        let (t, mode, c) = (t.clone(), *mode, *c);
                        const SIGN: u64 = 1 << 63;
                        const EXP: u64 = 0x7ff << 52;
                        const MAN: u64 = (1 << 52) - 1;
                        match (op.as_str(), mode) {
                            ("and", 0) if c == MAN | EXP => { let n = need!(self.need_sign(&t)); let v = if n { Rc::new(t.neg()) } else { t }; done!(*dst, V::B(v, 0)); }
                            ("and", 0) if c == MAN => { need!(self.need_sign(&t)); done!(*dst, V::B(t, 1)); }
                            ("and", 0) if c == MAN | SIGN => { need!(self.need_sign(&t)); done!(*dst, V::B(t, 2)); }
                            ("and", 0) if c == SIGN => { let n = need!(self.need_sign(&t)); done!(*dst, V::I(if n { SIGN } else { 0 }, 64)); }
                            ("and", 0) if c & MAN == 0 => {
                                let n = need!(self.need_sign(&t));
                                let e = need!(self.need_binade(&t));
                                done!(*dst, V::I((((n as u64) << 63) | ((e as u64) << 52)) & c, 64));
                            }
                            ("lshr", 0) if left && c == 52 => { let n = need!(self.need_sign(&t)); done!(*dst, V::E(t, if n { 2048 } else { 0 }, false)); }
                            ("lshr", 0) if left && c >= 52 && c < 64 => {
                                let n = need!(self.need_sign(&t));
                                let e = need!(self.need_binade(&t));
                                done!(*dst, V::I((((n as u64) << 11) | e as u64) >> (c - 52), 64));
                            }
                            ("ashr", 0) if left && c == 63 => { let n = need!(self.need_sign(&t)); done!(*dst, V::I(if n { u64::MAX } else { 0 }, 64)); }
                            ("shl", 0) if left && c == 1 => return Err(Stop::Unsupported("shl bits".into())),
                            ("xor", 0) if c == SIGN => done!(*dst, V::B(Rc::new(t.neg()), 0)),
                            ("or", 0) if c == SIGN => { let n = need!(self.need_sign(&t)); let v = if n { t } else { Rc::new(t.neg()) }; done!(*dst, V::B(v, 0)); }
                            ("or", 1) | ("or", 2) | ("add", 1) | ("add", 2) if c & MAN == 0 => {
                                let n = need!(self.need_sign(&t));
                                let (el, eh, _) = self.binades(&t);
                                if el != eh { done!(*dst, V::NB(t)); }
                                let e = el;
                                let ne = ((c & EXP) >> 52) as i64;
                                if ne == 0 || ne == 0x7ff || e == 0 { return Err(Stop::Bisect("special exponent".into())); }
                                let mut r = t.scale2((ne - e) as i32);
                                let want = (c & SIGN != 0) || (mode == 2 && n);
                                if want != n { r = r.neg(); }
                                done!(*dst, V::B(Rc::new(r), 0));
                            }
                            ("add", 0) | ("sub", 0) if left && c & MAN == 0 => {
                                let e = need!(self.need_binade(&t));
                                let de = (c as i64) >> 52;
                                let de = if op == "add" { de } else { -de };
                                let ne = e + de;
                                if e == 0 || ne <= 0 || ne >= 0x7ff { return Err(Stop::Bisect("special exponent".into())); }
                                done!(*dst, V::B(Rc::new(t.scale2(de as i32)), 0));
                            }
                            _ => return Err(Stop::Unsupported(format!("bits {} {:x} mode {}", op, c, mode))),
                        }
                    }
                    (V::P(i, o), V::P(j, q)) if i == j && op == "sub" => done!(*dst, V::I((*o as i64 - *q as i64) as u64 & mask(w), w)),
                    (V::P(i, o), V::I(q, _)) if w == 64 && op == "add" => done!(*dst, V::P(*i, *o + *q as i64)),
                    (V::I(q, _), V::P(i, o)) if w == 64 && op == "add" => done!(*dst, V::P(*i, *o + *q as i64)),
                    (V::P(i, o), V::I(q, _)) if w == 64 && op == "sub" => done!(*dst, V::P(*i, *o - *q as i64)),
                    (V::P(_, o), V::I(q, _)) if w == 64 && op == "and" && *q < 16 => done!(*dst, V::I(*o as u64 & *q, 64)),
                    (V::Undef, _) | (_, V::Undef) => return Err(Stop::NoMerge),
                    _ => return Err(Stop::Unsupported(format!("int {} {:?} {:?}", op, x, y))),
                }
            }
            Ins::FNeg { a, dst } => {
                let x = self.val(st, a)?;
                let v = match &x { V::F(f) => V::F(-f), V::T(t) => V::T(Rc::new(t.neg())), V::Agg(v) => V::Agg(Rc::new(v.iter().map(|x| match x { V::F(f) => V::F(-f), V::T(t) => V::T(Rc::new(t.neg())), _ => V::Undef }).collect())), _ => return Err(Stop::NoMerge) };
                done!(*dst, v);
            }
            Ins::ICmp { pred, ty, a, b, dst } => {
                let (x, y) = (self.val(st, a)?, self.val(st, b)?);
                let w = match ty { Ty::I(w) => *w, _ => 64 };
                let icmp = |p: u64, q: u64| -> bool {
                    match pred.as_str() { "eq" => p == q, "ne" => p != q, "ult" => p < q, "ule" => p <= q, "ugt" => p > q, "uge" => p >= q,
                        "slt" => sx(p, w) < sx(q, w), "sle" => sx(p, w) <= sx(q, w), "sgt" => sx(p, w) > sx(q, w), _ => sx(p, w) >= sx(q, w) }
                };
                match (&x, &y) {
                    (V::I(p, _), V::I(q, _)) => done!(*dst, V::I(icmp(*p, *q) as u64, 1)),
                    (V::P(i, o), V::P(j, p)) if i == j => done!(*dst, V::I(icmp(*o as u64, *p as u64) as u64, 1)),
                    (V::P(i, o), V::P(j, p)) => { let (a, b) = ((*i as u64) << 20, (*j as u64) << 20); done!(*dst, V::I(icmp(a + *o as u64, b + *p as u64) as u64, 1)) }
                    (V::P(..), V::I(q, _)) => done!(*dst, V::I(icmp(0x7000_0000_0000, *q) as u64, 1)),
                    (V::I(q, _), V::P(..)) => done!(*dst, V::I(icmp(*q, 0x7000_0000_0000) as u64, 1)),
                    (V::E(t, off, false), V::I(c, _)) => {
                        let (off, c) = (*off, *c);
                        let r = need!(self.exp_case(t, &|e| icmp((e + off) as u64 & mask(w), c) as u64));
                        done!(*dst, V::I(r, 1));
                    }
                    (V::I(c, _), V::E(t, off, false)) => {
                        let (off, c) = (*off, *c);
                        let r = need!(self.exp_case(t, &|e| icmp(c, (e + off) as u64 & mask(w)) as u64));
                        done!(*dst, V::I(r, 1));
                    }
                    (V::NB(t), _) | (_, V::NB(t)) => return Err(self.binade_stop(t)),
                    (V::Tr(t), V::I(c, _)) => {
                        if let Some(l) = st.forced.take() { done!(*dst, V::I(l as u64, 1)); }
                        let c = *c as f64;
                        let (c, cl): (f64, [i64; 3]) = match pred.as_str() { "ult" | "slt" => (c, [1, 0, 0]), "ule" | "sle" => (c + 1.0, [1, 0, 0]), "ugt" | "sgt" => (c + 1.0, [0, 1, 1]), _ => (c, [0, 1, 1]) };
                        let xv = V::T(t.clone());
                        match self.cmp(&xv, &V::F(c))? {
                            Dec::Known(o) => done!(*dst, V::I(cl[(o as i8 + 1) as usize] as u64, 1)),
                            Dec::Ambig(d) => return self.fork_cmp(&xv, &V::F(c), d, cl, true),
                        }
                    }
                    (V::B(t, 0), V::I(c, _)) => {
                        let c = *c;
                        if let Some(l) = st.forced.take() { done!(*dst, V::I(l as u64, 1)); }
                        let signed = pred.starts_with('s');
                        if signed && (c == 0 || c == u64::MAX) {
                            // sign test
                            let neg_true = match (pred.as_str(), c) { ("slt", 0) | ("sle", u64::MAX) => true, ("sge", 0) | ("sgt", u64::MAX) => false, _ => return Err(Stop::Unsupported("signed bit compare".into())) };
                            let n = need!(self.need_sign(t));
                            done!(*dst, V::I((n == neg_true) as u64, 1));
                        }
                        if c & !(1 << 63) > 0x7ff0000000000000 { // comparison against a NaN pattern; finite values are smaller
                            let n = need!(self.need_sign(t));
                            let vb = if n { (t.lo.to_bits()).max(t.hi.to_bits()) } else { t.hi.to_bits() };
                            done!(*dst, V::I(icmp(vb, c) as u64, 1));
                        }
                        let n = need!(self.need_sign(t));
                        if !n && c >> 63 == 0 {
                            let cf = f64::from_bits(c);
                            let xv = V::T(t.clone());
                            let cl: [i64; 3] = match pred.as_str() { "eq" => [0, 1, 0], "ne" => [1, 0, 1], "ult" | "slt" => [1, 0, 0], "ule" | "sle" => [1, 1, 0], "ugt" | "sgt" => [0, 0, 1], _ => [0, 1, 1] };
                            match self.cmp(&xv, &V::F(cf))? {
                                Dec::Known(o) => done!(*dst, V::I(cl[(o as i8 + 1) as usize] as u64, 1)),
                                Dec::Ambig(d) => return self.fork_cmp(&xv, &V::F(cf), d, cl, true),
                            }
                        }
                        let lo = t.lo.to_bits(); let hi = t.hi.to_bits();
                        let (p, q) = (icmp(lo, c), icmp(hi, c));
                        if p == q && pred != "eq" && pred != "ne" { done!(*dst, V::I(p as u64, 1)); }
                        return Err(Stop::Unsupported(format!("icmp bits {} {:x}", pred, c)));
                    }
                    (V::Undef, _) | (_, V::Undef) => return Err(Stop::NoMerge),
                    _ => return Err(Stop::Unsupported(format!("icmp {:?} {:?}", x, y))),
                }
            }
            Ins::FCmp { pred, a, b, dst } => {
                let (x, y) = (self.val(st, a)?, self.val(st, b)?);
                if let Some(l) = st.forced.take() { done!(*dst, V::I(l as u64, 1)); }
                if matches!(x, V::Undef) || matches!(y, V::Undef) { return Err(Stop::NoMerge); }
                if let V::NB(t) = &x { return Err(self.binade_stop(t)); }
                if let V::NB(t) = &y { return Err(self.binade_stop(t)); }
                let nan = matches!(&x, V::F(f) if f.is_nan()) || matches!(&y, V::F(f) if f.is_nan());
                if nan { done!(*dst, V::I((pred.starts_with('u') || pred == "true") as u64, 1)); }
                let cl: [i64; 3] = match pred.as_str() {
                    "oeq" | "ueq" => [0, 1, 0], "one" | "une" => [1, 0, 1], "olt" | "ult" => [1, 0, 0], "ole" | "ule" => [1, 1, 0],
                    "ogt" | "ugt" => [0, 0, 1], "oge" | "uge" => [0, 1, 1], "ord" | "true" => [1, 1, 1], "uno" | "false" => [0, 0, 0],
                    _ => return Err(Stop::Unsupported(pred.clone())),
                };
                for v in [&x, &y] { if let V::Bad(m) = v { return Err(Stop::Bisect((**m).clone())); } }
                if cl == [1, 1, 1] || cl == [0, 0, 0] { done!(*dst, V::I(cl[0] as u64, 1)); }
                match self.cmp(&x, &y)? {
                    Dec::Known(o) => done!(*dst, V::I(cl[(o as i8 + 1) as usize] as u64, 1)),
                    Dec::Ambig(d) => {
                        let can = [d.lo < 0.0, true, d.hi > 0.0];
                        let poss: HashSet<i64> = (0..3).filter(|i| can[*i]).map(|i| cl[i]).collect();
                        if poss.len() == 1 { done!(*dst, V::I(*poss.iter().next().unwrap() as u64, 1)); }
                        return self.fork_cmp(&x, &y, d, cl, true);
                    }
                }
            }
            Ins::Cast { op, from, to, a, dst } => {
                let x = self.val(st, a)?;
                let tw = match to { Ty::I(w) => *w, _ => 64 };
                let fw = match from { Ty::I(w) => *w, _ => 64 };
                match (op.as_str(), &x) {
                    ("freeze", V::Undef) => done!(*dst, self.zero(to)),
                    ("freeze", _) => done!(*dst, x),
                    (_, V::Undef) => return Err(Stop::NoMerge),
                    ("trunc", V::E(_, _, false)) | ("zext", V::E(_, _, false)) | ("sext", V::E(_, _, false)) => {
                        if let V::E(t, off, _) = &x { let (el, _, _) = self.binades(t); if op == "zext" && el + off < 0 { return Err(Stop::Unsupported("zext of a negative exponent".into())); } }
                        done!(*dst, x)
                    }
                    ("sitofp", V::E(t, off, false)) | ("uitofp", V::E(t, off, false)) => { let e = need!(self.need_binade(t)); done!(*dst, V::F((e + off) as f64)); }
                    (_, V::NB(t)) if *to == Ty::F64 || tw == 64 => done!(*dst, V::NB(t.clone())),
                    ("trunc", V::I(v, _)) => done!(*dst, V::I(v & mask(tw), tw)),
                    ("zext", V::I(v, _)) => done!(*dst, V::I(*v, tw)),
                    ("sext", V::I(v, _)) => done!(*dst, V::I(sx(*v, fw) as u64 & mask(tw), tw)),
                    ("uitofp", V::I(v, _)) => done!(*dst, V::F(*v as f64)),
                    ("sitofp", V::I(v, _)) => done!(*dst, V::F(sx(*v, fw) as f64)),
                    ("bitcast", V::F(v)) if tw == 64 && *to != Ty::F64 => done!(*dst, V::I(v.to_bits(), 64)),
                    ("bitcast", V::I(v, _)) if *to == Ty::F64 => done!(*dst, V::F(f64::from_bits(*v))),
                    ("bitcast", V::T(t)) => done!(*dst, if *to == Ty::F64 { x.clone() } else { V::B(t.clone(), 0) }),
                    ("bitcast", V::B(t, 0)) => done!(*dst, V::T(t.clone())),
                    ("bitcast", V::B(..)) => return Err(Stop::Unsupported("bitcast of mantissa".into())),
                    ("bitcast", _) => done!(*dst, x),
                    ("fptoui", V::F(v)) => done!(*dst, V::I((*v as u64) & mask(tw), tw)),
                    ("fptosi", V::F(v)) => done!(*dst, V::I((*v as i64 as u64) & mask(tw), tw)),
                    ("fptoui", V::T(t)) | ("fptosi", V::T(t)) => { let v = need!(self.need_trunc(t)); done!(*dst, V::I((v as i64 as u64) & mask(tw), tw)); }
                    ("ptrtoint", V::P(..)) | ("inttoptr", _) => done!(*dst, x),
                    ("ptrtoint", V::I(..)) => done!(*dst, x),
                    _ => return Err(Stop::Unsupported(format!("cast {} {:?}", op, x))),
                }
            }
            Ins::Phi { .. } => return Err(Stop::Unsupported("phi in the middle".into())),
            Ins::Select { c, a, b, dst } => {
                let cv = self.val(st, c)?;
                match cv { V::I(v, _) => { let r = self.val(st, if v & 1 == 1 { a } else { b })?; done!(*dst, r); } V::Undef => return Err(Stop::NoMerge), _ => return Err(Stop::Unsupported("select".into())) }
            }
            Ins::Br { to } => return Ok(Step::Jump(*to)),
            Ins::CondBr { c, t, f } => match self.val(st, c)? { V::I(v, _) => return Ok(Step::Jump(if v & 1 == 1 { *t } else { *f })), V::Undef => return Err(Stop::NoMerge), _ => return Err(Stop::Unsupported("condbr".into())) },
            Ins::Switch { v, def, cases } => match self.val(st, v)? {
                V::I(x, _) => return Ok(Step::Jump(cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def))),
                V::E(t, off, false) => {
                    let to = need!(self.exp_case(&t, &|e| { let x = (e + off) as u64 & 0xffff_ffff; cases.iter().find(|c| c.0 & 0xffff_ffff == x).map(|c| c.1).unwrap_or(*def) as u64 }));
                    return Ok(Step::Jump(to as usize));
                }
                V::Undef => return Err(Stop::NoMerge),
                _ => return Err(Stop::Unsupported("switch".into())),
            },
            Ins::Ret { v } => { let r = match v { Some(o) => Some(self.val(st, o)?), None => None }; return Ok(Step::Ret(r)); }
            Ins::Load { ty, p, dst } => match self.val(st, p)? {
                V::P(i, o) => { let v = self.load(st, ty, i, o)?; done!(*dst, v); }
                _ => return Err(Stop::Unsupported("load address".into())),
            },
            Ins::Store { ty, v, p } => {
                let x = self.val(st, v)?;
                match self.val(st, p)? {
                    V::P(i, o) => { self.store(st, ty, x, i, o)?; st.frames.last_mut().unwrap().ip += 1; return Ok(Step::Next); }
                    _ => return Err(Stop::Unsupported("store address".into())),
                }
            }
            Ins::Gep { ty, p, idx, dst } => {
                let base = self.val(st, p)?;
                let mut off: i64 = 0;
                let mut cur = ty.clone();
                for (n, i) in idx.iter().enumerate() {
                    let v = match self.val(st, i)? { V::I(v, w) => sx(v, w), V::Undef => return Err(Stop::NoMerge), _ => return Err(Stop::Unsupported("gep index".into())) };
                    if n == 0 { off += v * cur.size() as i64; } else {
                        off += cur.field_off(v as usize) as i64;
                        cur = match cur { Ty::Arr(_, e) | Ty::Vec(_, e) => *e, Ty::Struct(f, _) => f[v as usize].clone(), _ => return Err(Stop::Unsupported("gep".into())) };
                    }
                }
                match base { V::P(i, o) => done!(*dst, V::P(i, o + off)), V::I(v, _) => done!(*dst, V::I(v.wrapping_add(off as u64), 64)), _ => return Err(Stop::Unsupported("gep base".into())) }
            }
            Ins::Alloca { size, dst } => {
                st.mem.push(Rc::new(Alloc { bytes: vec![0; *size as usize], cells: BTreeMap::new() }));
                let id = st.mem.len() - 1;
                done!(*dst, V::P(id, 0));
            }
            Ins::Extract { a, idx, dst } => {
                let mut v = self.val(st, a)?;
                for i in idx { v = match &v { V::Agg(x) => x[*i].clone(), V::Undef => V::Undef, _ => return Err(Stop::Unsupported("extract".into())) }; }
                done!(*dst, v);
            }
            Ins::Insert { a, v, idx, dst } => {
                fn ins(a: &V, v: V, idx: &[usize]) -> V {
                    if idx.is_empty() { return v; }
                    let mut x = match a { V::Agg(x) => (**x).clone(), _ => vec![V::Undef; idx[0] + 1] };
                    while x.len() <= idx[0] { x.push(V::Undef); }
                    x[idx[0]] = ins(&x[idx[0]], v, &idx[1..]);
                    V::Agg(Rc::new(x))
                }
                let (x, y) = (self.val(st, a)?, self.val(st, v)?);
                done!(*dst, ins(&x, y, idx));
            }
            Ins::Unreachable => return Ok(Step::Panic("unreachable".into())),
            Ins::Unknown(s) => return Err(Stop::Unsupported(s.clone())),
            Ins::Call { callee, args, dst, retty } => {
                let name = match callee { Opd::Global(n) => n.clone(), _ => return Err(Stop::Unsupported("indirect call".into())) };
                let mut av = vec![];
                for a in args { av.push(self.val(st, a)?); }
                return self.call(st, &name, av, *dst, retty);
            }
        }
    }

    fn call(&mut self, st: &mut State, name: &str, av: Vec<V>, dst: Option<usize>, retty: &Ty) -> ER<Step> {
        macro_rules! ret { ($v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); if let Some(d) = dst { fr.regs[d] = v; } fr.ip += 1; return Ok(Step::Next); }} }
        macro_rules! need { ($e:expr) => { match $e { Ok(x) => x, Err(r) => return r } } }
        let module = st.frames.last().unwrap().f.f.module;
        if let Some(n) = name.strip_prefix("llvm.") {
            let base = n.split('.').next().unwrap();
            if let (Some(V::Bad(m)), Ty::F64) = (av.iter().find(|v| matches!(v, V::Bad(_))), retty) { let m = m.clone(); ret!(V::Bad(m)) }
            if let Some(V::NB(t)) = av.iter().find(|v| matches!(v, V::NB(_))) {
                match base { "copysign" | "fabs" | "fma" => ret!(V::NB(t.clone())), _ => return Err(self.binade_stop(t)) }
            }
            if av.iter().any(|v| matches!(v, V::E(..))) {
                if let (V::E(t, off, false), Some(V::I(c, w))) = (&av[0], av.get(1)) {
                    let (c, w) = (sx(*c, *w), *w);
                    let off = *off;
                    let lim = |v: i64| v.abs() < 1 << (w - 2).min(40);
                    match base {
                        "sadd" if n.contains("sat") && lim(c) => ret!(V::E(t.clone(), off + c, false)),
                        "ssub" if n.contains("sat") && lim(c) => ret!(V::E(t.clone(), off - c, false)),
                        "sadd" if lim(c) => ret!(V::Agg(Rc::new(vec![V::E(t.clone(), off + c, false), V::I(0, 1)]))),
                        "ssub" if lim(c) => ret!(V::Agg(Rc::new(vec![V::E(t.clone(), off - c, false), V::I(0, 1)]))),
                        _ => {}
                    }
                }
                for v in &av { if let V::E(t, off, sh) = v {
                    let e = need!(self.need_binade(t)) + off;
                    let val = if *sh { (e as u64) << 52 } else { e as u64 };
                    let w = match retty { Ty::I(w) => *w, Ty::Struct(f, _) => match f[0] { Ty::I(w) => w, _ => 64 }, _ => 32 };
                    let fr = st.frames.last_mut().unwrap();
                    for r in fr.regs.iter_mut() { let hit = matches!(r, V::E(q, o, s) if Rc::ptr_eq(q, t) && o == off && s == sh); if hit { *r = V::I(val & mask(w), w); } }
                    return Ok(Step::Next);
                } }
            }
            match base {
                "assume" | "lifetime" | "dbg" | "experimental" | "donothing" | "prefetch" => ret!(V::Undef),
                "trap" => return Ok(Step::Panic("trap".into())),
                "fabs" => match &av[0] {
                    V::F(f) => ret!(V::F(f.abs())),
                    V::T(t) => {
                        if t.lo >= 0.0 { ret!(av[0].clone()); }
                        if t.hi <= 0.0 { ret!(V::T(Rc::new(t.neg()))); }
                        if self.noisy(t) { ret!(V::T(Rc::new(t.abs_hull(&self.k)))); }
                        self.has_abs = true;
                        ret!(V::Abs(t.clone()))
                    }
                    _ => return Err(Stop::NoMerge),
                },
                "copysign" => match (&av[0], &av[1]) {
                    (V::F(a), V::F(b)) => ret!(V::F(a.copysign(*b))),
                    (a, b) => {
                        let neg = match b { V::F(f) => f.is_sign_negative(), V::T(t) => need!(self.need_sign(t)), _ => return Err(Stop::NoMerge) };
                        match a {
                            V::F(f) => ret!(V::F(f.copysign(if neg { -1.0 } else { 1.0 }))),
                            V::T(t) => { let n = need!(self.need_sign(t)); ret!(if n != neg { V::T(Rc::new(t.neg())) } else { a.clone() }) }
                            _ => return Err(Stop::NoMerge),
                        }
                    }
                },
                "sqrt" | "exp" | "log" | "sin" | "cos" | "sinh" | "cosh" | "tan" | "exp2" | "log2" | "log10" | "tanh" => match self.math1(base, &av[0])? { Some(v) => ret!(v), None => return Err(Stop::Unsupported(name.into())) },
                "floor" => match &av[0] { V::F(f) => ret!(V::F(f.floor())), V::T(t) => { let v = need!(self.need_floor(t)); ret!(V::F(v)) } _ => return Err(Stop::NoMerge) },
                "trunc" => match &av[0] { V::F(f) => ret!(V::F(f.trunc())), V::T(t) => { let v = need!(self.need_trunc(t)); ret!(V::F(v)) } _ => return Err(Stop::NoMerge) },
                "ceil" => match &av[0] { V::F(f) => ret!(V::F(f.ceil())), V::T(t) => { let n = Rc::new(t.neg()); let _ = n; if t.lo.ceil() == t.hi.ceil() { ret!(V::F(t.lo.ceil())) } return Err(Stop::Bisect("ceil".into())); } _ => return Err(Stop::NoMerge) },
                "round" | "rint" | "nearbyint" | "roundeven" => match &av[0] {
                    V::F(f) => ret!(V::F(if base == "round" { f.round() } else { f.round_ties_even() })),
                    V::T(t) => { if t.lo.round() == t.hi.round() { ret!(V::F(t.lo.round())) } return self.round_fork(t); }
                    _ => return Err(Stop::NoMerge),
                },
                "fma" | "fmuladd" => {
                    if let (V::F(a), V::F(b), V::F(c)) = (&av[0], &av[1], &av[2]) { ret!(V::F(a.mul_add(*b, *c))); }
                    if base == "fmuladd" { return Err(Stop::Unsupported("fmuladd".into())); }
                    match (self.tm(&av[0]), self.tm(&av[1]), self.tm(&av[2])) {
                        (Some(a), Some(b), Some(c)) => { let v = self.mk(a.mul(&b, &self.k).add(&c, &self.k).round())?; ret!(v) }
                        _ => return Err(Stop::Bisect("fma".into())),
                    }
                }
                "pow" => {
                    if let (V::F(a), V::F(b)) = (&av[0], &av[1]) { ret!(V::F(a.powf(*b))); }
                    if let (V::F(a), _) = (&av[0], &av[1]) { if a.is_nan() || a.is_infinite() { return Err(Stop::Bisect("pow".into())); } }
                    match (self.tm(&av[0]), self.tm(&av[1])) {
                        (Some(a), Some(b)) => {
                            if a.lo <= 0.0 { ret!(V::Bad(Rc::new("pow domain".into()))) }
                            let mut l = match a.ln(&self.k) { Ok(l) => l, Err(e) => ret!(V::Bad(Rc::new(format!("{:?}", e)))) };
                            l.lat = i32::MIN;
                            let e = l.mul(&b, &self.k);
                            if e.hi < -745.14 { ret!(V::F(0.0)); }
                            if e.lo > 709.7828 { ret!(V::F(f64::INFINITY)); }
                            match e.exp(&self.k).map_err(Self::fail).and_then(|x| self.mk(x.blur_ulp(1.0))) { Ok(v) => ret!(v), Err(Stop::Bisect(m)) => ret!(V::Bad(Rc::new(m))), Err(e) => return Err(e) }
                        }
                        _ => return Err(Stop::Bisect("pow".into())),
                    }
                }
                "powi" => {
                    let n = match &av[1] { V::I(n, w) => sx(*n, *w) as i32, _ => return Err(Stop::NoMerge) };
                    match &av[0] {
                        V::F(f) => ret!(V::F(f.powi(n))),
                        V::T(t) => {
                            if n == 2 { let v = self.fbin("fmul", &av[0], &av[0])?; ret!(v) }
                            match t.powi(n, &self.k).map_err(Self::fail).and_then(|x| self.mk(x)) { Ok(v) => ret!(v), Err(Stop::Bisect(m)) => ret!(V::Bad(Rc::new(m))), Err(e) => return Err(e) }
                        }
                        _ => return Err(Stop::NoMerge),
                    }
                }
                "fptoui" | "fptosi" => {
                    let w = match retty { Ty::I(w) => *w, _ => return Err(Stop::Unsupported(name.into())) };
                    let conv = |f: f64| -> u64 {
                        let s = base == "fptosi";
                        match (w, s) { (64, false) => f as u64, (64, true) => f as i64 as u64, (32, false) => f as u32 as u64, (32, true) => f as i32 as u32 as u64, (16, false) => f as u16 as u64, (8, false) => f as u8 as u64, (16, true) => f as i16 as u16 as u64, (8, true) => f as i8 as u8 as u64, _ => 0 }
                    };
                    match &av[0] {
                        V::F(f) => ret!(V::I(conv(*f), w)),
                        V::T(t) => {
                            if base == "fptoui" && t.hi < 1.0 { ret!(V::I(0, w)); }
                            if base == "fptoui" && t.lo < 0.0 {
                                let d = t.sub(&Tm::cst(&self.k, 1.0), &self.k);
                                return self.fork_cmp(&av[0], &V::F(1.0), d, [-1, 1, 1], false);
                            }
                            if let (Some(d), true) = (dst, t.lo >= 0.0 && t.hi < 4e15 && t.lo.trunc() != t.hi.trunc()) {
                                if st.frames.last().unwrap().f.cmp_only[d] { ret!(V::Tr(t.clone())); }
                            }
                            let v = need!(self.need_trunc(t));
                            ret!(V::I(conv(v), w))
                        }
                        _ => return Err(Stop::NoMerge),
                    }
                }
                "maximumnum" | "minimumnum" | "maxnum" | "minnum" | "maximum" | "minimum" => {
                    let mx = base.starts_with("max");
                    if let Some(l) = st.forced.take() { ret!(av[l as usize].clone()); }
                    match (&av[0], &av[1]) {
                        (V::F(a), V::F(b)) => ret!(V::F(if mx { a.max(*b) } else { a.min(*b) })),
                        (V::F(a), x) | (x, V::F(a)) if a.is_nan() => ret!(x.clone()),
                        (V::Undef, _) | (_, V::Undef) => return Err(Stop::NoMerge),
                        (a, b) => match self.cmp(a, b)? {
                            Dec::Known(o) => { let g = o == std::cmp::Ordering::Greater; ret!(if g == mx { a.clone() } else { b.clone() }) }
                            Dec::Ambig(d) => return self.fork_cmp(a, b, d, if mx { [1, 1, 0] } else { [0, 0, 1] }, true),
                        },
                    }
                }
                "is" => { // is.fpclass
                    let m = match &av[1] { V::I(m, _) => *m, _ => return Err(Stop::NoMerge) };
                    match &av[0] {
                        V::F(f) => {
                            let c = if f.is_nan() { 1 } else if f.is_infinite() { if *f > 0.0 { 9 } else { 2 } } else if *f == 0.0 { if f.is_sign_negative() { 5 } else { 6 } } else if f.abs() < f64::MIN_POSITIVE { if *f < 0.0 { 4 } else { 7 } } else if *f < 0.0 { 3 } else { 8 };
                            let hit = m >> c & 1 == 1 || (c == 1 && m & 3 != 0);
                            ret!(V::I(hit as u64, 1))
                        }
                        V::T(t) => {
                            let fin = m & 0b0111111000;
                            if fin & 0b0111111000 == 0 { ret!(V::I(0, 1)); }
                            if fin & 0b0111111000 == 0b0111111000 { ret!(V::I(1, 1)); }
                            let n = need!(self.need_sign(t));
                            let sub = t.mig() < f64::MIN_POSITIVE;
                            let bits = if n { if sub { vec![3, 4, 5] } else { vec![3] } } else if sub { vec![6, 7, 8] } else { vec![8] };
                            let r: HashSet<bool> = bits.iter().map(|b| m >> b & 1 == 1).collect();
                            if r.len() == 1 { ret!(V::I(*r.iter().next().unwrap() as u64, 1)); }
                            return Err(Stop::Bisect("fpclass".into()));
                        }
                        _ => return Err(Stop::NoMerge),
                    }
                }
                "ctlz" | "cttz" | "ctpop" | "umax" | "umin" | "smax" | "smin" | "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" | "abs" | "scmp" | "ucmp" | "bswap" | "fshl" | "fshr" => {
                    let (x, w) = match &av[0] { V::I(x, w) => (*x, *w), V::Undef => return Err(Stop::NoMerge), _ => return Err(Stop::Unsupported(name.into())) };
                    let y = match av.get(1) { Some(V::I(y, _)) => *y, Some(V::Undef) => return Err(Stop::NoMerge), _ => 0 };
                    let m = mask(w);
                    let (a, b) = (sx(x, w) as i128, sx(y, w) as i128);
                    let (ua, ub) = (x as i128, y as i128);
                    let smin = -(1i128 << (w - 1));
                    let smax = (1i128 << (w - 1)) - 1;
                    let umax = m as i128;
                    if n.contains("with.overflow") {
                        let (r, lo, hi) = match base { "sadd" => (a + b, smin, smax), "ssub" => (a - b, smin, smax), "smul" => (a * b, smin, smax), "uadd" => (ua + ub, 0, umax), "usub" => (ua - ub, 0, umax), _ => (ua * ub, 0, umax) };
                        let ov = r < lo || r > hi;
                        ret!(V::Agg(Rc::new(vec![V::I(r as u64 & m, w), V::I(ov as u64, 1)])));
                    }
                    if n.contains(".sat") {
                        let (r, lo, hi) = match base { "sadd" => (a + b, smin, smax), "ssub" => (a - b, smin, smax), "uadd" => (ua + ub, 0, umax), _ => (ua - ub, 0, umax) };
                        ret!(V::I(r.clamp(lo, hi) as u64 & m, w));
                    }
                    let r = match base {
                        "ctlz" => (x.leading_zeros() - (64 - w)) as u64,
                        "cttz" => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 },
                        "ctpop" => x.count_ones() as u64,
                        "umax" => x.max(y), "umin" => x.min(y),
                        "smax" => a.max(b) as u64 & m, "smin" => a.min(b) as u64 & m,
                        "abs" => a.abs() as u64 & m,
                        "scmp" => (a.cmp(&b) as i8) as u8 as u64, "ucmp" => (ua.cmp(&ub) as i8) as u8 as u64,
                        _ => return Err(Stop::Unsupported(name.into())),
                    };
                    let rw = match retty { Ty::I(rw) => *rw, _ => w };
                    ret!(V::I(r & mask(rw), rw))
                }
                "memcpy" | "memmove" => {
                    let n = match &av[2] { V::I(n, _) => *n, _ => return Err(Stop::NoMerge) };
                    if n == 0 { ret!(V::Undef); }
                    let (di, doff, si, soff) = match (&av[0], &av[1]) { (V::P(a, b), V::P(c, d)) => (*a, *b as u64, *c, *d as u64), _ => return Err(Stop::Unsupported("memcpy".into())) };
                    let src: Alloc = if si >= GBASE { (*self.gmem.borrow()[si - GBASE]).clone() } else { (*st.mem[si]).clone() };
                    if di >= GBASE { return Err(Stop::Unsupported("memcpy to global".into())); }
                    let d = Rc::make_mut(&mut st.mem[di]);
                    if (soff + n) as usize > src.bytes.len() || (doff + n) as usize > d.bytes.len() { return Err(Stop::Unsupported("memcpy bounds".into())); }
                    let over: Vec<u64> = d.cells.range(doff.saturating_sub(32)..doff + n).filter(|(o, (s, _))| **o + *s > doff).map(|(o, _)| *o).collect();
                    for o in over {
                        let (s, v) = d.cells.remove(&o).unwrap();
                        if o < doff || o + s > doff + n {
                            let by = match v { V::I(x, _) => x.to_le_bytes(), V::F(f) => f.to_bits().to_le_bytes(), _ => return Err(Stop::Unsupported("memcpy partial".into())) };
                            for i in 0..s { d.bytes[(o + i) as usize] = by[i as usize]; }
                        }
                    }
                    d.bytes[doff as usize..(doff + n) as usize].copy_from_slice(&src.bytes[soff as usize..(soff + n) as usize]);
                    for (o, (s, v)) in src.cells.range(soff.saturating_sub(32)..soff + n) {
                        if o + s <= soff { continue; }
                        if *o >= soff && o + s <= soff + n { d.cells.insert(o - soff + doff, (*s, v.clone())); } else { return Err(Stop::Unsupported("memcpy split cell".into())); }
                    }
                    ret!(V::Undef)
                }
                "memset" => {
                    let n = match &av[2] { V::I(n, _) => *n, _ => return Err(Stop::NoMerge) };
                    let (di, off) = match &av[0] { V::P(a, b) => (*a, *b as u64), _ => return Err(Stop::Unsupported("memset".into())) };
                    let b = match &av[1] { V::I(b, _) => *b as u8, _ => return Err(Stop::NoMerge) };
                    let d = Rc::make_mut(&mut st.mem[di]);
                    let over: Vec<u64> = d.cells.range(off..off + n).map(|(o, _)| *o).collect();
                    for o in over { d.cells.remove(&o); }
                    for i in off..off + n { d.bytes[i as usize] = b; }
                    ret!(V::Undef)
                }
                _ => {
                    if base.starts_with("memcpy") { return Err(Stop::Unsupported(name.into())); }
                    return Err(Stop::Unsupported(name.into()));
                }
            }
        }
        match name {
            "sinh" | "cosh" | "exp" | "log" | "sin" | "cos" | "tan" | "tanh" | "expm1" | "log1p" | "cbrt" | "sqrt" | "fabs" => { if let Some(v) = self.math1(name, &av[0])? { ret!(v); } }
            "pow" => { return self.call(st, "llvm.pow.f64", av, dst, retty); }
            "hypot" => {
                if let (V::F(a), V::F(b)) = (&av[0], &av[1]) { ret!(V::F(a.hypot(*b))); }
                if let (Some(a), Some(b)) = (self.tm(&av[0]), self.tm(&av[1])) {
                    let s = a.mul(&a, &self.k).add(&b.mul(&b, &self.k), &self.k);
                    let v = self.mk(s.sqrt(&self.k).map_err(Self::fail)?.blur_ulp(1.0))?;
                    ret!(v);
                }
            }
            "tgamma" | "lgamma_r" | "erf" | "erfc" => {}
            _ => {}
        }
        if name.contains("__rust_no_alloc_shim") { ret!(V::Undef); }
        if name.contains("__rust_alloc") || name.contains("exchange_malloc") || name == "malloc" {
            let n = match &av[0] { V::I(n, _) => *n, _ => return Err(Stop::NoMerge) };
            if n > 1 << 24 { return Err(Stop::Unsupported("large allocation".into())); }
            st.mem.push(Rc::new(Alloc { bytes: vec![0; n as usize], cells: BTreeMap::new() }));
            let id = st.mem.len() - 1;
            ret!(V::P(id, 0));
        }
        if name.contains("__rust_dealloc") || name == "free" { ret!(V::Undef); }
        if let Some(m) = self.prog.find(name, module) {
            return Ok(Step::Call(name.to_string(), m, av, dst));
        }
        if name.contains("panic") || name.contains("expect_failed") || name.contains("unwrap_failed") || name.contains("handle_error") || name.contains("abort") || name.contains("slice_index_fail") || name.contains("_fail") {
            return Ok(Step::Panic(name.to_string()));
        }
        Err(Stop::Unsupported(format!("external call {}", name)))
    }
    fn round_fork(&self, t: &Rc<Tm>) -> ER<Step> {
        let (l, h) = (t.lo.round(), t.hi.round());
        if h - l > 6.0 { *self.hint.borrow_mut() = Some((**t).clone()); return Err(Stop::Bisect("many integers".into())); }
        let c = h - 0.5;
        let d = t.sub(&Tm::cst(&self.k, c), &self.k);
        self.fork_cmp(&V::T(t.clone()), &V::F(c), d, [-1, 1, 1], false)
    }
}

fn map_v(v: &V, t: &Rc<Tm>, new: &V) -> Option<V> {
    match v {
        V::T(x) if Rc::ptr_eq(x, t) => Some(new.clone()),
        V::B(x, m) if Rc::ptr_eq(x, t) => match new { V::T(n) => Some(V::B(n.clone(), *m)), V::F(f) if *m == 0 => Some(V::I(f.to_bits(), 64)), _ => None },
        V::E(x, o, f) if Rc::ptr_eq(x, t) => match new { V::T(n) => Some(V::E(n.clone(), *o, *f)), V::F(c) => { let e = ((c.to_bits() >> 52) & 2047) as i64 + o; Some(V::I(if *f { (e as u64) << 52 } else { e as u64 & 0xffff_ffff }, if *f { 64 } else { 32 })) } _ => None },
        V::Abs(x) if Rc::ptr_eq(x, t) => match new { V::T(n) => Some(V::Abs(n.clone())), V::F(f) => Some(V::F(f.abs())), _ => None },
        V::NB(x) if Rc::ptr_eq(x, t) => match new { V::T(n) => Some(V::NB(n.clone())), _ => None },
        V::Tr(x) if Rc::ptr_eq(x, t) => match new { V::T(n) => Some(V::Tr(n.clone())), V::F(f) => Some(V::I(f.max(0.0) as u64, 64)), _ => None },
        V::Agg(a) => {
            if a.iter().any(|x| map_v(x, t, new).is_some()) { Some(V::Agg(Rc::new(a.iter().map(|x| map_v(x, t, new).unwrap_or_else(|| x.clone())).collect()))) } else { None }
        }
        _ => None,
    }
}
fn replace(s: &mut State, t: &Rc<Tm>, new: &V) {
    for fr in s.frames.iter_mut() { for r in fr.regs.iter_mut() { if let Some(v) = map_v(r, t, new) { *r = v; } } }
    for a in s.mem.iter_mut() {
        if a.cells.values().any(|(_, v)| map_v(v, t, new).is_some()) {
            let m = Rc::make_mut(a);
            for (_, v) in m.cells.values_mut() { if let Some(n) = map_v(v, t, new) { *v = n; } }
        }
    }
}
fn clip(s: &mut State, t: &Rc<Tm>, lo: f64, hi: f64) {
    let mut n = (**t).clone();
    n.meet(lo, hi);
    replace(s, t, &V::T(Rc::new(n)));
}
