mod exec;
mod ir;
mod smt;
mod tm;
use exec::*;
use smt::{Res, Smt};
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;
use tm::*;

#[derive(Clone, Debug)]
enum Arg { Var(usize), F(f64), I(u64) }
#[derive(Clone, Debug)]
struct RefPoly { vars: Vec<usize>, deg: usize, c: Vec<(f64, f64)>, err: f64, coef: Vec<f64> }
#[derive(Clone, Debug)]
enum Tok { O(usize), V(usize), R(usize), C(f64), Op(String) }
#[derive(Clone, Debug)]
enum As { Le0(String, Vec<Tok>), Abs(String, Vec<Tok>, Vec<Tok>), Is(usize, f64), Panic }
#[derive(Clone, Debug)]
struct Job {
    id: String, entry: String, nout: usize, deg: usize, args: Vec<Arg>, vars: Vec<(f64, f64)>, refs: Vec<RefPoly>, asserts: Vec<As>,
    noise: u32, maxjob: u64, maxstuck: u32, maxdepth: u32, mergetol: f64, maxsteps: u64, promote: Vec<(String, usize)>,
}

fn hexf(s: &str) -> f64 { f64::from_bits(u64::from_str_radix(s, 16).unwrap_or_else(|_| panic!("hex {}", s))) }

fn rpn(s: &[&str]) -> Vec<Tok> {
    s.iter().map(|t| {
        let (h, r) = t.split_at(1);
        if !r.is_empty() {
            if h == "o" { if let Ok(i) = r.parse() { return Tok::O(i); } }
            if h == "v" { if let Ok(i) = r.parse() { return Tok::V(i); } }
            if h == "r" { if let Ok(i) = r.parse() { return Tok::R(i); } }
            if h == "=" { return Tok::C(hexf(r)); }
            if h == "#" { return Tok::C(r.parse().expect("const")); }
        }
        Tok::Op(t.to_string())
    }).collect()
}

fn parse_jobs(text: &str) -> Vec<Job> {
    let mut jobs: Vec<Job> = vec![];
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') { continue; }
        if w[0] == "job" {
            jobs.push(Job { id: w[1].into(), entry: String::new(), nout: 1, deg: 8, args: vec![], vars: vec![], refs: vec![], asserts: vec![], noise: 3, maxjob: 40000, maxstuck: 6, maxdepth: 40, mergetol: 1e-13, maxsteps: 3_000_000, promote: vec![] });
            continue;
        }
        let j = jobs.last_mut().unwrap();
        match w[0] {
            "entry" => { j.entry = w[1].into(); j.nout = w[2].parse().unwrap(); }
            "deg" => j.deg = w[1].parse().unwrap(),
            "noise" => j.noise = w[1].parse().unwrap(),
            "maxjob" => j.maxjob = w[1].parse().unwrap(),
            "maxstuck" => j.maxstuck = w[1].parse().unwrap(),
            "maxdepth" => j.maxdepth = w[1].parse().unwrap(),
            "maxsteps" => j.maxsteps = w[1].parse().unwrap(),
            "mergetol" => j.mergetol = w[1].parse().unwrap(),
            "promote" => j.promote.push((w[1].into(), w[2].parse().unwrap())),
            "arg" => for a in &w[1..] {
                let (h, r) = a.split_at(1);
                j.args.push(match h { "v" => Arg::Var(r.parse().unwrap()), "=" => Arg::F(hexf(r)), "i" => Arg::I(r.parse::<i64>().unwrap() as u64), _ => panic!("arg") });
            },
            "box" => for p in w[1..].chunks(2) { j.vars.push((hexf(p[0]), hexf(p[1]))); },
            "ref" => {
                // ref <nvars> <var idx>* <deg> (<center> <half>)* <err> coef*
                let nv: usize = w[1].parse().unwrap();
                let vars: Vec<usize> = (0..nv).map(|i| w[2 + i].parse().unwrap()).collect();
                let deg = w[2 + nv].parse().unwrap();
                let mut p = 3 + nv;
                let mut c = vec![];
                for _ in 0..nv { c.push((hexf(w[p]), hexf(w[p + 1]))); p += 2; }
                let err = hexf(w[p]);
                let coef = w[p + 1..].iter().map(|s| hexf(s)).collect();
                j.refs.push(RefPoly { vars, deg, c, err, coef });
            }
            "le0" => j.asserts.push(As::Le0(w[1].into(), rpn(&w[2..]))),
            "abs" => { let b = w.iter().position(|x| *x == "|").unwrap(); j.asserts.push(As::Abs(w[1].into(), rpn(&w[2..b]), rpn(&w[b + 1..]))) }
            "is" => j.asserts.push(As::Is(w[1].parse().unwrap(), hexf(w[2]))),
            "panic" => j.asserts.push(As::Panic),
            x => panic!("job line {}", x),
        }
    }
    jobs
}

fn eval_ref(r: &RefPoly, ex: &Exec, vars: &[V]) -> Option<Tm> {
    let k = &ex.k;
    let nv = r.vars.len();
    let mut s = vec![];
    for (i, v) in r.vars.iter().enumerate() {
        let t = ex.tm(&vars[*v])?;
        let mut d = t.sub(&Tm::cst(k, r.c[i].0), k);
        d.lat = i32::MIN;
        let mut d = d.div(&Tm::cst(k, r.c[i].1), k).ok()?;
        d.lat = i32::MIN;
        s.push(d);
    }
    let kk = Ctx::new(nv, r.deg);
    if kk.n != r.coef.len() { panic!("ref size {} {}", kk.n, r.coef.len()); }
    let mut out;
    if nv == 1 {
        out = Tm::cst(k, r.coef[r.deg]);
        for j in (0..r.deg).rev() { out = out.mul(&s[0], k).add(&Tm::cst(k, r.coef[j]), k); out.lat = i32::MIN; }
    } else {
        let mut pw: Vec<Vec<Tm>> = vec![];
        for x in &s {
            let mut p = vec![Tm::cst(k, 1.0)];
            for j in 1..=r.deg { let mut y = p[j - 1].mul(x, k); y.lat = i32::MIN; p.push(y); }
            pw.push(p);
        }
        out = Tm::cst(k, 0.0);
        if nv == 2 {
            // sum_i s0^i * (sum_j c_ij s1^j)
            for i in 0..=r.deg {
                let mut inner = Tm::cst(k, 0.0);
                for (m, e) in kk.exps.iter().enumerate() {
                    if e[0] as usize == i && r.coef[m] != 0.0 { inner = inner.add(&pw[1][e[1] as usize].mul(&Tm::cst(k, r.coef[m]), k), k); inner.lat = i32::MIN; }
                }
                out = out.add(&pw[0][i].mul(&inner, k), k);
                out.lat = i32::MIN;
            }
        } else {
            for (m, e) in kk.exps.iter().enumerate() {
                if r.coef[m] == 0.0 { continue; }
                let mut t = Tm::cst(k, r.coef[m]);
                for v in 0..nv { if e[v] > 0 { t = t.mul(&pw[v][e[v] as usize], k); t.lat = i32::MIN; } }
                out = out.add(&t, k);
                out.lat = i32::MIN;
            }
        }
    }
    Some(out.inflate(r.err))
}

/// None: an output is not finite
fn eval_rpn(e: &[Tok], ex: &Exec, outs: &[V], vars: &[V], refs: &[Tm]) -> Result<Option<Tm>, String> {
    let k = &ex.k;
    let mut st: Vec<Tm> = vec![];
    for t in e {
        let mut r = match t {
            Tok::O(i) => match &outs[*i] { V::F(f) if !f.is_finite() => return Ok(None), v => ex.tm(v).ok_or_else(|| format!("output {:?}", v))? },
            Tok::V(i) => match &vars[*i] { V::F(f) if !f.is_finite() => return Ok(None), v => ex.tm(v).ok_or("var")? },
            Tok::R(i) => refs[*i].clone(),
            Tok::C(f) => Tm::cst(k, *f),
            Tok::Op(o) => match o.as_str() {
                "+" | "-" | "*" | "/" => {
                    let b = st.pop().ok_or("stack")?;
                    let a = st.pop().ok_or("stack")?;
                    match o.as_str() { "+" => a.add(&b, k), "-" => a.sub(&b, k), "*" => a.mul(&b, k), _ => a.div(&b, k).map_err(|f| format!("{:?}", f))? }
                }
                "neg" => st.pop().ok_or("stack")?.neg(),
                "dup" => { let a = st.last().ok_or("stack")?.clone(); a }
                "exp" => st.pop().ok_or("stack")?.exp(k).map_err(|f| format!("{:?}", f))?,
                "ln" => st.pop().ok_or("stack")?.ln(k).map_err(|f| format!("{:?}", f))?,
                "sqrt" => st.pop().ok_or("stack")?.sqrt(k).map_err(|f| format!("{:?}", f))?,
                "sin" => st.pop().ok_or("stack")?.sincos(k).map_err(|f| format!("{:?}", f))?.0,
                "cos" => st.pop().ok_or("stack")?.sincos(k).map_err(|f| format!("{:?}", f))?.1,
                "abs" => { let a = st.pop().ok_or("stack")?; if a.lo >= 0.0 { a } else if a.hi <= 0.0 { a.neg() } else { a.abs_hull(k) } }
                // |a| bounded from below, for tolerances: 0 when the sign is not known
                "mig" => { let a = st.pop().ok_or("stack")?; if a.lo >= 0.0 { a } else if a.hi <= 0.0 { a.neg() } else { Tm::cst(k, 0.0) } }
                x => return Err(format!("op {}", x)),
            },
        };
        r.lat = i32::MIN;
        if !r.finite() { return Err("overflow in assertion".into()); }
        st.push(r);
    }
    if st.len() != 1 { return Err("rpn".into()); }
    Ok(st.pop())
}

struct Verdict { goals: Vec<(String, Tm)>, bad: Option<String> }

fn judge(job: &Job, ex: &Exec, outs: &[V], vars: &[V]) -> Result<Verdict, String> {
    let mut refs = vec![];
    for r in &job.refs { refs.push(eval_ref(r, ex, vars).ok_or("ref")?); }
    let mut goals = vec![];
    for a in &job.asserts {
        match a {
            As::Panic => return Ok(Verdict { goals, bad: Some("returned where a panic is documented".into()) }),
            As::Is(i, f) => match &outs[*i] {
                V::F(g) => if !(g.to_bits() == f.to_bits() || (g.is_nan() && f.is_nan()) || (*f == 0.0 && *g == 0.0 && f.is_sign_positive())) { return Ok(Verdict { goals, bad: Some(format!("output {} is {:e}, expected {:e}", i, g, f)) }); },
                v => {
                    if !f.is_finite() { return Ok(Verdict { goals, bad: Some(format!("output {} is finite, expected {:e}", i, f)) }); }
                    let t = ex.tm(v).ok_or("out")?;
                    let d = t.sub(&Tm::cst(&ex.k, *f), &ex.k);
                    if d.lo == 0.0 && d.hi == 0.0 { continue; }
                    goals.push((format!("is{}", i), d.clone()));
                    goals.push((format!("is{}", i), d.neg()));
                }
            },
            As::Le0(n, e) => match eval_rpn(e, ex, outs, vars, &refs)? {
                None => return Ok(Verdict { goals, bad: Some(format!("{}: output not finite", n)) }),
                Some(t) => goals.push((n.clone(), t)),
            },
            As::Abs(n, e, b) => match (eval_rpn(e, ex, outs, vars, &refs)?, eval_rpn(b, ex, outs, vars, &refs)?) {
                (Some(t), Some(b)) => { goals.push((n.clone(), t.sub(&b, &ex.k))); goals.push((n.clone(), t.neg().sub(&b, &ex.k))); }
                _ => return Ok(Verdict { goals, bad: Some(format!("{}: output not finite", n)) }),
            },
        }
    }
    Ok(Verdict { goals, bad: None })
}

#[derive(Default)]
struct Stats { boxes: u64, leaves: u64, paths: u64, forks: u64, merges: u64, dropped: u64, instr: u64, splits: u64, points: u64, valid: u64, maxdepth: u32, queries: u64, sat: u64, unsat: u64, unknown: u64, smt_s: f64, nra: u64 }
struct Viol { job: String, what: String, args: Vec<u64>, outs: Vec<String> }
struct Shared {
    q: Mutex<(Vec<(usize, Vec<(f64, f64)>, u32, bool)>, usize, bool)>, // stack, busy, stop
    cv: Condvar,
    viol: Mutex<Vec<Viol>>,
    inc: Mutex<Vec<String>>,
    reason: Mutex<std::collections::BTreeMap<String, u64>>,
    jobbad: Mutex<BTreeSet<usize>>,
    jobboxes: Vec<std::sync::atomic::AtomicU64>,
    incjob: Mutex<std::collections::BTreeMap<usize, u32>>,
    samples: Mutex<Vec<String>>,
    used: Mutex<BTreeSet<String>>,
    stats: Mutex<Stats>,
    deadline: Instant,
}

fn mkargs(job: &Job, ex: &Exec) -> (Vec<V>, Vec<V>) {
    let vars: Vec<V> = (0..job.vars.len()).map(|i| ex.var_v(i)).collect();
    let args = job.args.iter().map(|a| match a { Arg::Var(i) => vars[*i].clone(), Arg::F(f) => V::F(*f), Arg::I(i) => V::I(*i, 64) }).collect();
    (args, vars)
}

enum Conc { Ok, Bad(String), Unsure(String) }

/// run the encoded program on one concrete input
fn concrete(job: &Job, ex: &mut Exec, x: &[f64], outs_out: &mut Vec<V>) -> Conc {
    let pt: Vec<(f64, f64)> = x.iter().map(|v| (*v, *v)).collect();
    ex.reset_box(0, pt);
    ex.max_steps = job.maxsteps * 10;
    let (args, vars) = mkargs(job, ex);
    let st = match ex.start(&job.entry, args, job.nout) { Ok(s) => s, Err(e) => return Conc::Unsure(format!("{:?}", e)) };
    let expect_panic = job.asserts.iter().any(|a| matches!(a, As::Panic));
    match ex.run(st, 1, None) {
        Ok(v) if v.len() == 1 => match v.into_iter().next().unwrap() {
            Outcome::Done(s) => {
                let outs = ex.outputs(&s, job.nout);
                *outs_out = outs.clone();
                match judge(job, ex, &outs, &vars) {
                    Err(e) => Conc::Unsure(e),
                    Ok(v) => {
                        if let Some(b) = v.bad { return Conc::Bad(b); }
                        for (n, t) in &v.goals { if t.lo > 0.0 { return Conc::Bad(n.clone()); } }
                        for (n, t) in &v.goals { if t.hi > 0.0 { return Conc::Unsure(format!("margin {}", n)); } }
                        Conc::Ok
                    }
                }
            }
            Outcome::Panic(_, m) => if expect_panic { Conc::Ok } else { Conc::Bad(format!("panic {}", m)) },
            _ => Conc::Unsure("outcome".into()),
        },
        Ok(_) => Conc::Unsure("forked on a concrete input".into()),
        Err(Stop::Bisect(m)) if m == "step budget" => Conc::Bad("does not terminate within the step budget".into()),
        Err(e) => Conc::Unsure(format!("{:?}", e)),
    }
}

enum BoxRes { Proved, Violation, Split(usize, Vec<f64>), Bisect(String, Option<usize>), Stuck(String) }

fn report(sh: &Shared, job: &Job, ji: usize, x: &[f64], what: &str, outs: &[V]) {
    let args = job.args.iter().map(|a| match a { Arg::Var(i) => x[*i].to_bits(), Arg::F(f) => f.to_bits(), Arg::I(i) => *i }).collect();
    sh.jobbad.lock().unwrap().insert(ji);
    sh.viol.lock().unwrap().push(Viol { job: job.id.clone(), what: what.into(), args, outs: outs.iter().map(|v| match v { V::F(f) => format!("{:016x}", f.to_bits()), _ => "?".into() }).collect() });
}

fn do_box(job: &Job, ji: usize, bx: &[(f64, f64)], ex: &mut Exec, smt: &mut Smt, sh: &Shared, root: bool, depth: u32, s: &mut Stats) -> BoxRes {
    let mid: Vec<f64> = bx.iter().map(|b| if b.0 == b.1 { b.0 } else { 0.5 * b.0 + 0.5 * b.1 }).collect();
    let point = bx.iter().all(|b| b.0 == b.1);
    s.boxes += 1;
    // concrete run of the encoding at the centre
    let mut mouts = vec![];
    let c = concrete(job, ex, &mid, &mut mouts);
    s.instr += ex.steps;
    if let Conc::Bad(b) = &c { report(sh, job, ji, &mid, b, &mouts); return BoxRes::Violation; }
    if root { let mut sm = sh.samples.lock().unwrap(); if sm.len() < 20000 { sm.push(sample(job, &mid, &mouts)); } }
    if point {
        s.points += 1;
        return match c { Conc::Ok => BoxRes::Proved, Conc::Unsure(m) => BoxRes::Stuck(format!("point: {}", m)), _ => unreachable!() };
    }
    ex.noise_k = job.noise;
    ex.merge_tol = job.mergetol;
    ex.max_steps = job.maxsteps;
    ex.promote = job.promote.clone();
    let mut merge = true;
    let outcomes = loop {
        ex.reset_box(job.deg, bx.to_vec());
        ex.allow_merge = merge;
        let (args, _) = mkargs(job, ex);
        let st = match ex.start(&job.entry, args, job.nout) { Ok(s) => s, Err(e) => return BoxRes::Stuck(format!("{:?}", e)) };
        let r = ex.run(st, 1, None);
        s.instr += ex.steps;
        match r {
            Ok(v) => break v,
            Err(Stop::NoMerge) if merge => { merge = false; }
            Err(Stop::NoMerge) => return BoxRes::Bisect("undef value".into(), None),
            Err(Stop::Split(i, p)) => return BoxRes::Split(i, p),
            Err(Stop::Bisect(m)) => {
                let pref = ex.hint.borrow().as_ref().and_then(|t| worst_var(&Ctx::new(ex.k.nv, ex.k.deg), &[(String::new(), t.clone())], bx));
                return BoxRes::Bisect(m, pref);
            }
            Err(Stop::Unsupported(m)) => return BoxRes::Bisect(format!("unsupported: {}", m), None),
        }
    };
    let (_, vars) = mkargs(job, ex);
    let expect_panic = job.asserts.iter().any(|a| matches!(a, As::Panic));
    let to_x = |ex: &Exec, t: &[f64]| -> Vec<f64> {
        let mut j = 0;
        bx.iter().enumerate().map(|(i, b)| if b.0 == b.1 { b.0 } else { let (c, r) = ex.cr(i); let v = (c + r * t[j]).clamp(b.0, b.1); j += 1; v }).collect()
    };
    let mut contained = false;
    let nfin = outcomes.len();
    for o in outcomes {
        s.paths += 1;
        let (st, verdict) = match o {
            Outcome::Done(st) => {
                let outs = ex.outputs(&st, job.nout);
                if !contained { contained = encloses(ex, &st, &outs, &mouts); }
                let v = match judge(job, ex, &outs, &vars) { Ok(v) => v, Err(m) => return BoxRes::Bisect(m, None) };
                (st, v)
            }
            Outcome::Panic(st, m) => { if expect_panic { continue; } (st, Verdict { goals: vec![], bad: Some(format!("panic {}", m)) }) }
            Outcome::Reached(_) => return BoxRes::Stuck("internal".into()),
        };
        let cons: Vec<&Con> = st.cons.iter().map(|c| &**c).collect();
        let goals: Vec<&Tm> = if verdict.bad.is_some() { vec![] } else { verdict.goals.iter().map(|g| &g.1).collect() };
        if goals.is_empty() && verdict.bad.is_none() { continue; }
        // the centre of the box (with a suitable error value) is already a model: split without asking
        if verdict.bad.is_none() && depth > 0 && depth + 2 < job.maxdepth && goals.iter().any(|g| g.c[0] + g.rem > 0.0) && cons.iter().all(|c| match c.rel { Rel::Lt | Rel::Le => c.tm.c[0] - c.tm.rem < 0.0, Rel::Eq => c.tm.c[0].abs() < c.tm.rem }) {
            let g = verdict.goals.iter().max_by(|a, b| (a.1.hi).partial_cmp(&b.1.hi).unwrap()).unwrap();
            let k = Ctx::new(ex.k.nv, ex.k.deg);
            return BoxRes::Bisect(format!("goal {} not discharged", g.0), worst_var(&k, &verdict.goals, bx));
        }
        let mut r = smt.check(&ex.k, &cons, &goals, false);
        if let (Res::Sat(_), true) = (&r, depth + 1 >= job.maxdepth) { s.nra += 1; r = smt.check(&ex.k, &cons, &goals, true); }
        match r {
            Res::Unsat => continue,
            Res::Unknown => return BoxRes::Bisect("solver unknown".into(), None),
            Res::Sat(t) => {
                // replay the model and the corners of the box
                let k = Ctx::new(ex.k.nv, ex.k.deg);
                let x = to_x(ex, &t);
                let mut cand = vec![x.clone()];
                let mut e1 = x.clone();
                for (i, b) in bx.iter().enumerate() { e1[i] = if x[i] > mid[i] { b.1 } else { b.0 }; }
                cand.push(e1);
                // which variable is responsible for the width of the goal
                let bv = worst_var(&k, &verdict.goals, bx);
                for c in cand {
                    let mut outs = vec![];
                    if let Conc::Bad(b) = concrete(job, ex, &c, &mut outs) { report(sh, job, ji, &c, &b, &outs); return BoxRes::Violation; }
                }
                let why = verdict.bad.unwrap_or_else(|| { let g = verdict.goals.iter().max_by(|a, b| (a.1.hi).partial_cmp(&b.1.hi).unwrap()).unwrap(); format!("goal {} not discharged", g.0) });
                return BoxRes::Bisect(why, bv);
            }
        }
    }
    if !contained && !mouts.is_empty() && nfin > 0 {
        return BoxRes::Stuck("ENCODING: concrete run at the centre is outside the symbolic enclosure".into());
    }
    s.valid += 1;
    BoxRes::Proved
}

fn worst_var(k: &Ctx, goals: &[(String, Tm)], bx: &[(f64, f64)]) -> Option<usize> {
    let act: Vec<usize> = (0..bx.len()).filter(|i| bx[*i].0 != bx[*i].1).collect();
    if act.len() < 2 || goals.is_empty() { return None; }
    let g = goals.iter().max_by(|a, b| a.1.hi.partial_cmp(&b.1.hi).unwrap())?;
    let mut w = vec![0.0f64; act.len()];
    for (i, e) in k.exps.iter().enumerate().skip(1) { for v in 0..act.len() { if e[v] > 0 { w[v] += g.1.c[i].abs() * e[v] as f64 / k.grade[i] as f64; } } }
    let tot: f64 = w.iter().sum();
    if !(tot > 4.0 * g.1.rem) { return None; }
    let m = (0..w.len()).max_by(|a, b| w[*a].partial_cmp(&w[*b]).unwrap())?;
    Some(act[m])
}

/// does the symbolic result of this path contain the concrete result at t = 0 (when the path is taken there)?
fn encloses(ex: &Exec, st: &State, outs: &[V], m: &[V]) -> bool {
    if m.is_empty() { return true; }
    let _ = st;
    for (o, c) in outs.iter().zip(m) {
        let f = match c { V::F(f) => *f, V::T(t) if t.is_const() => t.c[0], _ => return true };
        match o {
            V::F(g) => if !(g.to_bits() == f.to_bits() || *g == f || (g.is_nan() && f.is_nan())) { return false; },
            V::T(t) => { if !((f - t.c[0]).abs() <= (t.rem + ex.epart(t)) * (1.0 + 1e-9) + t.c[0].abs() * 4e-16 + 1e-320) { return false; } }
            _ => return true,
        }
    }
    let _ = ex;
    true
}

fn sample(job: &Job, x: &[f64], outs: &[V]) -> String {
    let a: Vec<String> = job.args.iter().map(|a| match a { Arg::Var(i) => format!("{:016x}", x[*i].to_bits()), Arg::F(f) => format!("{:016x}", f.to_bits()), Arg::I(i) => format!("{:016x}", i) }).collect();
    let o: Vec<String> = outs.iter().map(|v| match v { V::F(f) => format!("{:016x}", f.to_bits()), V::T(t) if t.is_const() => format!("{:016x}", t.c[0].to_bits()), _ => "?".into() }).collect();
    format!("{} {} -> {}", job.entry, a.join(" "), if outs.is_empty() { "PANIC".into() } else { o.join(" ") })
}

fn bisect(bx: &[(f64, f64)], pref: Option<usize>) -> Option<(usize, f64)> {
    let width = |b: &(f64, f64)| -> f64 {
        if b.0 == b.1 { return 0.0; }
        if b.0 > 0.0 { (b.1 / b.0).ln() } else if b.1 < 0.0 { (b.0 / b.1).ln() } else { 3.0 + (b.1 - b.0).ln().max(0.0) }
    };
    let i = match pref { Some(i) => i, None => (0..bx.len()).max_by(|a, b| width(&bx[*a]).partial_cmp(&width(&bx[*b])).unwrap())? };
    let (lo, hi) = bx[i];
    if ord(hi) - ord(lo) < 2 { return None; }
    let m = if lo > 0.0 && hi / lo > 4.0 { lo.sqrt() * hi.sqrt() } else if hi < 0.0 && lo / hi > 4.0 { -(lo.abs().sqrt() * hi.abs().sqrt()) } else { 0.5 * lo + 0.5 * hi };
    if !(m > lo && m < hi) { return None; }
    Some((i, m))
}

fn worker(prog: Arc<ir::Program>, jobs: Arc<Vec<Job>>, sh: Arc<Shared>, solver: String, maxboxes: u64) {
    let mut smt = Smt::new(&solver);
    let mut ex = Exec::new(&prog, 0, vec![]);
    let mut s = Stats::default();
    loop {
        let item = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if g.2 { break None; }
                if let Some(x) = g.0.pop() { g.1 += 1; break Some(x); }
                if g.1 == 0 { g.2 = true; sh.cv.notify_all(); break None; }
                g = sh.cv.wait(g).unwrap();
            }
        };
        let (ji, bx, depth, root) = match item { Some(x) => x, None => break };
        let job = &jobs[ji];
        let mut push: Vec<(usize, Vec<(f64, f64)>, u32, bool)> = vec![];
        if !sh.jobbad.lock().unwrap().contains(&ji) {
            s.maxdepth = s.maxdepth.max(depth);
            if sh.jobboxes[ji].fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1 == job.maxjob {
                let mut c = sh.incjob.lock().unwrap();
                *c.entry(ji).or_insert(0) += job.maxstuck;
                sh.jobbad.lock().unwrap().insert(ji);
                sh.inc.lock().unwrap().push(format!("{} - box budget", job.id));
            }
            let r = do_box(job, ji, &bx, &mut ex, &mut smt, &sh, root, depth, &mut s);
            let show = |bx: &Vec<(f64, f64)>| bx.iter().map(|b| format!("[{:e},{:e}]", b.0, b.1)).collect::<Vec<_>>().join("x");
            match r {
                BoxRes::Proved => { s.leaves += 1; }
                BoxRes::Violation => {}
                BoxRes::Stuck(m) => { stuck(&sh, job, ji, format!("{} {} {}", job.id, show(&bx), m)); }
                BoxRes::Split(i, pts) => {
                    s.splits += 1;
                    if depth >= job.maxdepth + 6 { stuck(&sh, job, ji, format!("{} {} split depth", job.id, show(&bx))); } else {
                        let (lo, hi) = bx[i];
                        let mut add = |l: f64, h: f64, dd: u32| if l <= h { let mut b = bx.clone(); b[i] = (l, h); push.push((ji, b, depth + dd, false)); };
                        add(lo, next_down(pts[0]), 1);
                        for p in &pts { add(*p, *p, 0); }
                        add(next_up(*pts.last().unwrap()), hi, 1);
                    }
                }
                BoxRes::Bisect(m, pref) => {
                    *sh.reason.lock().unwrap().entry(m.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").to_string()).or_insert(0) += 1;
                    let b = if depth >= job.maxdepth { None } else { bisect(&bx, pref).or_else(|| bisect(&bx, None)) };
                    match b {
                        Some((i, mpt)) => {
                            let (lo, hi) = bx[i];
                            let mut b1 = bx.clone(); b1[i] = (lo, mpt);
                            let mut b2 = bx.clone(); b2[i] = (next_up(mpt), hi);
                            push.push((ji, b1, depth + 1, false));
                            push.push((ji, b2, depth + 1, false));
                        }
                        None => {
                            // a handful of doubles left: run them one by one
                            let small = bx.iter().filter(|b| b.0 != b.1).count() == 1 && bx.iter().all(|b| ord(b.1) - ord(b.0) <= 16);
                            if small {
                                let i = bx.iter().position(|b| b.0 != b.1).unwrap();
                                for z in ord(bx[i].0)..=ord(bx[i].1) { let mut b = bx.clone(); b[i] = (unord(z), unord(z)); push.push((ji, b, depth, false)); }
                            } else { stuck(&sh, job, ji, format!("{} {} {}", job.id, show(&bx), m)); }
                        }
                    }
                }
            }
        }
        let mut g = sh.q.lock().unwrap();
        g.1 -= 1;
        // left part on top of the stack
        push.reverse();
        g.0.extend(push);
        if sh.viol.lock().unwrap().len() >= 8 || Instant::now() > sh.deadline || s.boxes > maxboxes { g.2 = true; }
        sh.cv.notify_all();
    }
    s.forks = ex.forks;
    s.merges = ex.merges;
    s.dropped = ex.dropped;
    let mut t = sh.stats.lock().unwrap();
    t.boxes += s.boxes; t.leaves += s.leaves; t.paths += s.paths; t.forks += s.forks; t.merges += s.merges; t.dropped += s.dropped; t.instr += s.instr; t.splits += s.splits; t.points += s.points; t.valid += s.valid;
    t.maxdepth = t.maxdepth.max(s.maxdepth); t.queries += smt.queries; t.sat += smt.sat; t.unsat += smt.unsat; t.unknown += smt.unknown; t.smt_s += smt.secs; t.nra += s.nra;
    sh.used.lock().unwrap().extend(ex.used.iter().cloned());
}

/// an undecided box; a job with many of them is given up (and reported as not decided)
fn stuck(sh: &Shared, job: &Job, ji: usize, m: String) {
    let mut i = sh.inc.lock().unwrap();
    if i.len() < 5000 { i.push(m); }
    let mut c = sh.incjob.lock().unwrap();
    let e = c.entry(ji).or_insert(0);
    *e += 1;
    if *e >= job.maxstuck { sh.jobbad.lock().unwrap().insert(ji); }
}

fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c => o.push(c) } } o.push('"'); o }
fn jarr(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")) }

fn main() {
    let mut a = std::env::args().skip(1);
    let mut ir = vec![];
    let (mut jobf, mut out, mut threads, mut secs, mut solver, mut maxboxes) = (String::new(), String::new(), 8usize, 600.0f64, String::from("z3"), 50_000_000u64);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--jobs" => jobf = a.next().unwrap(),
            "--out" => out = a.next().unwrap(),
            "--threads" => threads = a.next().unwrap().parse().unwrap(),
            "--secs" => secs = a.next().unwrap().parse().unwrap(),
            "--solver" => solver = a.next().unwrap(),
            "--maxboxes" => maxboxes = a.next().unwrap().parse().unwrap(),
            p => ir.push(p.to_string()),
        }
    }
    let t0 = Instant::now();
    let prog = Arc::new(ir::Program::load(&ir));
    let jobs = Arc::new(parse_jobs(&std::fs::read_to_string(&jobf).expect("jobs")));
    let mut stack: Vec<_> = jobs.iter().enumerate().map(|(i, j)| (i, j.vars.clone(), 0u32, true)).collect();
    // spread the order, so that a run that is cut short has looked everywhere
    stack.sort_by_key(|x| std::cmp::Reverse((x.0 as u64).wrapping_mul(0x9E3779B97F4A7C15)));
    let nroot = stack.len();
    let sh = Arc::new(Shared { q: Mutex::new((stack, 0, false)), cv: Condvar::new(), viol: Mutex::new(vec![]), inc: Mutex::new(vec![]), reason: Mutex::new(Default::default()), jobbad: Mutex::new(BTreeSet::new()), incjob: Mutex::new(Default::default()), jobboxes: jobs.iter().map(|_| Default::default()).collect(), samples: Mutex::new(vec![]), used: Mutex::new(BTreeSet::new()), stats: Mutex::new(Stats::default()), deadline: t0 + std::time::Duration::from_secs_f64(secs) });
    let hs: Vec<_> = (0..threads).map(|_| {
        let (p, j, s, so) = (prog.clone(), jobs.clone(), sh.clone(), solver.clone());
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(p, j, s, so, maxboxes)).unwrap()
    }).collect();
    let mut crashed = 0;
    for h in hs { if h.join().is_err() { crashed += 1; } }
    let left = sh.q.lock().map(|g| g.0.len() + g.1).unwrap_or(1);
    let st = sh.stats.lock().unwrap();
    let v = sh.viol.lock().unwrap();
    let inc = sh.inc.lock().unwrap();
    let mut o = String::new();
    use std::fmt::Write;
    let _ = write!(o, "{{\"roots\":{},\"boxes\":{},\"proved_boxes\":{},\"unfinished\":{},\"crashed\":{},\"paths\":{},\"forks\":{},\"merges\":{},\"dropped_arms\":{},\"instructions\":{},\"splits\":{},\"point_boxes\":{},\"centres_enclosed\":{},\"max_depth\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"nra_queries\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},",
        nroot, st.boxes, st.leaves, left, crashed, st.paths, st.forks, st.merges, st.dropped, st.instr, st.splits, st.points, st.valid, st.maxdepth, st.queries, st.unsat, st.sat, st.unknown, st.nra, st.smt_s, t0.elapsed().as_secs_f64());
    let _ = write!(o, "\"violations\":[{}],", v.iter().map(|x| format!("{{\"job\":{},\"what\":{},\"args\":{},\"outs\":{}}}", jstr(&x.job), jstr(&x.what), jarr(&x.args.iter().map(|a| format!("{:016x}", a)).collect::<Vec<_>>()), jarr(&x.outs))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"inconclusive\":{},", jarr(&inc));
    let _ = write!(o, "\"undecided_jobs\":{},", jarr(&sh.incjob.lock().unwrap().iter().map(|(j, n)| format!("{} {}", jobs[*j].id, n)).collect::<Vec<_>>()));
    let _ = write!(o, "\"bisect_reasons\":{{{}}},", sh.reason.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    let mut jb: Vec<(u64, &str)> = jobs.iter().zip(&sh.jobboxes).map(|(j, b)| (b.load(std::sync::atomic::Ordering::Relaxed), j.id.as_str())).collect();
    jb.sort_by(|a, b| b.cmp(a));
    let _ = write!(o, "\"job_boxes\":{},", jarr(&jb.iter().take(if std::env::var_os("FPSYM_JOBS").is_some() { jb.len() } else { 10 }).map(|(b, j)| format!("{} {}", j, b)).collect::<Vec<_>>()));
    let _ = write!(o, "\"functions\":{},", jarr(&sh.used.lock().unwrap().iter().cloned().collect::<Vec<_>>()));
    let _ = write!(o, "\"samples\":{}}}", jarr(&sh.samples.lock().unwrap()));
    if out.is_empty() { println!("{}", o); } else { std::fs::write(&out, o).unwrap(); }
    let _ = Rc::new(0);
}
