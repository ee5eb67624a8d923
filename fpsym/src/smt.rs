//! Queries to an SMT solver process.  Polynomial inequalities over t in [-1,1]^nv are encoded in
//! linear real arithmetic with one bounded variable per monomial (a relaxation: unsat is conclusive);
//! `exact` adds the definitions of the monomials (non-linear real arithmetic).
use crate::exec::{Con, Rel};
use crate::tm::{Ctx, Tm};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub struct Smt { _ch: Child, inp: ChildStdin, out: BufReader<ChildStdout>, pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub secs: f64, tmo: u32 }
pub enum Res { Unsat, Sat(Vec<f64>), Unknown }

impl Smt {
    pub fn new(bin: &str) -> Smt {
        let mut ch = Command::new(bin).arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("solver");
        let mut inp = ch.stdin.take().unwrap();
        let out = BufReader::new(ch.stdout.take().unwrap());
        inp.write_all(b"(set-option :print-success false)\n(set-option :timeout 3000)\n").unwrap();
        Smt { _ch: ch, inp, out, queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0, tmo: 3000 }
    }
    fn line(&mut self) -> String {
        let mut s = String::new();
        self.out.read_line(&mut s).expect("solver output");
        s.trim().to_string()
    }
    /// is there t with all constraints and (for some goal) goal > 0 ?   no goals: feasibility of the constraints
    pub fn check(&mut self, k: &Ctx, cons: &[&Con], goals: &[&Tm], exact: bool) -> Res {
        let t0 = Instant::now();
        let mut body = String::new();
        let mut mons: BTreeSet<usize> = BTreeSet::new();
        let mut ne = 0;
        let mut cl: Vec<String> = vec![];
        let mut decl = String::new();
        for c in cons {
            let s = lin(k, &c.tm, &mut mons, &mut decl, &mut ne, if exact { 1e-12 } else { 1e-7 });
            cl.push(format!("({} {} 0)", match c.rel { Rel::Lt => "<", Rel::Le => "<=", Rel::Eq => "=" }, s));
        }
        let mut gl = vec![];
        for g in goals { let s = lin(k, g, &mut mons, &mut decl, &mut ne, if exact { 1e-12 } else if g.hi <= 0.0 { 0.03 } else { 1e-4 }); if g.hi <= 0.0 { cl.push(format!("(<= {} 0)", s)); } // the tracked range is part of the value
            gl.push(format!("(> {} 0)", s)); }
        let _ = writeln!(body, "(push)");
        for v in 0..k.nv { let _ = writeln!(body, "(declare-const t{} Real)(assert (<= (- 1) t{} 1))", v, v); }
        for m in &mons {
            if k.grade[*m] == 1 { continue; }
            if exact {
                let mut p = String::from("(*");
                for v in 0..k.nv { for _ in 0..k.exps[*m][v] { let _ = write!(p, " t{}", v); } }
                p.push(')');
                let _ = writeln!(body, "(declare-const m{} Real)(assert (= m{} {}))", m, m, p);
            } else if k.even[*m] { let _ = writeln!(body, "(declare-const m{} Real)(assert (<= 0 m{} 1))", m, m); } else { let _ = writeln!(body, "(declare-const m{} Real)(assert (<= (- 1) m{} 1))", m, m); }
        }
        body.push_str(&decl);
        for c in &cl { let _ = writeln!(body, "(assert {})", c); }
        if gl.len() == 1 { let _ = writeln!(body, "(assert {})", gl[0]); } else if gl.len() > 1 { let _ = writeln!(body, "(assert (or {}))", gl.join(" ")); }
        body.push_str("(check-sat)\n");
        self.inp.write_all(body.as_bytes()).unwrap();
        self.inp.flush().unwrap();
        self.queries += 1;
        let mut r = self.line();
        while r.starts_with("(error") { r = String::from("unknown-error"); }
        let res = match r.as_str() {
            "unsat" => { self.unsat += 1; Res::Unsat }
            "sat" => {
                self.sat += 1;
                let mut v = vec![0.0; k.nv];
                for i in 0..k.nv {
                    self.inp.write_all(format!("(get-value (t{}))\n", i).as_bytes()).unwrap();
                    self.inp.flush().unwrap();
                    let mut l = self.line();
                    while l.matches('(').count() > l.matches(')').count() { let x = self.line(); l.push(' '); l.push_str(&x); }
                    v[i] = num(&l).clamp(-1.0, 1.0);
                }
                Res::Sat(v)
            }
            "unknown-error" => { self.unknown += 1; self.line(); Res::Unknown }
            _ => { self.unknown += 1; Res::Unknown }
        };
        self.inp.write_all(b"(pop)\n").unwrap();
        let _ = self.tmo;
        self.secs += t0.elapsed().as_secs_f64();
        res
    }
}

fn num(l: &str) -> f64 {
    // ((t0 EXPR))
    let toks: Vec<String> = l.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
    fn ev(t: &[String], i: &mut usize) -> f64 {
        if t[*i] == "(" {
            *i += 1;
            let op = t[*i].clone();
            *i += 1;
            let a = ev(t, i);
            let r = if op == "-" { if t[*i] == ")" { -a } else { a - ev(t, i) } } else if op == "/" { a / ev(t, i) } else if op == "root-obj" { while t[*i] != ")" { *i += 1; } 0.0 } else { a };
            while t[*i] != ")" { *i += 1; }
            *i += 1;
            r
        } else { let r = t[*i].trim_end_matches('?').parse().unwrap_or(0.0); *i += 1; r }
    }
    if toks.len() < 4 { return 0.0; }
    let mut i = 3;
    ev(&toks, &mut i)
}

fn int(x: f64) -> String { let v = x as i64; if v < 0 { format!("(- {})", -(v as i128)) } else { format!("{}", v) } }

/// the polynomial with remainder as a linear term over t*, m*, and one error variable; scaled to integers
fn lin(k: &Ctx, t: &Tm, mons: &mut BTreeSet<usize>, decl: &mut String, ne: &mut usize, cut: f64) -> String {
    let mut scale = t.rem;
    for c in &t.c { scale = scale.max(c.abs()); }
    if scale == 0.0 || !scale.is_finite() { return "0".into(); }
    // 2^40 / scale, done in two steps against overflow
    let unit = if cut < 1e-5 { 1099511627776.0 } else { 1048576.0 };
    let mul = |x: f64| (x / scale) * unit;
    let mut slack = mul(t.rem);
    let mut s = String::from("(+");
    s.push(' ');
    s.push_str(&int(mul(t.c[0]).round()));
    slack += 1.0;
    for i in 1..k.n {
        let c = t.c[i];
        if c == 0.0 { continue; }
        if (c / scale).abs() < cut && k.grade[i] > 1 { slack += mul(c.abs()); continue; }
        let v = mul(c).round();
        slack += 1.0;
        mons.insert(i);
        if k.grade[i] == 1 {
            let var = (0..k.nv).find(|v| k.exps[i][*v] == 1).unwrap();
            let _ = write!(s, " (* {} t{})", int(v), var);
        } else { let _ = write!(s, " (* {} m{})", int(v), i); }
    }
    let sl = (slack * (1.0 + 1e-9)).ceil() + 1.0;
    let e = format!("e{}", *ne);
    *ne += 1;
    let _ = writeln!(decl, "(declare-const {} Real)(assert (<= (- {}) {} {}))", e, sl as i128, e, sl as i128);
    let _ = write!(s, " {})", e);
    s
}
