//! Parser for the textual LLVM IR that rustc emits for the harness crate, puruspe and its dependencies.
//! Functions are parsed lazily: a construct that is not understood only matters if it is executed.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    I(u32),
    F64,
    F32,
    Ptr,
    Void,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(n) => ((*n as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(n) => ((*n as u64 + 7) / 8).next_power_of_two(),
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !*packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, idx: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (i, t) in f.iter().enumerate() {
                    if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if i == idx { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * idx as u64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(usize),
    Int(u64, u32),
    F(f64),
    Global(String),
    GlobalOff(String, i64),
    Null,
    IntPtr(u64),
    Undef(Ty),
    Zero(Ty),
    Agg(Vec<Opd>),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: String, ty: Ty, a: Opd, b: Opd, dst: usize },
    FNeg { a: Opd, dst: usize },
    ICmp { pred: String, ty: Ty, a: Opd, b: Opd, dst: usize },
    FCmp { pred: String, a: Opd, b: Opd, dst: usize },
    Cast { op: String, from: Ty, to: Ty, a: Opd, dst: usize },
    Phi { dst: usize, inc: Vec<(Opd, usize)> },
    Select { c: Opd, a: Opd, b: Opd, dst: usize },
    Br { to: usize },
    CondBr { c: Opd, t: usize, f: usize },
    Switch { v: Opd, def: usize, cases: Vec<(u64, usize)> },
    Ret { v: Option<Opd> },
    Call { callee: Opd, args: Vec<Opd>, dst: Option<usize>, retty: Ty },
    Load { ty: Ty, p: Opd, dst: usize },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { ty: Ty, p: Opd, idx: Vec<Opd>, dst: usize },
    Alloca { size: u64, dst: usize },
    Extract { a: Opd, idx: Vec<usize>, dst: usize },
    Insert { a: Opd, v: Opd, idx: Vec<usize>, dst: usize },
    Unreachable,
    Unknown(String),
}

pub struct Func {
    pub name: String,
    pub module: usize,
    pub params: Vec<usize>,
    pub nregs: usize,
    pub blocks: Vec<Vec<Ins>>,
    pub block_names: Vec<String>,
}

pub struct Global {
    pub bytes: Option<Vec<u8>>,
    pub size: u64,
}

pub struct Module {
    pub path: String,
    pub funcs: HashMap<String, Vec<String>>, // raw text lines
    pub globals: HashMap<String, String>,
}

pub struct Program {
    pub modules: Vec<Module>,
}

// ---------------------------------------------------------------- tokenizer
fn tokenize(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() { i += 1; continue; }
        if c == b';' { break; }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            let mut j = i + 2;
            while j + 1 < b.len() && !(b[j] == b'*' && b[j + 1] == b'/') { j += 1; }
            i = j + 2;
            continue;
        }
        if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            let st = i;
            let mut j = if c == b'c' { i + 2 } else { i + 1 };
            while b[j] != b'"' { j += 1; }
            out.push(s[st..=j].to_string());
            i = j + 1;
            continue;
        }
        if c == b'%' || c == b'@' || c == b'!' || c == b'#' {
            let st = i;
            i += 1;
            if i < b.len() && b[i] == b'"' {
                let mut j = i + 1;
                while b[j] != b'"' { j += 1; }
                out.push(format!("{}{}", c as char, &s[i + 1..j]));
                i = j + 1;
                continue;
            }
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b"._$-".contains(&b[i])) { i += 1; }
            out.push(s[st..i].to_string());
            continue;
        }
        if c.is_ascii_alphanumeric() || c == b'-' || c == b'+' || c == b'.' || c == b'_' {
            let st = i;
            i += 1;
            while i < b.len()
                && (b[i].is_ascii_alphanumeric()
                    || b[i] == b'.'
                    || b[i] == b'_'
                    || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E')))
            {
                i += 1;
            }
            out.push(s[st..i].to_string());
            continue;
        }
        out.push((c as char).to_string());
        i += 1;
    }
    out
}

impl Program {
    pub fn load(paths: &[String]) -> Program {
        let mut modules = vec![];
        for p in paths {
            let text = std::fs::read_to_string(p).expect("read ll");
            let mut m = Module { path: p.clone(), funcs: HashMap::new(), globals: HashMap::new() };
            let mut lines = text.lines();
            while let Some(l) = lines.next() {
                if l.starts_with('@') {
                    if let Some(eq) = l.find(" = ") {
                        let n = l[1..eq].trim_matches('"').to_string();
                        m.globals.insert(n, l[eq + 3..].to_string());
                    }
                } else if l.starts_with("define") {
                    let at = l.find('@').unwrap();
                    let rest = &l[at + 1..];
                    let name = if rest.starts_with('"') {
                        rest[1..].split('"').next().unwrap().to_string()
                    } else {
                        rest[..rest.find('(').unwrap()].to_string()
                    };
                    let mut body = vec![l.to_string()];
                    for l in lines.by_ref() {
                        if l == "}" { break; }
                        body.push(l.to_string());
                    }
                    m.funcs.insert(name, body);
                }
            }
            modules.push(m);
        }
        Program { modules }
    }

    pub fn find(&self, name: &str, module: usize) -> Option<usize> {
        if self.modules[module].funcs.contains_key(name) { return Some(module); }
        // a non-internal definition elsewhere
        for (i, m) in self.modules.iter().enumerate() {
            if let Some(b) = m.funcs.get(name) {
                if !b[0].starts_with("define internal") && !b[0].starts_with("define private") { return Some(i); }
            }
        }
        None
    }

    pub fn parse_fn(&self, name: &str, module: usize) -> Func {
        let lines = &self.modules[module].funcs[name];
        // join multi-line instructions (switch, phi, invoke)
        let mut joined: Vec<String> = vec![];
        let mut acc = String::new();
        for l in &lines[1..] {
            let t = l.trim();
            if t.is_empty() || t.starts_with(';') { continue; }
            if acc.is_empty() { acc = t.to_string(); } else { acc.push(' '); acc.push_str(t); }
            let open = acc.matches('[').count();
            let close = acc.matches(']').count();
            if open > close { continue; }
            if acc.starts_with("invoke") || acc.contains("= invoke") {
                if !acc.contains(" unwind label ") { continue; }
            }
            joined.push(std::mem::take(&mut acc));
        }
        let mut p = FnParser { regs: HashMap::new(), blocks: HashMap::new() };
        // header params
        let ht = tokenize(&lines[0]);
        let fpos = ht.iter().position(|t| t == &format!("@{}", name)).expect("fn header");
        let mut params = vec![];
        let mut i = fpos + 2;
        let mut depth = 1;
        let mut cur: Vec<String> = vec![];
        let mut plist: Vec<Vec<String>> = vec![];
        while depth > 0 {
            let t = &ht[i];
            match t.as_str() {
                "(" | "[" | "{" | "<" => { depth += 1; cur.push(t.clone()); }
                ")" | "]" | "}" | ">" => { depth -= 1; if depth > 0 { cur.push(t.clone()); } }
                "," if depth == 1 => { plist.push(std::mem::take(&mut cur)); }
                _ => cur.push(t.clone()),
            }
            i += 1;
        }
        if !cur.is_empty() { plist.push(cur); }
        for (k, pl) in plist.iter().enumerate() {
            let last = pl.last().unwrap();
            let n = if let Some(n) = last.strip_prefix('%') { n.to_string() } else { format!("__arg{}", k) };
            params.push(p.reg(&n));
        }
        let mut blocks: Vec<Vec<Ins>> = vec![];
        let mut block_names = vec![];
        // first pass: labels
        let is_label = |s: &str| -> Option<String> {
            if s.starts_with('"') {
                let e = s[1..].find('"')? + 1;
                if s[e + 1..].starts_with(':') { return Some(s[1..e].to_string()); }
                return None;
            }
            let e = s.find(|c: char| !(c.is_ascii_alphanumeric() || "._$-".contains(c)))?;
            if s.as_bytes()[e] == b':' { Some(s[..e].to_string()) } else { None }
        };
        let mut nb = 0;
        let mut first = true;
        for l in &joined {
            if let Some(n) = is_label(l) { p.blocks.insert(n, nb); nb += 1; first = false; }
            else if first { p.blocks.insert("__entry".into(), 0); nb = 1; first = false; }
        }
        for l in &joined {
            if let Some(n) = is_label(l) { blocks.push(vec![]); block_names.push(n); continue; }
            if blocks.is_empty() { blocks.push(vec![]); block_names.push("__entry".into()); }
            let toks = tokenize(l);
            let ins = p.ins(&toks).unwrap_or_else(|| Ins::Unknown(l.clone()));
            blocks.last_mut().unwrap().push(ins);
        }
        Func { name: name.to_string(), module, params, nregs: p.regs.len(), blocks, block_names }
    }

    pub fn parse_global(&self, name: &str, module: usize) -> Option<Global> {
        let txt = match self.modules[module].globals.get(name) {
            Some(t) => t,
            None => self.modules.iter().filter_map(|m| m.globals.get(name)).next()?,
        };
        let toks = tokenize(txt);
        let pos = toks.iter().position(|t| t == "constant" || t == "global")?;
        let mut c = Cur { t: &toks, i: pos + 1 };
        let ty = c.ty()?;
        let size = ty.size();
        let mut bytes = vec![0u8; size as usize];
        let ok = init_bytes(&mut c, &ty, &mut bytes, 0).is_some();
        Some(Global { bytes: if ok { Some(bytes) } else { None }, size })
    }
}

fn init_bytes(c: &mut Cur, ty: &Ty, out: &mut Vec<u8>, off: usize) -> Option<()> {
    let t = c.peek()?.to_string();
    if t == "zeroinitializer" || t == "undef" || t == "poison" { c.i += 1; return Some(()); }
    match ty {
        Ty::Arr(n, e) | Ty::Vec(n, e) => {
            if t.starts_with("c\"") {
                c.i += 1;
                let s = t[2..t.len() - 1].as_bytes();
                let mut i = 0;
                let mut o = off;
                while i < s.len() {
                    if s[i] == b'\\' && s.get(i + 1) == Some(&b'\\') { out[o] = b'\\'; i += 2; }
                    else if s[i] == b'\\' {
                        out[o] = u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).ok()?, 16).ok()?;
                        i += 3;
                    } else { out[o] = s[i]; i += 1; }
                    o += 1;
                }
                return Some(());
            }
            c.i += 1; // [ or <
            for k in 0..*n {
                if k > 0 { c.eat(",")?; }
                let et = c.ty()?;
                init_bytes(c, &et, out, off + (k * e.size()) as usize)?;
            }
            c.i += 1;
            Some(())
        }
        Ty::Struct(f, packed) => {
            if *packed { c.eat("<")?; }
            c.eat("{")?;
            for k in 0..f.len() {
                if k > 0 { c.eat(",")?; }
                let et = c.ty()?;
                init_bytes(c, &et, out, off + ty.field_off(k) as usize)?;
            }
            c.eat("}")?;
            if *packed { c.eat(">")?; }
            Some(())
        }
        Ty::F64 => {
            let v = parse_f64(&t)?;
            c.i += 1;
            out[off..off + 8].copy_from_slice(&v.to_bits().to_le_bytes());
            Some(())
        }
        Ty::I(n) => {
            let v: i128 = if t == "true" { 1 } else if t == "false" { 0 } else { t.parse().ok()? };
            c.i += 1;
            let sz = Ty::I(*n).size() as usize;
            out[off..off + sz].copy_from_slice(&v.to_le_bytes()[..sz]);
            Some(())
        }
        _ => None,
    }
}

pub fn parse_f64(t: &str) -> Option<f64> {
    if let Some(h) = t.strip_prefix("f0x") { return u64::from_str_radix(h, 16).ok().map(f64::from_bits); }
    if let Some(h) = t.strip_prefix("0x") { return u64::from_str_radix(h, 16).ok().map(f64::from_bits); }
    match t {
        "+inf" => return Some(f64::INFINITY),
        "-inf" => return Some(f64::NEG_INFINITY),
        "+qnan" | "nan" | "+nan" => return Some(f64::NAN),
        "-qnan" | "-nan" => return Some(-f64::NAN),
        _ => {}
    }
    if t.contains("nan") { return Some(f64::NAN); }
    t.parse().ok()
}

struct Cur<'a> { t: &'a [String], i: usize }
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a str> { self.t.get(self.i).map(|s| s.as_str()) }
    fn next(&mut self) -> Option<&'a str> { let r = self.t.get(self.i).map(|s| s.as_str()); self.i += 1; r }
    fn eat(&mut self, s: &str) -> Option<()> { if self.peek() == Some(s) { self.i += 1; Some(()) } else { None } }
    fn ty(&mut self) -> Option<Ty> {
        let t = self.next()?;
        Some(match t {
            "double" => Ty::F64,
            "float" => Ty::F32,
            "ptr" => Ty::Ptr,
            "void" => Ty::Void,
            "label" | "metadata" | "token" => Ty::Other,
            "[" => {
                let n: u64 = self.next()?.parse().ok()?;
                self.eat("x")?;
                let e = self.ty()?;
                self.eat("]")?;
                Ty::Arr(n, Box::new(e))
            }
            "{" => { let f = self.fields("}")?; Ty::Struct(f, false) }
            "<" => {
                if self.peek() == Some("{") {
                    self.i += 1;
                    let f = self.fields("}")?;
                    self.eat(">")?;
                    return Some(Ty::Struct(f, true));
                }
                let n: u64 = self.next()?.parse().ok()?;
                self.eat("x")?;
                let e = self.ty()?;
                self.eat(">")?;
                Ty::Vec(n, Box::new(e))
            }
            _ => {
                if let Some(n) = t.strip_prefix('i') { Ty::I(n.parse().ok()?) } else { return None; }
            }
        })
    }
    fn fields(&mut self, end: &str) -> Option<Vec<Ty>> {
        let mut f = vec![];
        if self.peek() == Some(end) { self.i += 1; return Some(f); }
        loop {
            f.push(self.ty()?);
            match self.next()? { "," => {} e if e == end => return Some(f), _ => return None }
        }
    }
    /// skip parameter attributes such as `noundef`, `align 8`, `range(i64 0, 5)`
    fn attrs(&mut self) {
        while let Some(t) = self.peek() {
            let c = t.as_bytes()[0];
            if !c.is_ascii_alphabetic() { return; }
            if parse_f64(t).is_some() || matches!(t, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "splat" | "blockaddress") || t.starts_with("c\"") { return; }
            self.i += 1;
            if t == "align" && self.peek() != Some("(") { self.i += 1; continue; }
            if self.peek() == Some("(") {
                let mut d = 0;
                while let Some(x) = self.next() {
                    if x == "(" { d += 1; }
                    if x == ")" { d -= 1; if d == 0 { break; } }
                }
            }
        }
    }
}

struct FnParser { regs: HashMap<String, usize>, blocks: HashMap<String, usize> }
impl FnParser {
    fn reg(&mut self, n: &str) -> usize {
        let l = self.regs.len();
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn opd(&mut self, c: &mut Cur, ty: &Ty) -> Option<Opd> {
        let t = c.next()?;
        if let Some(n) = t.strip_prefix('%') { return Some(Opd::Reg(self.reg(n))); }
        if let Some(n) = t.strip_prefix('@') { return Some(Opd::Global(n.to_string())); }
        match t {
            "null" => return Some(Opd::Null),
            "undef" | "poison" => return Some(Opd::Undef(ty.clone())),
            "true" => return Some(Opd::Int(1, 1)),
            "false" => return Some(Opd::Int(0, 1)),
            "zeroinitializer" => return Some(Opd::Zero(ty.clone())),
            "inttoptr" => {
                c.eat("(")?;
                c.ty()?;
                let v: i64 = c.next()?.parse().ok()?;
                while c.next()? != ")" {}
                return Some(Opd::IntPtr(v as u64));
            }
            "getelementptr" => {
                while c.peek()? != "(" { c.i += 1; }
                c.eat("(")?;
                let et = c.ty()?;
                c.eat(",")?;
                c.ty()?;
                let g = c.next()?.strip_prefix('@')?.to_string();
                let mut off = 0i64;
                let mut k = 0;
                let mut cur = et.clone();
                while c.next()? == "," {
                    c.ty()?;
                    let v: i64 = c.next()?.parse().ok()?;
                    if k == 0 { off += v * et.size() as i64; } else {
                        off += cur.field_off(v as usize) as i64;
                        cur = match &cur { Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), Ty::Struct(f, _) => f[v as usize].clone(), _ => return None };
                    }
                    k += 1;
                }
                return Some(Opd::GlobalOff(g, off));
            }
            "{" | "<" | "[" => {
                let end = match t { "{" => "}", "<" => ">", _ => "]" };
                let mut v = vec![];
                loop {
                    let et = c.ty()?;
                    v.push(self.opd(c, &et)?);
                    let n = c.next()?;
                    if n == end { break; }
                    if n != "," { return None; }
                }
                return Some(Opd::Agg(v));
            }
            "splat" => {
                c.eat("(")?;
                let et = c.ty()?;
                let o = self.opd(c, &et)?;
                c.eat(")")?;
                if let Ty::Vec(n, _) = ty { return Some(Opd::Agg(vec![o; *n as usize])); }
                return None;
            }
            _ => {}
        }
        match ty {
            Ty::F64 => parse_f64(t).map(Opd::F),
            Ty::I(n) => {
                let v: i128 = t.parse().ok()?;
                let m = if *n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
                Some(Opd::Int(v as u64 & m, *n))
            }
            _ => None,
        }
    }
    fn label(&self, c: &mut Cur) -> Option<usize> {
        c.eat("label")?;
        let t = c.next()?;
        self.blocks.get(t.strip_prefix('%')?).copied()
    }
    fn ins(&mut self, toks: &[String]) -> Option<Ins> {
        let mut c = Cur { t: toks, i: 0 };
        let mut dst = None;
        if toks.len() > 2 && toks[1] == "=" && toks[0].starts_with('%') {
            dst = Some(self.reg(&toks[0][1..]));
            c.i = 2;
        }
        let mut op = c.next()?.to_string();
        if op == "tail" || op == "musttail" || op == "notail" { op = c.next()?.to_string(); }
        let skip_flags = |c: &mut Cur| {
            while let Some(t) = c.peek() {
                if matches!(t, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "samesign" | "nusw" | "volatile" | "atomic") { c.i += 1; } else { break; }
            }
        };
        match op.as_str() {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                for t in &c.t[c.i..] { if matches!(t.as_str(), "reassoc" | "fast" | "contract" | "arcp" | "afn") { return None; } }
                skip_flags(&mut c);
                let ty = c.ty()?;
                let a = self.opd(&mut c, &ty)?;
                c.eat(",")?;
                let b = self.opd(&mut c, &ty)?;
                Some(Ins::Bin { op, ty, a, b, dst: dst? })
            }
            "fneg" => {
                skip_flags(&mut c);
                let ty = c.ty()?;
                let a = self.opd(&mut c, &ty)?;
                Some(Ins::FNeg { a, dst: dst? })
            }
            "icmp" => {
                skip_flags(&mut c);
                let pred = c.next()?.to_string();
                let ty = c.ty()?;
                let a = self.opd(&mut c, &ty)?;
                c.eat(",")?;
                let b = self.opd(&mut c, &ty)?;
                Some(Ins::ICmp { pred, ty, a, b, dst: dst? })
            }
            "fcmp" => {
                skip_flags(&mut c);
                let pred = c.next()?.to_string();
                let ty = c.ty()?;
                if ty != Ty::F64 { return None; }
                let a = self.opd(&mut c, &ty)?;
                c.eat(",")?;
                let b = self.opd(&mut c, &ty)?;
                Some(Ins::FCmp { pred, a, b, dst: dst? })
            }
            "trunc" | "zext" | "sext" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" => {
                skip_flags(&mut c);
                let from = c.ty()?;
                let a = self.opd(&mut c, &from)?;
                c.eat("to")?;
                let to = c.ty()?;
                Some(Ins::Cast { op, from, to, a, dst: dst? })
            }
            "freeze" => {
                let ty = c.ty()?;
                let a = self.opd(&mut c, &ty)?;
                Some(Ins::Cast { op: "freeze".into(), from: ty.clone(), to: ty, a, dst: dst? })
            }
            "phi" => {
                skip_flags(&mut c);
                let ty = c.ty()?;
                let mut inc = vec![];
                loop {
                    c.eat("[")?;
                    let v = self.opd(&mut c, &ty)?;
                    c.eat(",")?;
                    let l = c.next()?;
                    let b = *self.blocks.get(l.strip_prefix('%')?)?;
                    c.eat("]")?;
                    inc.push((v, b));
                    if c.eat(",").is_none() || c.peek() != Some("[") { break; }
                }
                Some(Ins::Phi { dst: dst?, inc })
            }
            "select" => {
                skip_flags(&mut c);
                let ct = c.ty()?;
                if ct != Ty::I(1) { return None; }
                let cc = self.opd(&mut c, &ct)?;
                c.eat(",")?;
                let ty = c.ty()?;
                let a = self.opd(&mut c, &ty)?;
                c.eat(",")?;
                let ty = c.ty()?;
                let b = self.opd(&mut c, &ty)?;
                Some(Ins::Select { c: cc, a, b, dst: dst? })
            }
            "br" => {
                if c.peek()? == "label" { return Some(Ins::Br { to: self.label(&mut c)? }); }
                let ty = c.ty()?;
                let cc = self.opd(&mut c, &ty)?;
                c.eat(",")?;
                let t = self.label(&mut c)?;
                c.eat(",")?;
                let f = self.label(&mut c)?;
                Some(Ins::CondBr { c: cc, t, f })
            }
            "switch" => {
                let ty = c.ty()?;
                let v = self.opd(&mut c, &ty)?;
                c.eat(",")?;
                let def = self.label(&mut c)?;
                c.eat("[")?;
                let mut cases = vec![];
                while c.peek()? != "]" {
                    let ty = c.ty()?;
                    let k = match self.opd(&mut c, &ty)? { Opd::Int(k, _) => k, _ => return None };
                    c.eat(",")?;
                    cases.push((k, self.label(&mut c)?));
                }
                Some(Ins::Switch { v, def, cases })
            }
            "ret" => {
                let ty = c.ty()?;
                if ty == Ty::Void { return Some(Ins::Ret { v: None }); }
                Some(Ins::Ret { v: Some(self.opd(&mut c, &ty)?) })
            }
            "call" | "invoke" => {
                if op == "invoke" { return None; }
                skip_flags(&mut c);
                // calling convention and return attributes
                while let Some(t) = c.peek() { if t == "fastcc" || t == "ccc" || t == "coldcc" { c.i += 1; } else { break; } }
                let mut save = c.i;
                let retty = loop {
                    let mut d = Cur { t: toks, i: save };
                    if let Some(t) = d.ty() { c.i = d.i; break t; }
                    c.i = save;
                    let before = c.i;
                    // one attribute
                    let t = c.next()?;
                    if t == "align" && c.peek() != Some("(") { c.i += 1; }
                    if c.peek() == Some("(") {
                        let mut d = 0;
                        while let Some(x) = c.next() { if x == "(" { d += 1; } if x == ")" { d -= 1; if d == 0 { break; } } }
                    }
                    save = c.i;
                    if save == before { return None; }
                };
                // function type in parens (varargs) is not supported
                let callee = { let t = c.next()?; if let Some(n) = t.strip_prefix('@') { Opd::Global(n.to_string()) } else if let Some(n) = t.strip_prefix('%') { Opd::Reg(self.reg(n)) } else { return None; } };
                c.eat("(")?;
                let mut args = vec![];
                if c.peek()? != ")" {
                    loop {
                        let ty = c.ty()?;
                        if ty == Ty::Other {
                            // metadata argument
                            let mut d = 0i32;
                            while let Some(x) = c.peek() {
                                if d == 0 && (x == "," || x == ")") { break; }
                                if x == "(" { d += 1; } if x == ")" { d -= 1; }
                                c.i += 1;
                            }
                            args.push(Opd::Undef(ty));
                        } else {
                            c.attrs();
                            args.push(self.opd(&mut c, &ty)?);
                        }
                        match c.next()? { "," => {} ")" => break, _ => return None }
                    }
                }
                Some(Ins::Call { callee, args, dst, retty })
            }
            "load" => {
                skip_flags(&mut c);
                let ty = c.ty()?;
                c.eat(",")?;
                c.ty()?;
                let p = self.opd(&mut c, &Ty::Ptr)?;
                Some(Ins::Load { ty, p, dst: dst? })
            }
            "store" => {
                skip_flags(&mut c);
                let ty = c.ty()?;
                let v = self.opd(&mut c, &ty)?;
                c.eat(",")?;
                c.ty()?;
                let p = self.opd(&mut c, &Ty::Ptr)?;
                Some(Ins::Store { ty, v, p })
            }
            "getelementptr" => {
                skip_flags(&mut c);
                if c.peek()? == "inrange" { return None; }
                let ty = c.ty()?;
                c.eat(",")?;
                c.ty()?;
                let p = self.opd(&mut c, &Ty::Ptr)?;
                let mut idx = vec![];
                while c.peek() == Some(",") {
                    if c.t.get(c.i + 1).map(|s| s.starts_with('!')).unwrap_or(false) { break; }
                    c.i += 1;
                    let it = c.ty()?;
                    idx.push(self.opd(&mut c, &it)?);
                }
                Some(Ins::Gep { ty, p, idx, dst: dst? })
            }
            "alloca" => {
                let ty = c.ty()?;
                Some(Ins::Alloca { size: ty.size(), dst: dst? })
            }
            "extractvalue" => {
                let ty = c.ty()?;
                let a = self.opd(&mut c, &ty)?;
                let mut idx = vec![];
                while c.eat(",").is_some() { idx.push(c.next()?.parse().ok()?); }
                Some(Ins::Extract { a, idx, dst: dst? })
            }
            "insertvalue" => {
                let ty = c.ty()?;
                let a = self.opd(&mut c, &ty)?;
                c.eat(",")?;
                let vt = c.ty()?;
                let v = self.opd(&mut c, &vt)?;
                let mut idx = vec![];
                while c.eat(",").is_some() { idx.push(c.next()?.parse().ok()?); }
                Some(Ins::Insert { a, v, idx, dst: dst? })
            }
            "unreachable" => Some(Ins::Unreachable),
            _ => None,
        }
    }
}
