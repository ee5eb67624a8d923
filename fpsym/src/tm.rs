//! Taylor models: a value is  P(t) + e,  t in [-1,1]^nv,  |e| <= rem.
//! All real-arithmetic operations below enclose the exact result; rounding made by this program while
//! computing coefficients is added to `rem`.  Rounding made by the *checked* program is added by the
//! executor (`round`).
pub const U: f64 = 1.1102230246251565e-16; // 2^-53
const TINY: f64 = 1e-322;

pub struct Ctx {
    pub nv: usize,
    pub deg: usize,
    pub n: usize,
    pub exps: Vec<[u8; 3]>,
    pub grade: Vec<usize>,   // degree of monomial i
    pub gstart: Vec<usize>,  // first monomial of degree d (len deg+2)
    pub idx: Vec<u32>,       // multiplication table (only valid when grades add to <= deg)
    pub even: Vec<bool>,
}

impl Ctx {
    pub fn new(nv: usize, deg: usize) -> Ctx {
        let deg = if nv == 0 { 0 } else { deg };
        let mut exps = vec![];
        let mut gstart = vec![];
        for d in 0..=deg {
            gstart.push(exps.len());
            match nv {
                0 => exps.push([0, 0, 0]),
                1 => exps.push([d as u8, 0, 0]),
                2 => for i in (0..=d).rev() { exps.push([i as u8, (d - i) as u8, 0]); },
                _ => for i in (0..=d).rev() { for j in (0..=(d - i)).rev() { exps.push([i as u8, j as u8, (d - i - j) as u8]); } },
            }
        }
        gstart.push(exps.len());
        let n = exps.len();
        let mut map = std::collections::HashMap::new();
        for (i, e) in exps.iter().enumerate() { map.insert(*e, i as u32); }
        let mut idx = vec![u32::MAX; n * n];
        for i in 0..n { for j in 0..n {
            let e = [exps[i][0] + exps[j][0], exps[i][1] + exps[j][1], exps[i][2] + exps[j][2]];
            if let Some(k) = map.get(&e) { idx[i * n + j] = *k; }
        } }
        let grade = exps.iter().map(|e| (e[0] + e[1] + e[2]) as usize).collect();
        let even = exps.iter().map(|e| e.iter().all(|x| x % 2 == 0)).collect();
        Ctx { nv, deg, n, exps, grade, gstart, idx, even }
    }
}

#[derive(Clone, Debug)]
pub struct Tm {
    pub c: Vec<f64>,
    pub rem: f64,
    pub lo: f64,
    pub hi: f64,
    pub lat: i32, // every value is an integer multiple of 2^lat (i32::MIN: unknown)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail { DivZero, Domain, Overflow, Wide }
pub type R = Result<Tm, Fail>;

fn up(x: f64) -> f64 { if x.is_finite() { x + x.abs() * (4.0 * U) + TINY } else { x } }
fn dn(x: f64) -> f64 { if x.is_finite() { x - x.abs() * (4.0 * U) - TINY } else { x } }

pub fn half_ulp(m: f64) -> f64 {
    let b = m.abs().to_bits() >> 52;
    if b == 0 { return 5e-324; }
    if b == 0x7ff { return f64::INFINITY; }
    let p = f64::from_bits(b << 52) * U;
    if p == 0.0 { 5e-324 } else { p }
}
pub fn lat_of(x: f64) -> i32 {
    if x == 0.0 { return 1100; }
    let b = x.abs().to_bits();
    let e = (b >> 52) as i32;
    let m = if e == 0 { b & ((1 << 52) - 1) } else { (b & ((1 << 52) - 1)) | (1 << 52) };
    let e = if e == 0 { 1 } else { e };
    e - 1075 + m.trailing_zeros() as i32
}
pub fn exp2i(k: i32) -> f64 {
    if k > 1023 { f64::INFINITY } else if k >= -1022 { f64::from_bits(((k + 1023) as u64) << 52) } else if k >= -1074 { f64::from_bits(1u64 << (k + 1074)) } else { 0.0 }
}
pub fn ulp_lat(m: f64) -> i32 { // exponent of ulp of |m|
    let b = (m.abs().to_bits() >> 52) as i32;
    if b == 0 { -1074 } else { b - 1075 }
}

impl Tm {
    pub fn cst(k: &Ctx, v: f64) -> Tm {
        let mut c = vec![0.0; k.n];
        c[0] = v;
        Tm { c, rem: 0.0, lo: v, hi: v, lat: lat_of(v) }
    }
    /// c0 + r*t_i, exact; the values of interest are doubles in [lo,hi]
    pub fn var(k: &Ctx, i: usize, c0: f64, r: f64, lo: f64, hi: f64) -> Tm {
        let mut c = vec![0.0; k.n];
        c[0] = c0;
        for (j, e) in k.exps.iter().enumerate() {
            if k.grade[j] == 1 && e[i] == 1 { c[j] = r; }
        }
        let lat = if lo > 0.0 { ulp_lat(lo) } else if hi < 0.0 { ulp_lat(hi) } else { -1074 };
        Tm { c, rem: 0.0, lo, hi, lat }
    }
    pub fn is_const(&self) -> bool { self.rem == 0.0 && self.c[1..].iter().all(|x| *x == 0.0) }
    pub fn mag(&self) -> f64 { self.lo.abs().max(self.hi.abs()) }
    pub fn mig(&self) -> f64 { if self.lo > 0.0 { self.lo } else if self.hi < 0.0 { -self.hi } else { 0.0 } }
    pub fn width_nc(&self) -> f64 { self.c[1..].iter().map(|x| x.abs()).sum() }
    pub fn finite(&self) -> bool { self.rem.is_finite() && self.c.iter().all(|x| x.is_finite()) && self.lo.is_finite() && self.hi.is_finite() }

    fn poly_range(&self, k: &Ctx) -> (f64, f64) {
        let (mut l, mut h) = (0.0f64, 0.0f64);
        let mut i = 1;
        if k.nv == 1 && k.n > 2 {
            // exact range of the linear+quadratic part
            let (b, a) = (self.c[1], self.c[2]);
            let (p, q) = (a + b, a - b);
            l = p.min(q).min(0.0);
            h = p.max(q).max(0.0);
            if p.min(q) > 0.0 || p.max(q) < 0.0 || true {
                // vertex
                let (mut ll, mut hh) = (p.min(q), p.max(q));
                if a != 0.0 && b.abs() < 2.0 * a.abs() { let v = -b * b / (4.0 * a); ll = ll.min(v); hh = hh.max(v); }
                if b.abs() < 2.0 * a.abs() { ll = ll.min(0.0); hh = hh.max(0.0); }
                let s = (a.abs() + b.abs()) * 4.0 * U;
                l = ll - s; h = hh + s;
            }
            i = 3;
        }
        while i < k.n {
            let c = self.c[i];
            if k.even[i] { if c > 0.0 { h += c } else { l += c } } else { let a = c.abs(); l -= a; h += a; }
            i += 1;
        }
        let s = (l.abs() + h.abs()) * (k.n as f64 + 2.0) * U;
        (dn(self.c[0] + (l - s) - self.rem), up(self.c[0] + (h + s) + self.rem))
    }
    pub fn set_range(&mut self, k: &Ctx) { let (l, h) = self.poly_range(k); self.lo = l; self.hi = h; }
    pub fn meet(&mut self, lo: f64, hi: f64) {
        if lo > self.lo && lo <= self.hi { self.lo = lo; }
        if hi < self.hi && hi >= self.lo { self.hi = hi; }
    }

    /// account for one correctly rounded operation of the checked program
    pub fn round(mut self) -> Tm {
        let m = self.mag();
        let h = half_ulp(m);
        if self.lat != i32::MIN && m <= exp2i((self.lat + 53).clamp(-1074, 1023)) && self.lat >= -1074 { return self; }
        self.lat = self.fresh_lat();
        self.rem = up(self.rem + h);
        // rounding is monotone and the range ends are doubles: the range stays
        self
    }
    fn fresh_lat(&self) -> i32 { let m = self.mig(); if m > 0.0 { ulp_lat(m) } else { -1074 } }
    /// extra error of `n` ulps (library functions)
    pub fn blur_ulp(mut self, n: f64) -> Tm {
        let h = half_ulp(self.mag()) * 2.0 * n;
        self.rem = up(self.rem + h);
        self.lo = dn(self.lo - h);
        self.hi = up(self.hi + h);
        self.lat = i32::MIN;
        let l = self.fresh_lat();
        self.lat = l;
        self
    }
    pub fn inflate(mut self, e: f64) -> Tm { self.rem = up(self.rem + e); self.lo = dn(self.lo - e); self.hi = up(self.hi + e); self.lat = i32::MIN; self }

    pub fn neg(&self) -> Tm { Tm { c: self.c.iter().map(|x| -x).collect(), rem: self.rem, lo: -self.hi, hi: -self.lo, lat: self.lat } }

    pub fn add(&self, o: &Tm, k: &Ctx) -> Tm { self.addsub(o, k, 1.0) }
    pub fn sub(&self, o: &Tm, k: &Ctx) -> Tm { self.addsub(o, k, -1.0) }
    fn addsub(&self, o: &Tm, k: &Ctx, s: f64) -> Tm {
        let mut err = 0.0;
        let mut c = Vec::with_capacity(k.n);
        for i in 0..k.n {
            let a = self.c[i];
            let b = s * o.c[i];
            let r = a + b;
            let bb = r - a;
            let e = (a - (r - bb)) + (b - bb);
            err += e.abs();
            c.push(r);
        }
        let lat = if self.lat == i32::MIN || o.lat == i32::MIN { i32::MIN } else { self.lat.min(o.lat) };
        let rem = self.rem + o.rem + err;
        let rem = if rem == 0.0 { 0.0 } else { up(rem) };
        let mut r = Tm { c, rem, lo: 0.0, hi: 0.0, lat };
        r.set_range(k);
        let (ol, oh) = if s > 0.0 { (o.lo, o.hi) } else { (-o.hi, -o.lo) };
        let (l, h) = (self.lo + ol, self.hi + oh);
        let l = if self.lo == 0.0 || ol == 0.0 || l == 0.0 { l } else { dn(l) };
        let h = if self.hi == 0.0 || oh == 0.0 || h == 0.0 { h } else { up(h) };
        r.meet(l, h);
        r
    }
    pub fn scale2(&self, e: i32) -> Tm { // multiply by 2^e (exact up to underflow of tiny coefficients)
        let s = exp2i(e);
        if s == 0.0 || s.is_infinite() { let h = e / 2; return self.scale2(h).scale2(e - h); }
        let n = self.c.len() as f64;
        let mut under = false;
        let c: Vec<f64> = self.c.iter().map(|x| { let r = x * s; if r / s != *x { under = true; } r }).collect();
        let mut rem = self.rem * s;
        if under || (rem / s != self.rem) { rem += n * 5e-324; }
        Tm { c, rem, lo: dn0(self.lo * s), hi: up0(self.hi * s), lat: if self.lat == i32::MIN { i32::MIN } else { self.lat + e } }
    }

    pub fn mul(&self, o: &Tm, k: &Ctx) -> Tm {
        let n = k.n;
        let mut c = vec![0.0f64; n];
        let mut err = 0.0f64;
        let (a, b) = (&self.c, &o.c);
        let same = std::ptr::eq(self, o);
        if o.is_const() && !same {
            let s = b[0];
            for i in 0..n { let p = a[i] * s; err += (a[i].mul_add(s, -p)).abs(); c[i] = p; }
        } else if k.nv == 1 {
            for i in 0..n {
                let ai = a[i];
                if ai == 0.0 { continue; }
                for j in 0..n - i {
                    let p = ai.mul_add(b[j], c[i + j]);
                    c[i + j] = p;
                    err += p.abs();
                }
            }
            err *= U;
        } else {
            for i in 0..n {
                let ai = a[i];
                if ai == 0.0 { continue; }
                let lim = k.gstart[k.deg - k.grade[i] + 1];
                let row = &k.idx[i * n..i * n + lim];
                for j in 0..lim {
                    let t = row[j] as usize;
                    let p = ai.mul_add(b[j], c[t]);
                    c[t] = p;
                    err += p.abs();
                }
            }
            err *= U;
        }
        // truncated part: products of grade > deg
        let mut trunc = 0.0;
        if k.nv > 0 && !o.is_const() {
            let ga = grades(self, k);
            let gb = grades(o, k);
            // suffix sums of gb
            let mut suf = vec![0.0; k.deg + 2];
            for d in (0..=k.deg).rev() { suf[d] = suf[d + 1] + gb[d]; }
            for d in 1..=k.deg { trunc += ga[d] * suf[k.deg - d + 1]; }
        }
        let na: f64 = (self.lo - self.rem).abs().max((self.hi + self.rem).abs());
        let nb: f64 = (o.lo - o.rem).abs().max((o.hi + o.rem).abs());
        let na = na.min(a.iter().map(|x| x.abs()).sum::<f64>() * (1.0 + 1e-14));
        let nb = nb.min(b.iter().map(|x| x.abs()).sum::<f64>() * (1.0 + 1e-14));
        let mut rem = trunc + na * o.rem + nb * self.rem + self.rem * o.rem + err * (1.0 + 1e-10);
        if rem != 0.0 || err != 0.0 || (self.mag() > 0.0 && o.mag() > 0.0 && self.mig() * o.mig() < 1e-290) {
            rem = up(rem * (1.0 + 1e-14));
            if self.mag() * o.mag() < 1e-280 { rem += n as f64 * 1e-323; }
        }
        let lat = if self.lat == i32::MIN || o.lat == i32::MIN { i32::MIN } else { self.lat.saturating_add(o.lat) };
        let mut r = Tm { c, rem, lo: 0.0, hi: 0.0, lat };
        r.set_range(k);
        if same {
            let (m, g) = (self.mag(), self.mig());
            r.meet(dn0(g * g), up0(m * m));
        } else {
            let p = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi];
            let l = p.iter().cloned().fold(f64::INFINITY, f64::min);
            let h = p.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let (l, h) = (if l == 0.0 && (self.lo < 0.0 || o.lo < 0.0) { -1e-323 } else { dn0(l) }, if h == 0.0 && (self.hi > 0.0 || self.lo < 0.0) && (o.hi > 0.0 || o.lo < 0.0) { 1e-323 } else { up0(h) });
            r.meet(l, h);
        }
        r
    }

    /// polynomial product without error tracking
    fn pmul(a: &[f64], b: &[f64], k: &Ctx) -> Vec<f64> {
        let n = k.n;
        let mut c = vec![0.0f64; n];
        for i in 0..n {
            let ai = a[i];
            if ai == 0.0 { continue; }
            let lim = k.gstart[k.deg - k.grade[i] + 1];
            if k.nv == 1 { for j in 0..lim { c[i + j] += ai * b[j]; } } else {
                let row = &k.idx[i * n..i * n + lim];
                for j in 0..lim { c[row[j] as usize] += ai * b[j]; }
            }
        }
        c
    }

    pub fn div(&self, o: &Tm, k: &Ctx) -> R {
        let mig = o.mig();
        if mig == 0.0 { return Err(Fail::DivZero); }
        if !self.finite() || !o.finite() { return Err(Fail::Overflow); }
        if o.is_const() {
            let s = o.c[0];
            let mut err = 0.0f64;
            let c: Vec<f64> = self.c.iter().map(|x| { let q = x / s; let e = (q.mul_add(-s, *x) / s).abs(); err += e * (1.0 + 1e-10); q }).collect();
            let mut rem = self.rem / s.abs() + err;
            if rem != 0.0 { rem = up(rem); }
            let sub = self.mag() / s.abs() < 1e-280 && self.mag() > 0.0;
            if sub { rem += k.n as f64 * 1e-323; }
            let lat = if err == 0.0 && !sub && s.abs() == exp2i(lat_of(s)) && self.lat != i32::MIN { self.lat - lat_of(s) } else { i32::MIN };
            let mut r = Tm { c, rem, lo: 0.0, hi: 0.0, lat };
            r.set_range(k);
            let (x, y) = (self.lo / s, self.hi / s);
            r.meet(dn0(x.min(y)), up0(x.max(y)));
            if !r.finite() { return Err(Fail::Overflow); }
            return Ok(r);
        }
        // Newton for 1/o on a scaled polynomial (keeps coefficients in range)
        let b0 = o.c[0];
        if b0 == 0.0 { return Err(Fail::Wide); }
        let eps = o.width_nc() / b0.abs();
        if !(eps < 0.95) { return Err(Fail::Wide); }
        let e = ulp_lat(b0) + 52; // exponent of b0
        let bs: Vec<f64> = if e.abs() < 1000 { let s = exp2i(-e); o.c.iter().map(|x| x * s).collect() } else { o.scale2(-e).c };
        let mut y = vec![0.0; k.n];
        y[0] = 1.0 / bs[0];
        let mut d = 1;
        while d <= k.deg {
            let by = Tm::pmul(&bs, &y, k);
            let mut t: Vec<f64> = by.iter().map(|x| -x).collect();
            t[0] += 2.0;
            y = Tm::pmul(&y, &t, k);
            d *= 2;
        }
        // y0 once more in full
        let ea = { let m = self.mag(); if m == 0.0 { return Ok(Tm::cst(k, 0.0)); } ulp_lat(m) + 52 };
        let an = self.scale2(-ea);
        let bn = Tm { c: bs, rem: o.rem, lo: o.lo, hi: o.hi, lat: i32::MIN };
        let bn = { let s = o.scale2(-e); Tm { c: s.c, rem: s.rem, lo: s.lo, hi: s.hi, lat: bn.lat } };
        let mut q = Tm::pmul(&an.c, &y, k);
        let mut qt = Tm { c: q.clone(), rem: 0.0, lo: 0.0, hi: 0.0, lat: i32::MIN };
        qt.set_range(k);
        let bq = bn.mul(&qt, k);
        let mut res = an.sub(&bq, k);
        // one correction step for accuracy
        let corr = Tm::pmul(&res.c, &y, k);
        let mut changed = false;
        for i in 0..k.n { let z = q[i] + corr[i]; if z != q[i] { changed = true; } q[i] = z; }
        if changed {
            qt = Tm { c: q.clone(), rem: 0.0, lo: 0.0, hi: 0.0, lat: i32::MIN };
            qt.set_range(k);
            let bq = bn.mul(&qt, k);
            res = an.sub(&bq, k);
        }
        let g = bn.mig();
        let rem = up(res.mag() / g * (1.0 + 1e-14));
        qt.rem = rem;
        qt.set_range(k);
        let mut r = qt.scale2(ea - e);
        r.lat = i32::MIN;
        let p = [self.lo / o.lo, self.lo / o.hi, self.hi / o.lo, self.hi / o.hi];
        let l = p.iter().cloned().fold(f64::INFINITY, f64::min);
        let h = p.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        r.meet(dn0(l), up0(h));
        if !r.finite() { return Err(Fail::Overflow); }
        Ok(r)
    }

    /// sum_j f[j] delta^j + [-tail,tail], delta = self - c0 (constant term removed)
    fn compose(&self, f: &[f64], tail: f64, ferr: f64, k: &Ctx) -> Tm {
        let mut d = self.clone();
        d.lo -= d.c[0]; d.hi -= d.c[0];
        d.lo = dn(d.lo); d.hi = up(d.hi);
        d.c[0] = 0.0;
        d.lat = i32::MIN;
        let m = f.len();
        let mut r = Tm::cst(k, f[m - 1]);
        for j in (0..m - 1).rev() {
            r = r.mul(&d, k);
            let s = r.c[0] + f[j];
            let bb = s - r.c[0];
            let e = ((r.c[0] - (s - bb)) + (f[j] - bb)).abs();
            r.c[0] = s;
            r.rem = up(r.rem + e);
            r.set_range(k);
        }
        r.rem = up(r.rem + tail + ferr);
        r.set_range(k);
        r.lat = i32::MIN;
        r
    }

    pub fn exp(&self, k: &Ctx) -> R {
        if self.hi > 709.7827 { return Err(Fail::Overflow); }
        let c0 = self.c[0];
        let d = self.width_nc() + self.rem;
        if d > 3.0 {
            // exp(x) = exp(c0) * exp(delta/2^s)^(2^s)
            if d > 40.0 { return Err(Fail::Wide); }
        }
        let s = if d > 1.0 { (d.log2().ceil() as i32).max(0) } else { 0 };
        let sc = self.scale2(-s);
        let ds = up(d * exp2i(-s));
        let mut f = vec![1.0];
        let mut term = 1.0;
        let mut j = 1;
        let mut p = 1.0;
        loop {
            term /= j as f64;
            p *= ds;
            f.push(term);
            if p * term < 1e-18 || j > 60 { break; }
            j += 1;
        }
        let tail = p * ds * term / (j as f64 + 1.0) * ds.exp() * 1.01;
        let mut t = sc.clone();
        t.c[0] = 0.0; t.lo = dn(t.lo - sc.c[0]); t.hi = up(t.hi - sc.c[0]);
        t.lat = i32::MIN;
        let ferr: f64 = { let mut e = 0.0; let mut q = 1.0; for x in &f { e += x.abs() * q * 4.0 * U; q *= ds; } e - 4.0 * U };
        let ferr = ferr.max(0.0);
        let mut r = t.compose(&f, tail, ferr, k);
        for _ in 0..s { r = r.mul(&r.clone(), k); r.lat = i32::MIN; }
        // multiply with exp(c0)
        if c0 < -700.0 {
            let h = (c0 * 0.5).exp();
            // c0*0.5 exact
            let e1 = Tm { rem: h * 2.0 * U * 2.0, ..Tm::cst(k, h) };
            let e1 = with_rem_range(e1, k);
            r = r.mul(&e1, k).mul(&e1, k);
            r.lat = i32::MIN;
        } else if c0 > 700.0 {
            let h = (c0 - 600.0).exp();
            let g = 600f64.exp();
            // c0 - 600 is exact
            let e1 = with_rem_range(Tm { rem: h * 4.0 * U, ..Tm::cst(k, h) }, k);
            let e2 = with_rem_range(Tm { rem: g * 4.0 * U, ..Tm::cst(k, g) }, k);
            r = r.mul(&e1, k).mul(&e2, k);
        } else {
            let h = c0.exp();
            let e1 = with_rem_range(Tm { rem: if c0 == 0.0 { 0.0 } else { h * 2.0 * U }, ..Tm::cst(k, h) }, k);
            r = r.mul(&e1, k);
        }
        r.lat = i32::MIN;
        r.meet(dn(self.lo.exp() * (1.0 - 4.0 * U)).max(0.0), up(self.hi.exp() * (1.0 + 4.0 * U)));
        if !r.finite() { return Err(Fail::Overflow); }
        Ok(r)
    }

    pub fn ln(&self, k: &Ctx) -> R {
        if self.lo <= 0.0 { return Err(Fail::Domain); }
        let c0 = self.c[0];
        if c0 <= 0.0 { return Err(Fail::Wide); }
        let w = (self.width_nc() + self.rem) / c0;
        if !(w < 0.9) { return Err(Fail::Wide); }
        // ln(c0) + log1p(delta/c0)
        let e = self.div(&Tm::cst(k, c0), k)?;
        let w = up(w);
        let mut f = vec![0.0];
        let mut j = 1;
        let mut p = 1.0;
        let l0 = c0.ln();
        let scale = l0.abs().max(w);
        let mut ferr = 0.0;
        loop {
            p *= w;
            let cf = if j % 2 == 1 { 1.0 } else { -1.0 } / j as f64;
            f.push(cf);
            ferr += cf.abs() * p * U * if j > 2 { 1.0 } else { 0.0 };
            if p / (j as f64) < 1e-18 * scale || p < 1e-300 || j > 400 { break; }
            j += 1;
        }
        let tail = p * w / (j as f64 + 1.0) / (1.0 - w);
        let mut d = e.clone();
        // e.c[0] is exactly 1 (x/x)
        d.c[0] -= 1.0;
        d.set_range(k);
        d.lat = i32::MIN;
        let extra = d.c[0].abs();
        let mut r = d.compose(&f, tail + extra * 2.0, ferr, k);
        let s = r.c[0] + l0;
        let bb = s - r.c[0];
        let er = ((r.c[0] - (s - bb)) + (l0 - bb)).abs();
        r.c[0] = s;
        r.rem = up(r.rem + er + if l0 == 0.0 { 0.0 } else { half_ulp(l0) * 2.0 });
        r.set_range(k);
        r.meet(dn(self.lo.ln() - half_ulp(self.lo.ln()) * 2.0), up(self.hi.ln() + half_ulp(self.hi.ln()) * 2.0));
        r.lat = i32::MIN;
        if !r.finite() { return Err(Fail::Overflow); }
        Ok(r)
    }

    pub fn sqrt(&self, k: &Ctx) -> R {
        if self.hi == 0.0 && self.lo == 0.0 { return Ok(Tm::cst(k, 0.0)); }
        if self.lo < 0.0 { return Err(Fail::Domain); }
        if self.lo == 0.0 { return Err(Fail::Wide); }
        let c0 = self.c[0];
        if c0 <= 0.0 { return Err(Fail::Wide); }
        let w = (self.width_nc()) / c0;
        if !(w < 0.95) { return Err(Fail::Wide); }
        let mut e = ulp_lat(c0) + 52;
        if e % 2 != 0 { e -= 1; }
        let a = self.scale2(-e);
        // Newton for 1/sqrt on polynomials
        let mut y = vec![0.0; k.n];
        y[0] = 1.0 / a.c[0].sqrt();
        let mut d = 1;
        while d <= k.deg {
            let y2 = Tm::pmul(&y, &y, k);
            let ay2 = Tm::pmul(&a.c, &y2, k);
            let mut t: Vec<f64> = ay2.iter().map(|x| -0.5 * x).collect();
            t[0] += 1.5;
            y = Tm::pmul(&y, &t, k);
            d *= 2;
        }
        let mut q = Tm::pmul(&a.c, &y, k);
        let mk = |q: &Vec<f64>| { let mut t = Tm { c: q.clone(), rem: 0.0, lo: 0.0, hi: 0.0, lat: i32::MIN }; t.set_range(k); t };
        let mut qt = mk(&q);
        let mut res = a.sub(&qt.mul(&qt, k), k);
        let corr = Tm::pmul(&res.c, &y, k);
        for i in 0..k.n { q[i] += 0.5 * corr[i]; }
        qt = mk(&q);
        if qt.lo <= 0.0 { return Err(Fail::Wide); }
        res = a.sub(&qt.mul(&qt, k), k);
        let rem = up(res.mag() / (qt.lo + a.lo.max(0.0).sqrt() * (1.0 - 1e-15)) * (1.0 + 1e-14));
        qt.rem = rem;
        qt.set_range(k);
        let mut r = qt.scale2(e / 2);
        r.lat = i32::MIN;
        r.meet(dn(self.lo.sqrt()), up(self.hi.sqrt()));
        Ok(r)
    }

    pub fn sincos(&self, k: &Ctx) -> Result<(Tm, Tm), Fail> {
        let c0 = self.c[0];
        let w = self.width_nc() + self.rem;
        if w > 8.0 { return Err(Fail::Wide); }
        let mut d = self.clone();
        d.lo = dn(d.lo - c0); d.hi = up(d.hi - c0);
        d.c[0] = 0.0;
        d.lat = i32::MIN;
        let d2 = { let mut x = d.mul(&d.clone(), k); if x.lo < 0.0 { x.lo = 0.0; } x.lat = i32::MIN; x };
        // sin(d)/d and cos(d) as polynomials in d2
        let mut fs = vec![1.0];
        let mut fc = vec![1.0];
        let (mut a, mut b) = (1.0, 1.0);
        let mut p = 1.0;
        let w2 = up(w * w);
        let mut j = 1;
        loop {
            b /= -((2 * j - 1) as f64 * (2 * j) as f64);
            a /= -((2 * j) as f64 * (2 * j + 1) as f64);
            p *= w2;
            fc.push(b);
            fs.push(a);
            if p * b.abs() < 1e-18 || j > 60 { break; }
            j += 1;
        }
        let tail = up(p * b.abs() * w2 * 1.1);
        let mut fe = 0.0; let mut q = 1.0;
        for (i, x) in fc.iter().enumerate() { if i > 0 { fe += x.abs() * q * 4.0 * U; } q *= w2; }
        let horner = |f: &Vec<f64>| -> Tm {
            let m = f.len();
            let mut r = Tm::cst(k, f[m - 1]);
            for j in (0..m - 1).rev() {
                r = r.mul(&d2, k);
                r = r.add(&Tm::cst(k, f[j]), k);
                r.lat = i32::MIN;
            }
            r
        };
        let cosd = horner(&fc).inflate(tail + fe);
        let sind = horner(&fs).inflate(tail + fe).mul(&d, k);
        if c0 == 0.0 { let mut s = sind; s.lat = i32::MIN; let mut c = cosd; c.lat = i32::MIN; c.meet(-1.0, 1.0); s.meet(-1.0, 1.0); return Ok((s, c)); }
        let (s0, cc0) = (c0.sin(), c0.cos());
        let t = |v: f64| with_rem_range(Tm { rem: half_ulp(v) * 2.0, ..Tm::cst(k, v) }, k);
        let (s0, cc0) = (t(s0), t(cc0));
        let mut s = s0.mul(&cosd, k).add(&cc0.mul(&sind, k), k);
        let mut c = cc0.mul(&cosd, k).sub(&s0.mul(&sind, k), k);
        s.lat = i32::MIN; c.lat = i32::MIN;
        s.meet(-1.0, 1.0); c.meet(-1.0, 1.0);
        Ok((s, c))
    }

    pub fn sinhcosh(&self, k: &Ctx) -> Result<(Tm, Tm), Fail> {
        let c0 = self.c[0];
        if self.mag() > 700.0 { return Err(Fail::Overflow); }
        let w = self.width_nc() + self.rem;
        if w > 8.0 { return Err(Fail::Wide); }
        let mut d = self.clone();
        d.lo = dn(d.lo - c0); d.hi = up(d.hi - c0);
        d.c[0] = 0.0;
        d.lat = i32::MIN;
        let d2 = { let mut x = d.mul(&d.clone(), k); if x.lo < 0.0 { x.lo = 0.0; } x.lat = i32::MIN; x };
        let mut fs = vec![1.0];
        let mut fc = vec![1.0];
        let (mut a, mut b) = (1.0, 1.0);
        let mut p = 1.0;
        let w2 = up(w * w);
        let mut j = 1;
        loop {
            b /= (2 * j - 1) as f64 * (2 * j) as f64;
            a /= (2 * j) as f64 * (2 * j + 1) as f64;
            p *= w2;
            fc.push(b);
            fs.push(a);
            if p * b.abs() < 1e-18 || j > 60 { break; }
            j += 1;
        }
        let tail = up(p * b.abs() * w2 * 1.5);
        let mut fe = 0.0; let mut q = 1.0;
        for (i, x) in fc.iter().enumerate() { if i > 0 { fe += x.abs() * q * 4.0 * U; } q *= w2; }
        let horner = |f: &Vec<f64>| -> Tm {
            let m = f.len();
            let mut r = Tm::cst(k, f[m - 1]);
            for j in (0..m - 1).rev() { r = r.mul(&d2, k); r = r.add(&Tm::cst(k, f[j]), k); r.lat = i32::MIN; }
            r
        };
        let coshd = horner(&fc).inflate(tail + fe);
        let sinhd = horner(&fs).inflate(tail + fe).mul(&d, k);
        if c0 == 0.0 { let mut s = sinhd; s.lat = i32::MIN; let mut c = coshd; c.lat = i32::MIN; return Ok((s, c)); }
        let t = |v: f64| with_rem_range(Tm { rem: half_ulp(v) * 2.0, ..Tm::cst(k, v) }, k);
        let (s0, cc0) = (t(c0.sinh()), t(c0.cosh()));
        let mut s = s0.mul(&coshd, k).add(&cc0.mul(&sinhd, k), k);
        let mut c = cc0.mul(&coshd, k).add(&s0.mul(&sinhd, k), k);
        s.lat = i32::MIN; c.lat = i32::MIN;
        Ok((s, c))
    }

    /// |x| when the sign is not known: hull
    pub fn abs_hull(&self, k: &Ctx) -> Tm {
        let m = self.mag();
        let mut t = Tm::cst(k, m * 0.5);
        t.rem = up(m * 0.5);
        t.lo = 0.0;
        t.hi = m;
        t.lat = self.lat;
        t
    }
    pub fn from_range(k: &Ctx, lo: f64, hi: f64) -> Tm {
        let c = 0.5 * lo + 0.5 * hi;
        let mut t = Tm::cst(k, c);
        t.rem = up((hi - c).max(c - lo));
        t.lo = lo;
        t.hi = hi;
        t.lat = i32::MIN;
        t
    }
    pub fn powi(&self, n: i32, k: &Ctx) -> R {
        if n == 0 { return Ok(Tm::cst(k, 1.0)); }
        let mut m = n.unsigned_abs();
        let mut base = self.clone();
        base.lat = i32::MIN;
        let mut acc: Option<Tm> = None;
        let mut mults = 0.0;
        loop {
            if m & 1 == 1 { acc = Some(match acc { None => base.clone(), Some(a) => { mults += 1.0; a.mul(&base, k) } }); }
            m >>= 1;
            if m == 0 { break; }
            base = base.mul(&base.clone(), k);
            mults += 1.0;
        }
        let mut r = acc.unwrap();
        // the order of the multiplications in the checked program is not specified: n-1 roundings
        let nn = (n.unsigned_abs() as f64 - 1.0).max(mults);
        r = r.blur_ulp(0.5 * nn * 1.5);
        if n < 0 { r = Tm::cst(k, 1.0).div(&r, k)?; }
        if !r.finite() { return Err(Fail::Overflow); }
        Ok(r)
    }

    /// evaluate at t (approximately; for diagnostics and root finding)
    pub fn eval(&self, k: &Ctx, t: &[f64]) -> f64 {
        if k.nv <= 1 {
            let x = if k.nv == 1 { t[0] } else { 0.0 };
            let mut r = 0.0;
            for c in self.c.iter().rev() { r = r * x + c; }
            return r;
        }
        let mut r = 0.0;
        for (i, e) in k.exps.iter().enumerate() {
            let mut m = self.c[i];
            for v in 0..k.nv { m *= t[v].powi(e[v] as i32); }
            r += m;
        }
        r
    }
    /// Some(i) if only variable i occurs
    pub fn single_var(&self, k: &Ctx) -> Option<usize> {
        let mut v = None;
        for (i, e) in k.exps.iter().enumerate().skip(1) {
            if self.c[i] == 0.0 { continue; }
            for j in 0..k.nv {
                if e[j] > 0 { match v { None => v = Some(j), Some(x) if x == j => {}, _ => return None } }
            }
        }
        v
    }
}

fn with_rem_range(mut t: Tm, k: &Ctx) -> Tm { t.lat = i32::MIN; t.set_range(k); t }
fn dn0(x: f64) -> f64 { if x == 0.0 { 0.0 } else { dn(x) } }
fn up0(x: f64) -> f64 { if x == 0.0 { 0.0 } else { up(x) } }
fn grades(t: &Tm, k: &Ctx) -> Vec<f64> {
    let mut g = vec![0.0; k.deg + 1];
    for d in 0..=k.deg { for i in k.gstart[d]..k.gstart[d + 1] { g[d] += t.c[i].abs(); } }
    g
}
