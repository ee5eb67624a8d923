//! Native replays of the Kani harnesses: the same assertions on the real crate.  0 = holds, otherwise the number
//! of the failed assertion; a panic counts as a violation.
use puruspe as b;
use puruspe::utils::{frexp, ldexp, sign};
type T4 = (f64, f64, f64, f64);
fn parts(x: f64) -> (u64, i32) {
    let b = x.to_bits() & 0x7fff_ffff_ffff_ffff;
    let e = (b >> 52) as i32; let m = b & 0xf_ffff_ffff_ffff;
    if e == 0 { (m, 0) } else { (m | 1 << 52, e - 1) }
}
fn k_frexp(x: f64) -> u32 {
    let (m, e) = frexp(x);
    if !x.is_finite() { if !((x.is_nan() && m.is_nan()) || m.to_bits() == x.to_bits()) { return 1; } if e != 0 { return 2; } }
    else if x == 0.0 { if m != 0.0 || e != 0 { return 3; } }
    else {
        if !(m.abs() >= 0.5 && m.abs() < 1.0) { return 4; }
        if m.is_sign_negative() != x.is_sign_negative() { return 5; }
        let (mx, ex) = parts(x); let (mm, em) = parts(m);
        let sh = 52 - (63 - mx.leading_zeros() as i32);
        if mx << sh != mm || em as i64 + e as i64 != (ex - sh) as i64 { return 6; }
    }
    0
}
fn k_ldexp(x: f64, k: i32) -> u32 {
    let r = ldexp(x, k);
    if x.is_nan() { return !r.is_nan() as u32; }
    if x.is_infinite() || x == 0.0 { return (r.to_bits() != x.to_bits()) as u32; }
    if r.is_nan() || r.is_sign_negative() != x.is_sign_negative() { return 2; }
    let (m0, e0) = parts(x);
    let sh = m0.leading_zeros() as i32 - 11;
    let m = m0 << sh; let e = (e0 - sh) as i64 + k as i64;
    let want: u64 = if e + 1 >= 0x7ff { 0x7ff0_0000_0000_0000 }
        else if e >= 0 { (((e + 1) as u64) << 52) | (m & 0xf_ffff_ffff_ffff) }
        else if e < -54 { 0 }
        else { let s = (-e) as u32; let q = m >> s; let rem = m & ((1u64 << s) - 1); let half = 1u64 << (s - 1); q + (rem > half || (rem == half && q & 1 == 1)) as u64 };
    if r.to_bits() & 0x7fff_ffff_ffff_ffff == want { 0 } else { 3 }
}
fn k_sign(a: f64, b: f64) -> u32 {
    let r = sign(a, b);
    if a.is_nan() { return !r.is_nan() as u32; }
    if r.to_bits() & 0x7fff_ffff_ffff_ffff != a.to_bits() & 0x7fff_ffff_ffff_ffff { return 2; }
    if r.is_sign_negative() != b.is_sign_negative() { 3 } else { 0 }
}
fn eq4(a: T4, c: T4) -> bool { a.0.to_bits() == c.0.to_bits() && a.1.to_bits() == c.1.to_bits() && a.2.to_bits() == c.2.to_bits() && a.3.to_bits() == c.3.to_bits() }
fn eq2(a: (f64, f64), c: (f64, f64)) -> bool { a.0.to_bits() == c.0.to_bits() && a.1.to_bits() == c.1.to_bits() }
fn same(a: (f64, f64), c: (f64, f64)) -> bool { a.0.to_bits() == c.0.to_bits() && a.1.to_bits() == c.1.to_bits() }
macro_rules! t { ($n:expr, $e:expr) => { if !$e { return $n; } }; }
macro_rules! history {
    ($name:ident, $ty:ident, $call:ident, $want:path, $eq:path) => {
        #[allow(non_snake_case)]
        fn $name(v: &[u64]) -> u32 {
            let g = |i: usize| (f64::from_bits(v[i]), f64::from_bits(v[i + 1]));
            let mut c = match v[0] as u8 % 3 { 0 => b::$ty::new(), 1 => b::$ty::default(), _ => b::$ty::with_capacity(3) };
            t!(1, c.is_empty() && c.len() == 0);
            let (a1, a2, a3) = (g(1), g(3), g(5));
            let op = v[7] as u8;
            let p = g(8);
            t!(2, !c.contains(a1.0, a1.1) && c.get(a1.0, a1.1).is_none());
            t!(3, $eq(c.$call(a1.0, a1.1), $want(a1.0, a1.1)));
            t!(4, $eq(c.$call(a2.0, a2.1), $want(a2.0, a2.1)));
            let d12 = !same(a1, a2);
            t!(5, c.len() == 1 + d12 as usize && !c.is_empty());
            t!(6, c.contains(a1.0, a1.1) && c.contains(a2.0, a2.1));
            t!(7, c.contains(a3.0, a3.1) == (same(a3, a1) || same(a3, a2)));
            let pin = same(p, a1) || same(p, a2);
            t!(20, c.contains(p.0, p.1) == pin);
            if let Some(v) = c.get(p.0, p.1) { t!(21, pin && $eq(*v, $want(p.0, p.1))); } else { t!(22, !pin); }
            let (mut k1, mut k2) = (true, true);
            match op {
                0 => {}
                1 => { c.clear(); k1 = false; k2 = false; }
                2 => c.shrink_to_fit(),
                3 => c.reserve(2),
                4 => {
                    let mut ok = true;
                    c.retain(|k, v| { ok &= $eq(v, $want(k.0, k.1)); !same(k, a1) });
                    t!(8, ok);
                    k1 = false; k2 = d12;
                }
                _ => {
                    let e = c.clone();
                    t!(9, e.len() == c.len() && e == c);
                    c.clear();
                    t!(10, e.contains(a1.0, a1.1) && e.contains(a2.0, a2.1));
                    c = e;
                }
            }
            t!(11, c.contains(a1.0, a1.1) == k1 && c.contains(a2.0, a2.1) == k2);
            t!(12, c.get(a1.0, a1.1).is_some() == k1);
            if let Some(v) = c.get(a2.0, a2.1) { t!(13, k2 && $eq(*v, $want(a2.0, a2.1))); } else { t!(14, !k2); }
            t!(15, c.len() == (k1 as usize) + ((k2 && d12) as usize) && c.is_empty() == (c.len() == 0));
            let pin = (k1 && same(p, a1)) || (k2 && same(p, a2));
            t!(23, c.contains(p.0, p.1) == pin && c.get(p.0, p.1).is_some() == pin);
            t!(16, $eq(c.$call(a3.0, a3.1), $want(a3.0, a3.1)));
            t!(17, c.contains(a3.0, a3.1));
            t!(18, $eq(c.$call(a1.0, a1.1), $want(a1.0, a1.1)));
            t!(19, $eq(c.$call(a3.0, a3.1), $want(a3.0, a3.1)));
            0
        }
    };
}
history!(h_jy, CachedBesselJY, besseljy, b::besseljy, eq4);
history!(h_ik, CachedBesselIK, besselik, b::besselik, eq4);
history!(h_jnuynu, CachedJnuYnu, Jnu_Ynu, b::Jnu_Ynu, eq2);
history!(h_inuknu, CachedInuKnu, Inu_Knu, b::Inu_Knu, eq2);

pub fn call(name: &str, a: &[u64]) -> Option<u32> {
    let mut v = a.to_vec();
    let dflt = [0u64, 0x3ff8000000000000, 0x4004000000000000, 0x4000000000000000, 0x4008000000000000, 0x3fff000000000000, 0x4014000000000000, 0, 0, 0];
    while v.len() < 10 { v.push(dflt[v.len()]); }
    let f = |i: usize| f64::from_bits(v[i]);
    // outside the domain where the direct call itself works there is nothing to compare
    Some(match name {
        "k_frexp_all" => k_frexp(f(0)),
        "k_roundtrip" => { let (m, e) = frexp(f(0)); (!f(0).is_nan() && ldexp(m, e) != f(0)) as u32 }
        "k_ldexp_all" => k_ldexp(f(0), v[1] as i32),
        "k_sign_all" => k_sign(f(0), f(1)),
        "k_proj_jy" => match std::panic::catch_unwind(|| b::besseljy(f(0), f(1))) { Ok(r) => !eq2(b::Jnu_Ynu(f(0), f(1)), (r.0, r.1)) as u32, Err(_) => 0 },
        "k_proj_ik" => match std::panic::catch_unwind(|| b::besselik(f(0), f(1))) { Ok(r) => !eq2(b::Inu_Knu(f(0), f(1)), (r.0, r.1)) as u32, Err(_) => 0 },
        "k_cache_jy" | "k_cache_ik" | "k_cache_jnuynu" | "k_cache_inuknu" => {
            for i in [1usize, 3, 5] {
                let ok = std::panic::catch_unwind(|| { b::besseljy(f(i), f(i + 1)); b::besselik(f(i), f(i + 1)); }).is_ok();
                if !ok { return Some(0); }
            }
            match name { "k_cache_jy" => h_jy(&v), "k_cache_ik" => h_ik(&v), "k_cache_jnuynu" => h_jnuynu(&v), _ => h_inuknu(&v) }
        }
        _ => return None,
    })
}
