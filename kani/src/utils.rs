//! Harnesses against the real crate (path dependency): frexp, ldexp, sign for every bit pattern.
#![allow(dead_code)]
#[cfg(kani)]
mod h {
    use puruspe::utils::{frexp, ldexp, sign};
    /// x = m * 2^(e-1074) for finite x, m < 2^53
    fn parts(x: f64) -> (u64, i32) {
        let b = x.to_bits() & 0x7fff_ffff_ffff_ffff;
        let e = (b >> 52) as i32; let m = b & 0xf_ffff_ffff_ffff;
        if e == 0 { (m, 0) } else { (m | 1 << 52, e - 1) }
    }
    fn any_f() -> f64 { f64::from_bits(kani::any()) }
    #[kani::proof]
    #[kani::unwind(4)]
    fn frexp_all() {
        let x = any_f();
        let (m, e) = frexp(x);
        check_frexp(x, m, e);
    }
    fn check_frexp(x: f64, m: f64, e: i32) {
        if !x.is_finite() {
            // nothing to decompose: the value comes back, and no exponent is invented
            assert!((x.is_nan() && m.is_nan()) || m.to_bits() == x.to_bits());
            assert!(e == 0);
        } else if x == 0.0 {
            assert!(m == 0.0 && e == 0);
        } else {
            assert!(m.abs() >= 0.5 && m.abs() < 1.0);
            assert!(m.is_sign_negative() == x.is_sign_negative());
            // m * 2^e == x, in integers
            let (mx, ex) = parts(x);
            let (mm, em) = parts(m);
            let sh = 52 - (63 - mx.leading_zeros() as i32);
            assert!(mx << sh == mm);
            assert!(em + e == ex - sh);
        }
    }
    #[kani::proof]
    #[kani::unwind(4)]
    fn ldexp_all() {
        let x = any_f(); let k: i32 = kani::any();
        let r = ldexp(x, k);
        check_ldexp(x, k, r);
    }
    /// round-to-nearest-even of x * 2^k, computed on integers
    fn check_ldexp(x: f64, k: i32, r: f64) {
        if x.is_nan() { assert!(r.is_nan()); return; }
        if x.is_infinite() || x == 0.0 { assert!(r.to_bits() == x.to_bits()); return; }
        assert!(r.is_sign_negative() == x.is_sign_negative() && !r.is_nan());
        let (m0, e0) = parts(x);
        let sh = m0.leading_zeros() as i32 - 11;
        let m = m0 << sh; // 2^52 <= m < 2^53
        let e = (e0 - sh) as i64 + k as i64; // value = m * 2^(e-1074)
        let want: u64 = if e + 1 >= 0x7ff {
            0x7ff0_0000_0000_0000
        } else if e >= 0 {
            (((e + 1) as u64) << 52) | (m & 0xf_ffff_ffff_ffff)
        } else if e < -54 {
            0
        } else {
            let s = (-e) as u32; // 1..=54
            let q = m >> s; let rem = m & ((1u64 << s) - 1); let half = 1u64 << (s - 1);
            q + (rem > half || (rem == half && q & 1 == 1)) as u64
        };
        assert!(r.to_bits() & 0x7fff_ffff_ffff_ffff == want);
    }
    #[kani::proof]
    #[kani::unwind(4)]
    fn roundtrip() {
        let x = any_f();
        kani::assume(!x.is_nan());
        let (m, e) = frexp(x);
        let r = ldexp(m, e);
        assert!(r == x);
    }
    #[kani::proof]
    #[kani::unwind(4)]
    fn sign_all() {
        let a = any_f(); let b = any_f();
        let r = sign(a, b);
        if a.is_nan() { assert!(r.is_nan()); return; }
        assert!(r.to_bits() & 0x7fff_ffff_ffff_ffff == a.to_bits() & 0x7fff_ffff_ffff_ffff);
        assert!(r.is_sign_negative() == b.is_sign_negative());
    }
    #[kani::proof]
    #[kani::unwind(4)]
    fn witness_frexp() { let x = any_f(); kani::assume(x.is_finite() && x != 0.0 && x.abs() < 1e-310); let _ = frexp(x); assert!(false, "WITNESS"); }
    #[kani::proof]
    #[kani::unwind(4)]
    fn witness_ldexp() { let x = any_f(); let k: i32 = kani::any(); kani::assume(x.is_normal() && k < -1100); let _ = ldexp(x, k); assert!(false, "WITNESS"); }
    #[kani::proof]
    #[kani::unwind(4)]
    fn witness_sign() { let x = any_f(); let _ = sign(x, any_f()); assert!(false, "WITNESS"); }
}
