//! Harnesses appended to a copy of the crate in which HashMap is the bounded model `crate::vmap`.
//! The numeric kernels are replaced by an injective function of the argument bits, so a stale, shared or
//! mixed-up entry always shows.
use crate::bessel as b;
type T4 = (f64, f64, f64, f64);
fn f(z: u64, tag: u64) -> f64 { f64::from_bits(z.rotate_left(7) ^ tag) }
pub fn stub_jy(nu: f64, x: f64) -> T4 { (f(nu.to_bits(), 1), f(x.to_bits(), 2), f(nu.to_bits(), 4), f(x.to_bits(), 8)) }
pub fn stub_ik(nu: f64, x: f64) -> T4 { (f(nu.to_bits(), 16), f(x.to_bits(), 32), f(nu.to_bits(), 64), f(x.to_bits(), 128)) }
fn eq4(a: T4, c: T4) -> bool { a.0.to_bits() == c.0.to_bits() && a.1.to_bits() == c.1.to_bits() && a.2.to_bits() == c.2.to_bits() && a.3.to_bits() == c.3.to_bits() }
fn eq2(a: (f64, f64), c: (f64, f64)) -> bool { a.0.to_bits() == c.0.to_bits() && a.1.to_bits() == c.1.to_bits() }
fn two_jy(nu: f64, x: f64) -> (f64, f64) { let r = stub_jy(nu, x); (r.0, r.1) }
fn two_ik(nu: f64, x: f64) -> (f64, f64) { let r = stub_ik(nu, x); (r.0, r.1) }
fn arg() -> (f64, f64) {
    let n: u64 = kani::any(); let x: u64 = kani::any();
    let (n, x) = (f64::from_bits(n), f64::from_bits(x));
    kani::assume(n >= 0.0 && n < 64.0 && x >= 0.5 && x < 128.0);
    (n, x)
}
/// any two bit patterns at all: a key to look up, never computed
fn probe() -> (f64, f64) { let n: u64 = kani::any(); let x: u64 = kani::any(); (f64::from_bits(n), f64::from_bits(x)) }
fn same(a: (f64, f64), c: (f64, f64)) -> bool { a.0.to_bits() == c.0.to_bits() && a.1.to_bits() == c.1.to_bits() }
macro_rules! history {
    ($name:ident, $wit:ident, $ty:ident, $call:ident, $want:path, $eq:path) => {
        #[allow(unused)]
        fn $call(witness: bool) {
            let mut c = match kani::any::<u8>() % 3 { 0 => b::$ty::new(), 1 => b::$ty::default(), _ => b::$ty::with_capacity(3) };
            assert!(c.is_empty() && c.len() == 0);
            let (a1, a2, a3) = (arg(), arg(), arg());
            let op: u8 = kani::any();
            kani::assume(op < 6);
            let p = probe();
            assert!(!c.contains(a1.0, a1.1) && c.get(a1.0, a1.1).is_none());
            assert!($eq(c.$call(a1.0, a1.1), $want(a1.0, a1.1)));
            assert!($eq(c.$call(a2.0, a2.1), $want(a2.0, a2.1)));
            let d12 = !same(a1, a2);
            assert!(c.len() == 1 + d12 as usize && !c.is_empty());
            assert!(c.contains(a1.0, a1.1) && c.contains(a2.0, a2.1));
            assert!(c.contains(a3.0, a3.1) == (same(a3, a1) || same(a3, a2)));
            let pin = same(p, a1) || same(p, a2);
            assert!(c.contains(p.0, p.1) == pin);
            if let Some(v) = c.get(p.0, p.1) { assert!(pin && $eq(*v, $want(p.0, p.1))); } else { assert!(!pin); }
            // maintenance
            let (mut k1, mut k2) = (true, true);
            match op {
                0 => {}
                1 => { c.clear(); k1 = false; k2 = false; }
                2 => c.shrink_to_fit(),
                3 => c.reserve(2),
                4 => { // drop exactly the entry of a1
                    c.retain(|k, v| { assert!($eq(v, $want(k.0, k.1))); !same(k, a1) });
                    k1 = false; k2 = d12;
                }
                _ => { // a copy behaves as the original
                    let e = c.clone();
                    assert!(e.len() == c.len());
                    c.clear();
                    assert!(e.contains(a1.0, a1.1) && e.contains(a2.0, a2.1));
                    c = e;
                }
            }
            assert!(c.contains(a1.0, a1.1) == k1 && c.contains(a2.0, a2.1) == k2);
            assert!(c.get(a1.0, a1.1).is_some() == k1);
            if let Some(v) = c.get(a2.0, a2.1) { assert!(k2 && $eq(*v, $want(a2.0, a2.1))); } else { assert!(!k2); }
            assert!(c.len() == (k1 as usize) + ((k2 && d12) as usize) && c.is_empty() == (c.len() == 0));
            let pin = (k1 && same(p, a1)) || (k2 && same(p, a2));
            assert!(c.contains(p.0, p.1) == pin && c.get(p.0, p.1).is_some() == pin);
            assert!($eq(c.$call(a3.0, a3.1), $want(a3.0, a3.1)));
            assert!(c.contains(a3.0, a3.1));
            assert!($eq(c.$call(a1.0, a1.1), $want(a1.0, a1.1)));
            assert!($eq(c.$call(a3.0, a3.1), $want(a3.0, a3.1)));
            if witness { assert!(false, "WITNESS"); }
        }
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(crate::bessel::besseljy, stub_jy)]
        #[kani::stub(crate::bessel::besselik, stub_ik)]
        fn $name() { $call(false); }
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(crate::bessel::besseljy, stub_jy)]
        #[kani::stub(crate::bessel::besselik, stub_ik)]
        fn $wit() { $call(true); }
    };
}
history!(cache_jy, witness_jy, CachedBesselJY, besseljy, stub_jy, eq4);
history!(cache_ik, witness_ik, CachedBesselIK, besselik, stub_ik, eq4);
history!(cache_jnuynu, witness_jnuynu, CachedJnuYnu, Jnu_Ynu, two_jy, eq2);
history!(cache_inuknu, witness_inuknu, CachedInuKnu, Inu_Knu, two_ik, eq2);

#[kani::proof]
#[kani::stub(crate::bessel::besseljy, stub_jy)]
fn proj_jy() { let (n, x) = (f64::from_bits(kani::any()), f64::from_bits(kani::any())); kani::assume(n >= 0.0 && n < 1000.0 && x > 0.0 && x < 1e4); assert!(eq2(b::Jnu_Ynu(n, x), two_jy(n, x))); }
#[kani::proof]
#[kani::stub(crate::bessel::besselik, stub_ik)]
fn proj_ik() { let (n, x) = (f64::from_bits(kani::any()), f64::from_bits(kani::any())); kani::assume(n >= 0.0 && n < 1000.0 && x > 0.0 && x < 1e4); assert!(eq2(b::Inu_Knu(n, x), two_ik(n, x))); }
#[kani::proof]
#[kani::stub(crate::bessel::besseljy, stub_jy)]
fn witness_proj() { let (n, x) = (f64::from_bits(kani::any()), f64::from_bits(kani::any())); kani::assume(n >= 0.0 && n < 1000.0 && x > 0.0 && x < 1e4); let _ = b::Jnu_Ynu(n, x); assert!(false, "WITNESS"); }
