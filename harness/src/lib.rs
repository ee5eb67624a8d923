//! Entry points for the symbolic executor (`e_*`, compiled to LLVM IR together with the real crate)
//! and for the native replay server.  Only the public API of puruspe is used.
#![allow(non_snake_case)]

macro_rules! entries {
    ($( $name:ident ( $($a:ident : $t:ident),* ) -> $n:literal = $body:expr ;)*) => {
        pub mod sym {
            $( #[no_mangle] pub extern "C" fn $name($($a: $t,)* out: *mut f64) {
                let r: [f64; $n] = $body;
                let mut i = 0; while i < $n { unsafe { *out.add(i) = r[i]; } i += 1; }
            } )*
        }
        pub mod nat {
            pub type F = fn(&[u64]) -> Vec<f64>;
            $( pub fn $name(args: &[u64]) -> Vec<f64> {
                let mut _it = args.iter();
                $( let $a: $t = super::conv::$t(*_it.next().expect("arg")); )*
                let r: [f64; $n] = $body;
                r.to_vec()
            } )*
            pub fn lookup(n: &str) -> Option<F> {
                match n { $( stringify!($name) => Some($name as F), )* _ => None }
            }
        }
    };
}

pub mod conv {
    pub fn f64(b: u64) -> f64 { f64::from_bits(b) }
    pub fn u32(b: u64) -> u32 { b as u32 }
    pub fn i32(b: u64) -> i32 { b as i32 }
    pub fn usize(b: u64) -> usize { b as usize }
}

entries! {
    e_gamma(x: f64) -> 1 = [puruspe::gamma(x)];
    e_ln_gamma(x: f64) -> 1 = [puruspe::ln_gamma(x)];
    e_gammp(a: f64, x: f64) -> 1 = [puruspe::gammp(a, x)];
    e_gammq(a: f64, x: f64) -> 1 = [puruspe::gammq(a, x)];
    e_gammpq(a: f64, x: f64) -> 2 = [puruspe::gammp(a, x), puruspe::gammq(a, x)];
    e_gamma_rec(x: f64) -> 2 = [puruspe::gamma(x), puruspe::gamma(x + 1.0)];
    e_invgammp_rt(p: f64, a: f64) -> 2 = { let x = puruspe::invgammp(p, a); [x, puruspe::gammp(a, x)] };
    e_invbetai_rt(p: f64, a: f64, b: f64) -> 2 = { let x = puruspe::invbetai(p, a, b); [x, puruspe::betai(a, b, x)] };
    e_beta_sym(z: f64, w: f64) -> 2 = [puruspe::beta(z, w), puruspe::beta(w, z)];
    e_betai_refl(a: f64, b: f64, x: f64) -> 2 = [puruspe::betai(a, b, x), puruspe::betai(b, a, 1.0 - x)];
    e_betai_rec(a: f64, b: f64, x: f64) -> 3 = [puruspe::betai(a, b, x), puruspe::betai(a + 1.0, b, x), puruspe::beta(a, b)];
    e_erf_pm(x: f64) -> 2 = [puruspe::erf(x), puruspe::erf(-x)];
    e_erf_c(x: f64) -> 2 = [puruspe::erf(x), puruspe::erfc(x)];
    e_inverf_rt(p: f64) -> 2 = { let x = puruspe::inverf(p); [x, puruspe::erf(x)] };
    e_inverfc_rt(p: f64) -> 2 = { let x = puruspe::inverfc(p); [x, puruspe::erfc(x)] };
    e_dawson_pm(x: f64) -> 2 = [puruspe::dawson(x), puruspe::dawson(-x)];
    e_Jn_pm(n: u32, x: f64) -> 2 = [puruspe::Jn(n, x), puruspe::Jn(n, -x)];
    e_In_pm(n: u32, x: f64) -> 2 = [puruspe::In(n, x), puruspe::In(n, -x)];
    e_JY(n: u32, x: f64) -> 4 = [puruspe::Jn(n, x), puruspe::Yn(n, x), puruspe::Jn(n + 1, x), puruspe::Yn(n + 1, x)];
    e_IK(n: u32, x: f64) -> 4 = [puruspe::In(n, x), puruspe::Kn(n, x), puruspe::In(n + 1, x), puruspe::Kn(n + 1, x)];
    e_jy_rec(nu: f64, x: f64) -> 8 = { let r = puruspe::besseljy(nu, x); let s = puruspe::besseljy(nu + 1.0, x); [r.0, r.1, r.2, r.3, s.0, s.1, s.2, s.3] };
    e_ik_rec(nu: f64, x: f64) -> 8 = { let r = puruspe::besselik(nu, x); let s = puruspe::besselik(nu + 1.0, x); [r.0, r.1, r.2, r.3, s.0, s.1, s.2, s.3] };
    e_faddeeva_sym(x: f64, y: f64) -> 4 = { let r = puruspe::faddeeva(x, y); let s = puruspe::faddeeva(-x, y); [r.0, r.1, s.0, s.1] };
    e_invgammp(p: f64, a: f64) -> 1 = [puruspe::invgammp(p, a)];
    e_beta(z: f64, w: f64) -> 1 = [puruspe::beta(z, w)];
    e_betai(a: f64, b: f64, x: f64) -> 1 = [puruspe::betai(a, b, x)];
    e_invbetai(p: f64, a: f64, b: f64) -> 1 = [puruspe::invbetai(p, a, b)];
    e_erf(x: f64) -> 1 = [puruspe::erf(x)];
    e_erfc(x: f64) -> 1 = [puruspe::erfc(x)];
    e_erfcx(x: f64) -> 1 = [puruspe::erfcx(x)];
    e_inverf(p: f64) -> 1 = [puruspe::inverf(p)];
    e_inverfc(p: f64) -> 1 = [puruspe::inverfc(p)];
    e_dawson(x: f64) -> 1 = [puruspe::dawson(x)];
    e_faddeeva(x: f64, y: f64) -> 2 = { let r = puruspe::faddeeva(x, y); [r.0, r.1] };
    e_Jn(n: u32, x: f64) -> 1 = [puruspe::Jn(n, x)];
    e_Yn(n: u32, x: f64) -> 1 = [puruspe::Yn(n, x)];
    e_In(n: u32, x: f64) -> 1 = [puruspe::In(n, x)];
    e_Kn(n: u32, x: f64) -> 1 = [puruspe::Kn(n, x)];
    e_besseljy(nu: f64, x: f64) -> 4 = { let r = puruspe::besseljy(nu, x); [r.0, r.1, r.2, r.3] };
    e_besselik(nu: f64, x: f64) -> 4 = { let r = puruspe::besselik(nu, x); [r.0, r.1, r.2, r.3] };
    e_Jnu_Ynu(nu: f64, x: f64) -> 2 = { let r = puruspe::Jnu_Ynu(nu, x); [r.0, r.1] };
    e_Inu_Knu(nu: f64, x: f64) -> 2 = { let r = puruspe::Inu_Knu(nu, x); [r.0, r.1] };
    e_factorial(n: usize) -> 1 = [puruspe::utils::factorial(n)];
    e_frexp(x: f64) -> 2 = { let r = puruspe::utils::frexp(x); [r.0, r.1 as f64] };
    e_ldexp(x: f64, k: i32) -> 1 = [puruspe::utils::ldexp(x, k)];
    e_sign(a: f64, b: f64) -> 1 = [puruspe::utils::sign(a, b)];
    e_lambert_w0(x: f64) -> 1 = [puruspe::lambert_w0(x)];
    e_lambert_wm1(x: f64) -> 1 = [puruspe::lambert_wm1(x)];
    e_sp_lambert_w0(x: f64) -> 1 = [puruspe::sp_lambert_w0(x)];
    e_sp_lambert_wm1(x: f64) -> 1 = [puruspe::sp_lambert_wm1(x)];
}
