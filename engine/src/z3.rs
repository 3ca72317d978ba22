//! Minimal binding to the Z3 C API and translation of expressions.
use crate::expr::{Arena, FxMap, Id, Op};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: *const c_void);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    memo: FxMap<Id, P>,
    vars: FxMap<Id, ()>,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, std::ptr::null());
            let s = if std::env::var_os("CEDSYM_FULLZ3").is_some() { Z3_mk_solver(c) } else { Z3_mk_simple_solver(c) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as *const c_char);
            Z3_params_set_uint(c, p, k, timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, memo: Default::default(), vars: Default::default() }
        }
    }
    unsafe fn b2v(&self, b: P) -> P {
        let s = Z3_mk_bv_sort(self.c, 1);
        Z3_mk_ite(self.c, b, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
    }
    unsafe fn num(&self, v: u128, w: u16) -> P {
        let s = Z3_mk_bv_sort(self.c, w as c_uint);
        if v <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.c, v as u64, s)
        } else {
            let t = format!("{}\0", v);
            Z3_mk_numeral(self.c, t.as_ptr() as *const c_char, s)
        }
    }
    pub fn tr(&mut self, ar: &Arena, e: Id) -> P {
        if let Some(p) = self.memo.get(&e) {
            return *p;
        }
        let n = *ar.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    self.vars.insert(e, ());
                    let s = Z3_mk_bv_sort(c, n.w as c_uint);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, e as c_int), s)
                }
                Op::Ite => {
                    let k = self.tr(ar, n.a);
                    let a = self.tr(ar, n.b);
                    let b = self.tr(ar, n.c);
                    let one = self.num(1, 1);
                    Z3_mk_ite(c, Z3_mk_eq(c, k, one), a, b)
                }
                Op::Extract => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_extract(c, (n.k as u32) + n.w as u32 - 1, n.k as u32, a)
                }
                Op::ZExt => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::Lut => {
                    let v = self.tr(ar, n.a);
                    let vw = ar.w(n.a);
                    let lo = ar.var_info(n.a).lo;
                    let t = ar.luts[n.k as usize].clone();
                    // runs of equal values, from the top
                    let mut acc = self.num(*t.last().unwrap() as u128, n.w);
                    let mut i = t.len() - 1;
                    while i > 0 {
                        if t[i - 1] != t[i] {
                            // index < i -> t[i-1]
                            let b = self.num(lo as u128 + i as u128, vw);
                            let x = self.num(t[i - 1] as u128, n.w);
                            // nested: values below i handled by inner choice, so build bottom-up
                            acc = Z3_mk_ite(c, Z3_mk_bvult(c, v, b), x, acc);
                            // inner runs must be tested first: wrap
                        }
                        i -= 1;
                    }
                    acc
                }
                _ => {
                    let a = self.tr(ar, n.a);
                    let b = self.tr(ar, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        Op::Eq => self.b2v(Z3_mk_eq(c, a, b)),
                        Op::Ult => self.b2v(Z3_mk_bvult(c, a, b)),
                        Op::Ule => self.b2v(Z3_mk_bvule(c, a, b)),
                        Op::Slt => self.b2v(Z3_mk_bvslt(c, a, b)),
                        Op::Sle => self.b2v(Z3_mk_bvsle(c, a, b)),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.memo.insert(e, r);
        r
    }
    /// doms: (variable expression, allowed values as ranges); cons: boolean expressions that must be 1.
    pub fn check(&mut self, ar: &Arena, doms: &[(Id, Vec<(u64, u64)>)], cons: &[Id]) -> (Res, Vec<u64>) {
        unsafe {
            let c = self.c;
            let mut asserts: Vec<P> = vec![];
            for (v, rs) in doms {
                let x = self.tr(ar, *v);
                let w = ar.w(*v);
                let mut alts: Vec<P> = vec![];
                for (lo, hi) in rs {
                    if lo == hi {
                        alts.push(Z3_mk_eq(c, x, self.num(*lo as u128, w)));
                    } else {
                        let l = Z3_mk_bvule(c, self.num(*lo as u128, w), x);
                        let h = Z3_mk_bvule(c, x, self.num(*hi as u128, w));
                        let both = [l, h];
                        alts.push(Z3_mk_and(c, 2, both.as_ptr()));
                    }
                }
                if alts.len() == 1 {
                    asserts.push(alts[0]);
                } else {
                    asserts.push(Z3_mk_or(c, alts.len() as c_uint, alts.as_ptr()));
                }
            }
            let one = self.num(1, 1);
            for e in cons {
                let x = self.tr(ar, *e);
                asserts.push(Z3_mk_eq(c, x, one));
            }
            Z3_solver_push(c, self.s);
            for a in &asserts {
                Z3_solver_assert(c, self.s, *a);
            }
            let r = Z3_solver_check(c, self.s);
            let mut vals = vec![];
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    for (v, _) in doms {
                        let x = self.tr(ar, *v);
                        let mut out: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(c, m, x, true, &mut out);
                        assert!(ok);
                        let mut u = 0u64;
                        assert!(Z3_get_numeral_uint64(c, out, &mut u));
                        vals.push(u);
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, self.s, 1);
            let ec = Z3_get_error_code(c);
            if ec != 0 {
                eprintln!("z3 error code {}", ec);
                return (Res::Unknown, vec![]);
            }
            (res, vals)
        }
    }
}

#[allow(dead_code)]
fn _unused(_: Op) {}
