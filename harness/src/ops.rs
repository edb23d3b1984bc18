//! Table of the public operations of the three integer types in all their
//! forms, each with its reference semantics on the model.

use crate::model::M;
use apint::{ApInt, BitWidth, Error, ErrorKind, Int, UInt, Width};
use std::cmp::Ordering;

/// Scalar results.
#[derive(Debug, Clone, PartialEq)]
pub enum S {
    Unit,
    Bool(bool),
    U(u128),
    I(i128),
    N(usize),
    Ord(Option<Ordering>),
}

/// Outcome of running an operation: state of the operands afterwards (`a` is
/// also the result of value-producing forms; `None` when consumed).
pub struct Res {
    pub a: Option<ApInt>,
    pub b: Option<ApInt>,
    pub out: Result<S, Error>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum MErr {
    Width(usize, usize),
    DivZero(&'static str, M),
    Shift(usize, usize),
    Bit(usize, usize),
    Trunc { target: usize, current: usize },
    Ext { target: usize, current: usize },
    Unrep(&'static str, M),
}

#[derive(Debug, Clone)]
pub struct MRes {
    pub a: M,
    pub b: M,
    pub out: Result<S, MErr>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum G {
    Ring,
    UDiv,
    SDiv,
    Shift,
    Bitw,
    Bit,
    Pred,
    Cmp,
    Cast,
    Prim,
}

/// What the third argument means.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum K {
    Un,
    Bin,
    Amt,
    Pos,
    Wid,
}

pub struct Op {
    pub name: &'static str,
    pub sem: &'static str,
    pub g: G,
    pub k: K,
    /// std operator: panics instead of returning an error
    pub oper: bool,
    pub run: fn(ApInt, ApInt, usize) -> Res,
    pub model: fn(&M, &M, usize) -> MRes,
}

pub trait Ty: Sized {
    fn mk(a: ApInt) -> Self;
    fn un(self) -> ApInt;
}
impl Ty for ApInt {
    fn mk(a: ApInt) -> Self {
        a
    }
    fn un(self) -> ApInt {
        self
    }
}
impl Ty for Int {
    fn mk(a: ApInt) -> Self {
        Int::from(a)
    }
    fn un(self) -> ApInt {
        self.into_apint()
    }
}
impl Ty for UInt {
    fn mk(a: ApInt) -> Self {
        UInt::from(a)
    }
    fn un(self) -> ApInt {
        self.into_apint()
    }
}

// ---------------------------------------------------------------- semantics

fn val(a: M, b: &M) -> MRes {
    MRes { a, b: b.clone(), out: Ok(S::Unit) }
}
fn scal(a: &M, b: &M, s: S) -> MRes {
    MRes { a: a.clone(), b: b.clone(), out: Ok(s) }
}
fn fail(a: &M, b: &M, e: MErr) -> MRes {
    MRes { a: a.clone(), b: b.clone(), out: Err(e) }
}
fn wbin(a: &M, b: &M, f: impl Fn(&M, &M) -> M) -> MRes {
    if a.w != b.w {
        return fail(a, b, MErr::Width(a.w, b.w));
    }
    val(f(a, b), b)
}
fn dbin(a: &M, b: &M, op: &'static str, f: impl Fn(&M, &M) -> (M, M)) -> MRes {
    if a.w != b.w {
        return fail(a, b, MErr::Width(a.w, b.w));
    }
    if b.is_zero() {
        return fail(a, b, MErr::DivZero(op, a.clone()));
    }
    let (x, y) = f(a, b);
    MRes { a: x, b: y, out: Ok(S::Unit) }
}
fn wcmp(a: &M, b: &M, f: impl Fn(&M, &M) -> bool) -> MRes {
    if a.w != b.w {
        return fail(a, b, MErr::Width(a.w, b.w));
    }
    scal(a, b, S::Bool(f(a, b)))
}
fn sh(a: &M, b: &M, n: usize, f: impl Fn(&M, usize) -> M) -> MRes {
    if n >= a.w {
        return fail(a, b, MErr::Shift(n, a.w));
    }
    val(f(a, n), b)
}
fn pos(a: &M, b: &M, n: usize, f: impl Fn(&M, usize) -> MRes) -> MRes {
    if n >= a.w {
        return fail(a, b, MErr::Bit(n, a.w));
    }
    f(a, n)
}
fn m_trunc(a: &M, b: &M, n: usize) -> MRes {
    if n > a.w {
        return fail(a, b, MErr::Trunc { target: n, current: a.w });
    }
    val(a.trunc(n), b)
}
fn m_zext(a: &M, b: &M, n: usize) -> MRes {
    if n < a.w {
        return fail(a, b, MErr::Ext { target: n, current: a.w });
    }
    val(a.zext(n), b)
}
fn m_sext(a: &M, b: &M, n: usize) -> MRes {
    if n < a.w {
        return fail(a, b, MErr::Ext { target: n, current: a.w });
    }
    val(a.sext(n), b)
}
fn sres128(a: &M, bits: usize) -> i128 {
    // value truncated / sign extended to `bits`, as i128
    a.sresize(bits).sresize(128).low_u128() as i128
}
fn ures128(a: &M, bits: usize) -> u128 {
    a.zresize(bits).low_u128()
}
/// untyped checked conversion to a signed primitive
fn try_i(a: &M, b: &M, bits: usize, ty: &'static str) -> MRes {
    if a.bits() > bits {
        return fail(a, b, MErr::Unrep(ty, a.clone()));
    }
    scal(a, b, S::I(sres128(a, bits)))
}
fn try_u(a: &M, b: &M, bits: usize, ty: &'static str) -> MRes {
    if a.bits() > bits {
        return fail(a, b, MErr::Unrep(ty, a.clone()));
    }
    scal(a, b, S::U(ures128(a, bits)))
}
/// signed type: representable iff the signed value fits
fn try_si(a: &M, b: &M, bits: usize, ty: &'static str) -> MRes {
    if a.sresize(bits).sresize(a.w.max(bits)) != a.sresize(a.w.max(bits)) {
        return fail(a, b, MErr::Unrep(ty, a.clone()));
    }
    scal(a, b, S::I(sres128(a, bits)))
}
fn try_bool(a: &M, b: &M, _: usize) -> MRes {
    if a.bits() > 1 {
        return fail(a, b, MErr::Unrep("Bool", a.clone()));
    }
    scal(a, b, S::Bool(a.bit(0)))
}

// ------------------------------------------------------------------- forms

macro_rules! op {
    ($v:ident, $name:expr, $sem:expr, $g:ident, $k:ident, $oper:expr, $run:expr, $model:expr) => {
        $v.push(Op {
            name: $name,
            sem: $sem,
            g: G::$g,
            k: K::$k,
            oper: $oper,
            run: $run,
            model: $model,
        })
    };
}
// x.m(&y) -> Result<()>
macro_rules! bin_mut {
    ($v:ident, $T:ident, $m:ident, $sem:expr, $g:ident, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, $g, Bin, false,
            |a, b, _| {
                let mut x = <$T as Ty>::mk(a);
                let y = <$T as Ty>::mk(b);
                let r = x.$m(&y);
                Res { a: Some(x.un()), b: Some(y.un()), out: r.map(|_| S::Unit) }
            }, $model)
    };
}
// x.m(&y) -> Result<T>
macro_rules! bin_into {
    ($v:ident, $T:ident, $m:ident, $sem:expr, $g:ident, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, $g, Bin, false,
            |a, b, _| {
                let x = <$T as Ty>::mk(a);
                let y = <$T as Ty>::mk(b);
                match x.$m(&y) {
                    Ok(r) => Res { a: Some(r.un()), b: Some(y.un()), out: Ok(S::Unit) },
                    Err(e) => Res { a: None, b: Some(y.un()), out: Err(e) },
                }
            }, $model)
    };
}
macro_rules! bin_oper {
    ($v:ident, $T:ident, $o:tt, $oa:tt, $sem:expr, $g:ident, $model:expr) => {
        op!($v, concat!(stringify!($T), " ", stringify!($o)), $sem, $g, Bin, true,
            |a, b, _| {
                let x = <$T as Ty>::mk(a);
                let y = <$T as Ty>::mk(b);
                let r = x $o &y;
                Res { a: Some(r.un()), b: Some(y.un()), out: Ok(S::Unit) }
            }, $model);
        op!($v, concat!(stringify!($T), " ", stringify!($oa)), $sem, $g, Bin, true,
            |a, b, _| {
                let mut x = <$T as Ty>::mk(a);
                let y = <$T as Ty>::mk(b);
                x $oa &y;
                Res { a: Some(x.un()), b: Some(y.un()), out: Ok(S::Unit) }
            }, $model);
    };
}
macro_rules! un_mut {
    ($v:ident, $T:ident, $m:ident, $sem:expr, $g:ident, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, $g, Un, false,
            |a, b, _| {
                let mut x = <$T as Ty>::mk(a);
                x.$m();
                Res { a: Some(x.un()), b: Some(b), out: Ok(S::Unit) }
            }, $model)
    };
}
macro_rules! un_into {
    ($v:ident, $T:ident, $m:ident, $sem:expr, $g:ident, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, $g, Un, false,
            |a, b, _| {
                let x = <$T as Ty>::mk(a);
                Res { a: Some(x.$m().un()), b: Some(b), out: Ok(S::Unit) }
            }, $model)
    };
}
// x.m() -> scalar
macro_rules! get {
    ($v:ident, $T:ident, $m:ident, $S:ident, $sem:expr, $g:ident, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, $g, Un, false,
            |a, b, _| {
                let x = <$T as Ty>::mk(a);
                let r = x.$m();
                Res { a: Some(x.un()), b: Some(b), out: Ok(S::$S(r.into())) }
            }, $model)
    };
}
// x.m() -> Result<scalar>
macro_rules! tryget {
    ($v:ident, $T:ident, $m:ident, $S:ident, $sem:expr, $g:ident, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, $g, Un, false,
            |a, b, _| {
                let x = <$T as Ty>::mk(a);
                let r = x.$m();
                Res { a: Some(x.un()), b: Some(b), out: r.map(|v| S::$S(v.into())) }
            }, $model)
    };
}
macro_rules! cmp {
    ($v:ident, $T:ident, $m:ident, $sem:expr, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, Cmp, Bin, false,
            |a, b, _| {
                let x = <$T as Ty>::mk(a);
                let y = <$T as Ty>::mk(b);
                let r = x.$m(&y);
                Res { a: Some(x.un()), b: Some(y.un()), out: r.map(S::Bool) }
            }, $model)
    };
}
macro_rules! cmp_oper {
    ($v:ident, $T:ident, $o:tt, $model:expr) => {
        op!($v, concat!(stringify!($T), " ", stringify!($o)),
            concat!(stringify!($T), stringify!($o)), Cmp, Bin, false,
            |a, b, _| {
                let x = <$T as Ty>::mk(a);
                let y = <$T as Ty>::mk(b);
                let r = x $o y;
                Res { a: Some(x.un()), b: Some(y.un()), out: Ok(S::Bool(r)) }
            }, $model)
    };
}
// x.m(n) -> Result<()>, n: amount / position / width
macro_rules! n_mut {
    ($v:ident, $T:ident, $m:ident, $sem:expr, $g:ident, $k:ident, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, $g, $k, false,
            |a, b, n| {
                let mut x = <$T as Ty>::mk(a);
                let r = x.$m(n);
                Res { a: Some(x.un()), b: Some(b), out: r.map(|_| S::Unit) }
            }, $model)
    };
}
macro_rules! n_into {
    ($v:ident, $T:ident, $m:ident, $sem:expr, $g:ident, $k:ident, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, $g, $k, false,
            |a, b, n| {
                let x = <$T as Ty>::mk(a);
                match x.$m(n) {
                    Ok(r) => Res { a: Some(r.un()), b: Some(b), out: Ok(S::Unit) },
                    Err(e) => Res { a: None, b: Some(b), out: Err(e) },
                }
            }, $model)
    };
}
macro_rules! n_oper {
    ($v:ident, $T:ident, $o:tt, $oa:tt, $sem:expr, $model:expr) => {
        op!($v, concat!(stringify!($T), " ", stringify!($o)), $sem, Shift, Amt, true,
            |a, b, n| {
                let x = <$T as Ty>::mk(a);
                Res { a: Some((x $o n).un()), b: Some(b), out: Ok(S::Unit) }
            }, $model);
        op!($v, concat!(stringify!($T), " ", stringify!($oa)), $sem, Shift, Amt, true,
            |a, b, n| {
                let mut x = <$T as Ty>::mk(a);
                x $oa n;
                Res { a: Some(x.un()), b: Some(b), out: Ok(S::Unit) }
            }, $model);
    };
}
// infallible resize
macro_rules! w_mut {
    ($v:ident, $T:ident, $m:ident, $sem:expr, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, Cast, Wid, false,
            |a, b, n| {
                let mut x = <$T as Ty>::mk(a);
                x.$m(n);
                Res { a: Some(x.un()), b: Some(b), out: Ok(S::Unit) }
            }, $model)
    };
}
macro_rules! w_into {
    ($v:ident, $T:ident, $m:ident, $sem:expr, $model:expr) => {
        op!($v, concat!(stringify!($T), "::", stringify!($m)), $sem, Cast, Wid, false,
            |a, b, n| {
                let x = <$T as Ty>::mk(a);
                Res { a: Some(x.$m(BitWidth::new(n).unwrap()).un()), b: Some(b), out: Ok(S::Unit) }
            }, $model)
    };
}
macro_rules! divrem_both {
    ($v:ident, $m:ident, $g:ident, $model:expr) => {
        op!($v, concat!("ApInt::", stringify!($m)), stringify!($m), $g, Bin, false,
            |a, b, _| {
                let (mut x, mut y) = (a, b);
                let r = ApInt::$m(&mut x, &mut y);
                Res { a: Some(x), b: Some(y), out: r.map(|_| S::Unit) }
            }, $model)
    };
}

// forms shared by all three types
macro_rules! common {
    ($v:ident, $T:ident) => {
        // ring
        bin_mut!($v, $T, wrapping_add_assign, "add", Ring, |a, b, _| wbin(a, b, |x, y| x.add(y)));
        bin_into!($v, $T, into_wrapping_add, "add", Ring, |a, b, _| wbin(a, b, |x, y| x.add(y)));
        bin_oper!($v, $T, +, +=, "add", Ring, |a, b, _| wbin(a, b, |x, y| x.add(y)));
        bin_mut!($v, $T, wrapping_sub_assign, "sub", Ring, |a, b, _| wbin(a, b, |x, y| x.sub(y)));
        bin_into!($v, $T, into_wrapping_sub, "sub", Ring, |a, b, _| wbin(a, b, |x, y| x.sub(y)));
        bin_oper!($v, $T, -, -=, "sub", Ring, |a, b, _| wbin(a, b, |x, y| x.sub(y)));
        bin_mut!($v, $T, wrapping_mul_assign, "mul", Ring, |a, b, _| wbin(a, b, |x, y| x.mul(y)));
        bin_into!($v, $T, into_wrapping_mul, "mul", Ring, |a, b, _| wbin(a, b, |x, y| x.mul(y)));
        bin_oper!($v, $T, *, *=, "mul", Ring, |a, b, _| wbin(a, b, |x, y| x.mul(y)));
        un_mut!($v, $T, wrapping_neg, "neg", Ring, |a, b, _| val(a.neg(), b));
        un_into!($v, $T, into_wrapping_neg, "neg", Ring, |a, b, _| val(a.neg(), b));
        op!($v, concat!(stringify!($T), " neg"), "neg", Ring, Un, true, |a, b, _| {
            let x = <$T as Ty>::mk(a);
            Res { a: Some((-x).un()), b: Some(b), out: Ok(S::Unit) }
        }, |a, b, _| val(a.neg(), b));
        // bitwise
        bin_mut!($v, $T, bitand_assign, "and", Bitw, |a, b, _| wbin(a, b, |x, y| x.and(y)));
        bin_into!($v, $T, into_bitand, "and", Bitw, |a, b, _| wbin(a, b, |x, y| x.and(y)));
        bin_oper!($v, $T, &, &=, "and", Bitw, |a, b, _| wbin(a, b, |x, y| x.and(y)));
        bin_mut!($v, $T, bitor_assign, "or", Bitw, |a, b, _| wbin(a, b, |x, y| x.or(y)));
        bin_into!($v, $T, into_bitor, "or", Bitw, |a, b, _| wbin(a, b, |x, y| x.or(y)));
        bin_oper!($v, $T, |, |=, "or", Bitw, |a, b, _| wbin(a, b, |x, y| x.or(y)));
        bin_mut!($v, $T, bitxor_assign, "xor", Bitw, |a, b, _| wbin(a, b, |x, y| x.xor(y)));
        bin_into!($v, $T, into_bitxor, "xor", Bitw, |a, b, _| wbin(a, b, |x, y| x.xor(y)));
        bin_oper!($v, $T, ^, ^=, "xor", Bitw, |a, b, _| wbin(a, b, |x, y| x.xor(y)));
        un_mut!($v, $T, bitnot, "not", Bitw, |a, b, _| val(a.not(), b));
        un_into!($v, $T, into_bitnot, "not", Bitw, |a, b, _| val(a.not(), b));
        op!($v, concat!(stringify!($T), " !"), "not", Bitw, Un, true, |a, b, _| {
            let x = <$T as Ty>::mk(a);
            Res { a: Some((!x).un()), b: Some(b), out: Ok(S::Unit) }
        }, |a, b, _| val(a.not(), b));
        un_mut!($v, $T, flip_all, "not", Bitw, |a, b, _| val(a.not(), b));
        un_mut!($v, $T, set_all, "setall", Bitw, |a, b, _| val(M::ones(a.w), b));
        un_mut!($v, $T, unset_all, "unsetall", Bitw, |a, b, _| val(M::zero(a.w), b));
        // bit access
        op!($v, concat!(stringify!($T), "::get_bit_at"), "getbit", Bit, Pos, false, |a, b, n| {
            let x = <$T as Ty>::mk(a);
            let r = x.get_bit_at(n);
            Res { a: Some(x.un()), b: Some(b), out: r.map(S::Bool) }
        }, |a, b, n| pos(a, b, n, |x, i| scal(x, b, S::Bool(x.bit(i)))));
        n_mut!($v, $T, set_bit_at, "setbit", Bit, Pos, |a, b, n| pos(a, b, n, |x, i| val(x.with_bit(i, true), b)));
        n_mut!($v, $T, unset_bit_at, "unsetbit", Bit, Pos, |a, b, n| pos(a, b, n, |x, i| val(x.with_bit(i, false), b)));
        n_mut!($v, $T, flip_bit_at, "flipbit", Bit, Pos, |a, b, n| pos(a, b, n, |x, i| val(x.with_bit(i, !x.bit(i)), b)));
        // shifts
        n_mut!($v, $T, wrapping_shl_assign, "shl", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.shl(k)));
        n_into!($v, $T, into_wrapping_shl, "shl", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.shl(k)));
        n_oper!($v, $T, <<, <<=, "shl", |a, b, n| sh(a, b, n, |x, k| x.shl(k)));
        // predicates and counts
        get!($v, $T, is_zero, Bool, "is_zero", Pred, |a, b, _| scal(a, b, S::Bool(a.is_zero())));
        get!($v, $T, is_even, Bool, "is_even", Pred, |a, b, _| scal(a, b, S::Bool(!a.bit(0))));
        get!($v, $T, is_odd, Bool, "is_odd", Pred, |a, b, _| scal(a, b, S::Bool(a.bit(0))));
        get!($v, $T, is_all_set, Bool, "is_all_set", Pred, |a, b, _| scal(a, b, S::Bool(a.not().is_zero())));
        get!($v, $T, is_all_unset, Bool, "is_all_unset", Pred, |a, b, _| scal(a, b, S::Bool(a.is_zero())));
        get!($v, $T, count_ones, N, "count_ones", Pred, |a, b, _| scal(a, b, S::N(a.count_ones())));
        get!($v, $T, count_zeros, N, "count_zeros", Pred, |a, b, _| scal(a, b, S::N(a.w - a.count_ones())));
        get!($v, $T, leading_zeros, N, "leading_zeros", Pred, |a, b, _| scal(a, b, S::N(a.leading_zeros())));
        get!($v, $T, trailing_zeros, N, "trailing_zeros", Pred, |a, b, _| scal(a, b, S::N(a.trailing_zeros())));
        op!($v, concat!(stringify!($T), "::width"), "width", Pred, Un, false, |a, b, _| {
            let x = <$T as Ty>::mk(a);
            let n = x.width().to_usize();
            Res { a: Some(x.un()), b: Some(b), out: Ok(S::N(n)) }
        }, |a, b, _| scal(a, b, S::N(a.w)));
        // equality
        op!($v, concat!(stringify!($T), " =="), "eq", Cmp, Bin, false, |a, b, _| {
            let x = <$T as Ty>::mk(a);
            let y = <$T as Ty>::mk(b);
            let r = x == y;
            Res { a: Some(x.un()), b: Some(y.un()), out: Ok(S::Bool(r)) }
        }, |a, b, _| scal(a, b, S::Bool(a == b)));
        op!($v, concat!(stringify!($T), " !="), "ne", Cmp, Bin, false, |a, b, _| {
            let x = <$T as Ty>::mk(a);
            let y = <$T as Ty>::mk(b);
            let r = x != y;
            Res { a: Some(x.un()), b: Some(y.un()), out: Ok(S::Bool(r)) }
        }, |a, b, _| scal(a, b, S::Bool(a != b)));
        // casts
        n_mut!($v, $T, truncate, "trunc", Cast, Wid, m_trunc);
        n_into!($v, $T, into_truncate, "trunc", Cast, Wid, m_trunc);
        op!($v, concat!(stringify!($T), "::assign"), "assign", Cast, Bin, false, |a, b, _| {
            let mut x = <$T as Ty>::mk(a);
            let y = <$T as Ty>::mk(b);
            x.assign(&y);
            Res { a: Some(x.un()), b: Some(y.un()), out: Ok(S::Unit) }
        }, |_, b, _| val(b.clone(), b));
        bin_mut!($v, $T, strict_assign, "strict_assign", Cast, |a, b, _| wbin(a, b, |_, y| y.clone()));
        op!($v, concat!(stringify!($T), "::clone"), "clone", Cast, Un, false, |a, b, _| {
            let x = <$T as Ty>::mk(a);
            let y = x.clone();
            drop(x);
            Res { a: Some(y.un()), b: Some(b), out: Ok(S::Unit) }
        }, |a, b, _| val(a.clone(), b));
        op!($v, concat!(stringify!($T), "::clone_from"), "assign", Cast, Bin, false, |a, b, _| {
            let mut x = <$T as Ty>::mk(a);
            let y = <$T as Ty>::mk(b);
            x.clone_from(&y);
            Res { a: Some(x.un()), b: Some(y.un()), out: Ok(S::Unit) }
        }, |_, b, _| val(b.clone(), b));
        // conversions
        get!($v, $T, resize_to_bool, Bool, "resize_bool", Prim, |a, b, _| scal(a, b, S::Bool(a.bit(0))));
        tryget!($v, $T, try_to_bool, Bool, "try_bool", Prim, try_bool);
    };
}

macro_rules! prim_u {
    ($v:ident, $T:ident, $rm:ident, $tm:ident, $bits:expr, $ty:expr) => {
        get!($v, $T, $rm, U, stringify!($rm), Prim, |a, b, _| scal(a, b, S::U(ures128(a, $bits))));
        tryget!($v, $T, $tm, U, stringify!($tm), Prim, |a, b, _| try_u(a, b, $bits, $ty));
    };
}
macro_rules! prim_i {
    ($v:ident, $T:ident, $rm:ident, $tm:ident, $bits:expr, $ty:expr, $try:ident, $sem:expr) => {
        get!($v, $T, $rm, I, stringify!($rm), Prim, |a, b, _| scal(a, b, S::I(sres128(a, $bits))));
        tryget!($v, $T, $tm, I, $sem, Prim, |a, b, _| $try(a, b, $bits, $ty));
    };
}

pub fn table() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    common!(v, ApInt);
    common!(v, Int);
    common!(v, UInt);
    // ApInt only
    un_mut!(v, ApInt, wrapping_inc, "inc", Ring, |a, b, _| val(a.inc(), b));
    un_into!(v, ApInt, into_wrapping_inc, "inc", Ring, |a, b, _| val(a.inc(), b));
    un_mut!(v, ApInt, wrapping_dec, "dec", Ring, |a, b, _| val(a.dec(), b));
    un_into!(v, ApInt, into_wrapping_dec, "dec", Ring, |a, b, _| val(a.dec(), b));
    // sign bit
    macro_rules! msbs {
        ($T:ident) => {
            un_mut!(v, $T, set_msb, "set_msb", Bit, |a, b, _| val(a.with_bit(a.w - 1, true), b));
            un_mut!(v, $T, unset_msb, "unset_msb", Bit, |a, b, _| val(a.with_bit(a.w - 1, false), b));
            un_mut!(v, $T, flip_msb, "flip_msb", Bit, |a, b, _| val(a.with_bit(a.w - 1, !a.msb()), b));
            get!(v, $T, msb, Bool, "msb", Pred, |a, b, _| scal(a, b, S::Bool(a.msb())));
        };
    }
    msbs!(ApInt);
    msbs!(Int);
    get!(v, ApInt, lsb, Bool, "lsb", Pred, |a, b, _| scal(a, b, S::Bool(a.bit(0))));
    // is_one: the one-bit signed integer has no value 1
    get!(v, UInt, is_one, Bool, "is_one_u", Pred, |a, b, _| scal(a, b, S::Bool(*a == M::one(a.w))));
    get!(v, Int, is_one, Bool, "is_one_s", Pred, |a, b, _| scal(a, b, S::Bool(a.w > 1 && *a == M::one(a.w))));
    // signed notions
    get!(v, Int, is_negative, Bool, "is_negative", Pred, |a, b, _| scal(a, b, S::Bool(a.msb())));
    get!(v, Int, is_positive, Bool, "is_positive", Pred, |a, b, _| scal(a, b, S::Bool(!a.msb())));
    get!(v, Int, signum, I, "signum", Pred, |a, b, _| scal(a, b, S::I(if a.is_zero() { 0 } else if a.msb() { -1 } else { 1 })));
    un_mut!(v, Int, wrapping_abs, "abs", Pred, |a, b, _| val(a.abs(), b));
    un_into!(v, Int, into_abs, "abs", Pred, |a, b, _| val(a.abs(), b));
    // unsigned division
    fn udiv(a: &M, b: &M, _: usize) -> MRes {
        dbin(a, b, "UnsignedDiv", |x, y| (x.udivrem(y).0, y.clone()))
    }
    fn urem(a: &M, b: &M, _: usize) -> MRes {
        dbin(a, b, "UnsignedRem", |x, y| (x.udivrem(y).1, y.clone()))
    }
    fn sdiv(a: &M, b: &M, _: usize) -> MRes {
        dbin(a, b, "SignedDiv", |x, y| (x.sdivrem(y).0, y.clone()))
    }
    fn srem(a: &M, b: &M, _: usize) -> MRes {
        dbin(a, b, "SignedRem", |x, y| (x.sdivrem(y).1, y.clone()))
    }
    divrem_both!(v, wrapping_udivrem_assign, UDiv, |a, b, _| dbin(a, b, "UnsignedDivRem", |x, y| x.udivrem(y)));
    divrem_both!(v, wrapping_uremdiv_assign, UDiv, |a, b, _| dbin(a, b, "UnsignedRemDiv", |x, y| {
        let (q, r) = x.udivrem(y);
        (r, q)
    }));
    bin_mut!(v, ApInt, wrapping_udiv_assign, "udiv", UDiv, udiv);
    bin_into!(v, ApInt, into_wrapping_udiv, "udiv", UDiv, udiv);
    bin_mut!(v, ApInt, wrapping_urem_assign, "urem", UDiv, urem);
    bin_into!(v, ApInt, into_wrapping_urem, "urem", UDiv, urem);
    bin_mut!(v, UInt, wrapping_div_assign, "udiv", UDiv, udiv);
    bin_into!(v, UInt, into_wrapping_div, "udiv", UDiv, udiv);
    bin_mut!(v, UInt, wrapping_rem_assign, "urem", UDiv, urem);
    bin_into!(v, UInt, into_wrapping_rem, "urem", UDiv, urem);
    bin_oper!(v, UInt, /, /=, "udiv", UDiv, udiv);
    bin_oper!(v, UInt, %, %=, "urem", UDiv, urem);
    // signed division
    divrem_both!(v, wrapping_sdivrem_assign, SDiv, |a, b, _| dbin(a, b, "SignedDivRem", |x, y| x.sdivrem(y)));
    divrem_both!(v, wrapping_sremdiv_assign, SDiv, |a, b, _| dbin(a, b, "SignedRemDiv", |x, y| {
        let (q, r) = x.sdivrem(y);
        (r, q)
    }));
    bin_mut!(v, ApInt, wrapping_sdiv_assign, "sdiv", SDiv, sdiv);
    bin_into!(v, ApInt, into_wrapping_sdiv, "sdiv", SDiv, sdiv);
    bin_mut!(v, ApInt, wrapping_srem_assign, "srem", SDiv, srem);
    bin_into!(v, ApInt, into_wrapping_srem, "srem", SDiv, srem);
    bin_mut!(v, Int, wrapping_div_assign, "sdiv", SDiv, sdiv);
    bin_into!(v, Int, into_wrapping_div, "sdiv", SDiv, sdiv);
    bin_mut!(v, Int, wrapping_rem_assign, "srem", SDiv, srem);
    bin_into!(v, Int, into_wrapping_rem, "srem", SDiv, srem);
    bin_oper!(v, Int, /, /=, "sdiv", SDiv, sdiv);
    bin_oper!(v, Int, %, %=, "srem", SDiv, srem);
    // right shifts
    n_mut!(v, ApInt, wrapping_lshr_assign, "lshr", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.lshr(k)));
    n_into!(v, ApInt, into_wrapping_lshr, "lshr", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.lshr(k)));
    n_mut!(v, ApInt, wrapping_ashr_assign, "ashr", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.ashr(k)));
    n_into!(v, ApInt, into_wrapping_ashr, "ashr", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.ashr(k)));
    n_mut!(v, UInt, wrapping_shr_assign, "lshr", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.lshr(k)));
    n_into!(v, UInt, into_wrapping_shr, "lshr", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.lshr(k)));
    n_oper!(v, UInt, >>, >>=, "lshr", |a, b, n| sh(a, b, n, |x, k| x.lshr(k)));
    n_mut!(v, Int, wrapping_shr_assign, "ashr", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.ashr(k)));
    n_into!(v, Int, into_wrapping_shr, "ashr", Shift, Amt, |a, b, n| sh(a, b, n, |x, k| x.ashr(k)));
    n_oper!(v, Int, >>, >>=, "ashr", |a, b, n| sh(a, b, n, |x, k| x.ashr(k)));
    // comparisons
    cmp!(v, ApInt, checked_ult, "ult", |a, b, _| wcmp(a, b, |x, y| x.ucmp(y) == Ordering::Less));
    cmp!(v, ApInt, checked_ule, "ule", |a, b, _| wcmp(a, b, |x, y| x.ucmp(y) != Ordering::Greater));
    cmp!(v, ApInt, checked_ugt, "ugt", |a, b, _| wcmp(a, b, |x, y| x.ucmp(y) == Ordering::Greater));
    cmp!(v, ApInt, checked_uge, "uge", |a, b, _| wcmp(a, b, |x, y| x.ucmp(y) != Ordering::Less));
    cmp!(v, ApInt, checked_slt, "slt", |a, b, _| wcmp(a, b, |x, y| x.scmp(y) == Ordering::Less));
    cmp!(v, ApInt, checked_sle, "sle", |a, b, _| wcmp(a, b, |x, y| x.scmp(y) != Ordering::Greater));
    cmp!(v, ApInt, checked_sgt, "sgt", |a, b, _| wcmp(a, b, |x, y| x.scmp(y) == Ordering::Greater));
    cmp!(v, ApInt, checked_sge, "sge", |a, b, _| wcmp(a, b, |x, y| x.scmp(y) != Ordering::Less));
    cmp!(v, UInt, checked_lt, "ult", |a, b, _| wcmp(a, b, |x, y| x.ucmp(y) == Ordering::Less));
    cmp!(v, UInt, checked_le, "ule", |a, b, _| wcmp(a, b, |x, y| x.ucmp(y) != Ordering::Greater));
    cmp!(v, UInt, checked_gt, "ugt", |a, b, _| wcmp(a, b, |x, y| x.ucmp(y) == Ordering::Greater));
    cmp!(v, UInt, checked_ge, "uge", |a, b, _| wcmp(a, b, |x, y| x.ucmp(y) != Ordering::Less));
    cmp!(v, Int, checked_lt, "slt", |a, b, _| wcmp(a, b, |x, y| x.scmp(y) == Ordering::Less));
    cmp!(v, Int, checked_le, "sle", |a, b, _| wcmp(a, b, |x, y| x.scmp(y) != Ordering::Greater));
    cmp!(v, Int, checked_gt, "sgt", |a, b, _| wcmp(a, b, |x, y| x.scmp(y) == Ordering::Greater));
    cmp!(v, Int, checked_ge, "sge", |a, b, _| wcmp(a, b, |x, y| x.scmp(y) != Ordering::Less));
    fn pc(a: &M, b: &M, signed: bool) -> Option<Ordering> {
        if a.w != b.w {
            None
        } else if signed {
            Some(a.scmp(b))
        } else {
            Some(a.ucmp(b))
        }
    }
    op!(v, "Int::partial_cmp", "spcmp", Cmp, Bin, false, |a, b, _| {
        let (x, y) = (Int::from(a), Int::from(b));
        let r = x.partial_cmp(&y);
        Res { a: Some(x.un()), b: Some(y.un()), out: Ok(S::Ord(r)) }
    }, |a, b, _| scal(a, b, S::Ord(pc(a, b, true))));
    op!(v, "UInt::partial_cmp", "upcmp", Cmp, Bin, false, |a, b, _| {
        let (x, y) = (UInt::from(a), UInt::from(b));
        let r = x.partial_cmp(&y);
        Res { a: Some(x.un()), b: Some(y.un()), out: Ok(S::Ord(r)) }
    }, |a, b, _| scal(a, b, S::Ord(pc(a, b, false))));
    cmp_oper!(v, Int, <, |a, b, _| scal(a, b, S::Bool(pc(a, b, true) == Some(Ordering::Less))));
    cmp_oper!(v, Int, <=, |a, b, _| scal(a, b, S::Bool(matches!(pc(a, b, true), Some(Ordering::Less) | Some(Ordering::Equal)))));
    cmp_oper!(v, Int, >, |a, b, _| scal(a, b, S::Bool(pc(a, b, true) == Some(Ordering::Greater))));
    cmp_oper!(v, Int, >=, |a, b, _| scal(a, b, S::Bool(matches!(pc(a, b, true), Some(Ordering::Greater) | Some(Ordering::Equal)))));
    cmp_oper!(v, UInt, <, |a, b, _| scal(a, b, S::Bool(pc(a, b, false) == Some(Ordering::Less))));
    cmp_oper!(v, UInt, <=, |a, b, _| scal(a, b, S::Bool(matches!(pc(a, b, false), Some(Ordering::Less) | Some(Ordering::Equal)))));
    cmp_oper!(v, UInt, >, |a, b, _| scal(a, b, S::Bool(pc(a, b, false) == Some(Ordering::Greater))));
    cmp_oper!(v, UInt, >=, |a, b, _| scal(a, b, S::Bool(matches!(pc(a, b, false), Some(Ordering::Greater) | Some(Ordering::Equal)))));
    // casts
    n_mut!(v, ApInt, zero_extend, "zext", Cast, Wid, m_zext);
    n_into!(v, ApInt, into_zero_extend, "zext", Cast, Wid, m_zext);
    n_mut!(v, ApInt, sign_extend, "sext", Cast, Wid, m_sext);
    n_into!(v, ApInt, into_sign_extend, "sext", Cast, Wid, m_sext);
    w_mut!(v, ApInt, zero_resize, "zresize", |a, b, n| val(a.zresize(n), b));
    w_into!(v, ApInt, into_zero_resize, "zresize", |a, b, n| val(a.zresize(n), b));
    w_mut!(v, ApInt, sign_resize, "sresize", |a, b, n| val(a.sresize(n), b));
    w_into!(v, ApInt, into_sign_resize, "sresize", |a, b, n| val(a.sresize(n), b));
    n_mut!(v, UInt, extend, "zext", Cast, Wid, m_zext);
    n_into!(v, UInt, into_extend, "zext", Cast, Wid, m_zext);
    n_mut!(v, Int, extend, "sext", Cast, Wid, m_sext);
    n_into!(v, Int, into_extend, "sext", Cast, Wid, m_sext);
    w_mut!(v, UInt, resize, "zresize", |a, b, n| val(a.zresize(n), b));
    w_into!(v, UInt, into_resize, "zresize", |a, b, n| val(a.zresize(n), b));
    w_mut!(v, Int, resize, "sresize", |a, b, n| val(a.sresize(n), b));
    w_into!(v, Int, into_resize, "sresize", |a, b, n| val(a.sresize(n), b));
    op!(v, "UInt::into_signed", "view", Cast, Un, false, |a, b, _| {
        Res { a: Some(UInt::from(a).into_signed().into_apint()), b: Some(b), out: Ok(S::Unit) }
    }, |a, b, _| val(a.clone(), b));
    op!(v, "Int::into_unsigned", "view", Cast, Un, false, |a, b, _| {
        Res { a: Some(Int::from(a).into_unsigned().into_apint()), b: Some(b), out: Ok(S::Unit) }
    }, |a, b, _| val(a.clone(), b));
    // primitives
    prim_u!(v, ApInt, resize_to_u8, try_to_u8, 8, "U8");
    prim_u!(v, ApInt, resize_to_u16, try_to_u16, 16, "U16");
    prim_u!(v, ApInt, resize_to_u32, try_to_u32, 32, "U32");
    prim_u!(v, ApInt, resize_to_u64, try_to_u64, 64, "U64");
    prim_u!(v, ApInt, resize_to_u128, try_to_u128, 128, "U128");
    prim_u!(v, UInt, resize_to_u8, try_to_u8, 8, "U8");
    prim_u!(v, UInt, resize_to_u16, try_to_u16, 16, "U16");
    prim_u!(v, UInt, resize_to_u32, try_to_u32, 32, "U32");
    prim_u!(v, UInt, resize_to_u64, try_to_u64, 64, "U64");
    prim_u!(v, UInt, resize_to_u128, try_to_u128, 128, "U128");
    prim_i!(v, ApInt, resize_to_i8, try_to_i8, 8, "I8", try_i, "try_to_i8");
    prim_i!(v, ApInt, resize_to_i16, try_to_i16, 16, "I16", try_i, "try_to_i16");
    prim_i!(v, ApInt, resize_to_i32, try_to_i32, 32, "I32", try_i, "try_to_i32");
    prim_i!(v, ApInt, resize_to_i64, try_to_i64, 64, "I64", try_i, "try_to_i64");
    prim_i!(v, ApInt, resize_to_i128, try_to_i128, 128, "I128", try_i, "try_to_i128");
    prim_i!(v, Int, resize_to_i8, try_to_i8, 8, "I8", try_si, "try_to_si8");
    prim_i!(v, Int, resize_to_i16, try_to_i16, 16, "I16", try_si, "try_to_si16");
    prim_i!(v, Int, resize_to_i32, try_to_i32, 32, "I32", try_si, "try_to_si32");
    prim_i!(v, Int, resize_to_i64, try_to_i64, 64, "I64", try_si, "try_to_si64");
    prim_i!(v, Int, resize_to_i128, try_to_i128, 128, "I128", try_si, "try_to_si128");
    v
}

thread_local! {
    static HEX: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// Read an integer through its width and its hexadecimal form. `Err` when the
/// form carries bits beyond the width (malformed value).
pub fn read(a: &ApInt) -> Result<M, String> {
    use std::fmt::Write;
    let w = a.width().to_usize();
    HEX.with(|h| {
        let mut s = h.borrow_mut();
        s.clear();
        write!(s, "{:x}", a).map_err(|_| "formatting failed".to_string())?;
        let mut m = M::zero(w);
        let bytes = s.as_bytes();
        if bytes.is_empty() {
            return Err("empty hex form".into());
        }
        let beyond = |s: &str| {
            format!(
                "value of width {} carries bits beyond its width: 0x{}",
                w,
                &s[..s.len().min(40_000)]
            )
        };
        for (i, c) in bytes.rchunks(8).enumerate() {
            let mut limb = 0u32;
            for c in c {
                let nib = match c {
                    b'0'..=b'9' => c - b'0',
                    b'a'..=b'f' => c - b'a' + 10,
                    _ => return Err(format!("bad hex form {:?}", s)),
                };
                limb = limb << 4 | nib as u32;
            }
            if limb == 0 {
                continue;
            }
            if i >= m.d.len() || 32 * i + 32 - limb.leading_zeros() as usize > w {
                return Err(beyond(&s));
            }
            m.d[i] = limb;
        }
        Ok(m)
    })
}

macro_rules! from_arr {
    ($ds:expr, $($n:literal),*) => {
        match $ds.len() {
            $($n => {
                let mut arr = [0u64; $n];
                for i in 0..$n { arr[i] = $ds[$n - 1 - i]; }
                Some(ApInt::from(arr))
            })*
            _ => None,
        }
    };
}

pub fn bw(w: usize) -> BitWidth {
    BitWidth::new(w).unwrap()
}

/// Build an integer (several independent routes).
pub fn build_how(m: &M, how: usize) -> ApInt {
    let w = m.w;
    match how {
        0 => {
            let ds = m.digits();
            let full = if ds.len() == 1 {
                Some(ApInt::from_u64(ds[0]))
            } else {
                from_arr!(ds, 2, 3, 4, 5, 6, 7, 8, 16, 32)
            };
            match full {
                Some(a) if ds.len() * 64 == w => a,
                Some(a) => a.into_truncate(w).unwrap(),
                None => build_how(m, 1),
            }
        }
        1 => {
            // hexadecimal text of all digits, then truncate
            let s: String =
                m.digits().iter().rev().map(|d| format!("{:016x}", d)).collect();
            ApInt::from_str_radix(16, s).unwrap().into_truncate(w).unwrap()
        }
        2 => {
            let mut a = ApInt::zero(bw(w));
            for i in 0..w {
                if m.bit(i) {
                    a.set_bit_at(i).unwrap();
                }
            }
            a
        }
        3 => {
            // from the complement
            let mut a = ApInt::all_set(bw(w));
            for i in 0..w {
                if !m.bit(i) {
                    a.unset_bit_at(i).unwrap();
                }
            }
            a
        }
        4 => {
            // shift-or from 64-bit pieces
            let mut a = ApInt::zero(bw(w));
            for d in m.digits().iter().rev() {
                if w > 64 {
                    a.wrapping_shl_assign(64).unwrap();
                }
                let piece = ApInt::from_u64(*d).into_zero_resize(w);
                a.bitor_assign(&piece).unwrap();
            }
            a
        }
        _ => {
            // arithmetic: sum of scaled pieces, via a wider integer
            let wide = w + 65;
            let mut a = ApInt::zero(bw(wide));
            let base = ApInt::from([1u64, 0u64]).into_zero_resize(wide.max(128));
            let base = base.into_truncate(wide.max(65)).unwrap();
            for d in m.digits().iter().rev() {
                a.wrapping_mul_assign(&base).unwrap();
                let piece = ApInt::from_u64(*d).into_zero_extend(wide).unwrap();
                a.wrapping_add_assign(&piece).unwrap();
            }
            a.into_truncate(w).unwrap()
        }
    }
}
pub const BUILDERS: usize = 6;

pub fn build(m: &M) -> ApInt {
    build_how(m, 0)
}

/// The integer must have exactly the width and value of the model, must be
/// well-formed, and must equal a fresh integer of that value.
pub fn same(got: &ApInt, want: &M) -> Result<(), String> {
    let w = got.width().to_usize();
    if w != want.w {
        return Err(format!("width {} instead of {}", w, want.w));
    }
    let g = read(got)?;
    if g != *want {
        return Err(format!("value {:?} instead of {:?}", g, want));
    }
    Ok(())
}

pub fn err_matches(e: &Error, want: &MErr) -> Result<(), String> {
    let bad = || Err(format!("error {:?} instead of {:?}", e.kind(), want));
    let wd = |b: &BitWidth| b.to_usize();
    let ok = match (e.kind(), want) {
        (ErrorKind::UnmatchingBitwidth(x, y), MErr::Width(a, b)) => {
            // both widths are named; their order is not specified
            (wd(x), wd(y)) == (*a, *b) || (wd(x), wd(y)) == (*b, *a)
        }
        (ErrorKind::DivisionByZero { op, lhs }, MErr::DivZero(n, l)) => {
            format!("{:?}", op) == *n && same(lhs, l).is_ok()
        }
        (
            ErrorKind::InvalidShiftAmount { shift_amount, width },
            MErr::Shift(n, w),
        ) => shift_amount.to_usize() == *n && wd(width) == *w,
        (ErrorKind::InvalidBitAccess { pos, width }, MErr::Bit(n, w)) => {
            pos.to_usize() == *n && wd(width) == *w
        }
        (
            ErrorKind::TruncationBitWidthTooLarge { target, current },
            MErr::Trunc { target: t, current: c },
        ) => wd(target) == *t && wd(current) == *c,
        (
            ErrorKind::ExtensionBitWidthTooSmall { target, current },
            MErr::Ext { target: t, current: c },
        ) => wd(target) == *t && wd(current) == *c,
        (
            ErrorKind::ValueUnrepresentable { value, destination_ty },
            MErr::Unrep(ty, m),
        ) => format!("{:?}", destination_ty) == *ty && same(value, m).is_ok(),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        bad()
    }
}

/// Same error (the order of the two widths of a mismatch is not specified).
pub fn same_error(x: &Error, y: &Error) -> bool {
    match (x.kind(), y.kind()) {
        (ErrorKind::UnmatchingBitwidth(a, b), ErrorKind::UnmatchingBitwidth(c, d)) => {
            (a, b) == (c, d) || (a, b) == (d, c)
        }
        (a, b) => a == b,
    }
}

/// Compare an outcome with the reference semantics.
pub fn judge(op: &Op, r: &Res, want: &MRes) -> Result<(), String> {
    let ctx = |what: &str, e: String| Err(format!("{}: {}: {}", op.name, what, e));
    match (&r.out, &want.out) {
        (Ok(s), Ok(t)) => {
            if s != t {
                return ctx("result", format!("{:?} instead of {:?}", s, t));
            }
        }
        (Err(e), Err(t)) => {
            if let Err(m) = err_matches(e, t) {
                return ctx("error", m);
            }
        }
        (Ok(s), Err(t)) => {
            return ctx("result", format!("Ok({:?}) instead of error {:?}", s, t))
        }
        (Err(e), Ok(_)) => {
            return ctx("result", format!("unexpected error {:?}", e.kind()))
        }
    }
    match &r.a {
        Some(a) => {
            if let Err(m) = same(a, &want.a) {
                return ctx("left operand / result", m);
            }
        }
        None if want.out.is_ok() => return ctx("result", "missing".into()),
        None => {}
    }
    if let Some(b) = &r.b {
        if let Err(m) = same(b, &want.b) {
            return ctx("right operand", m);
        }
    }
    Ok(())
}
