//! P12: failing operations.

use crate::gen::*;
use crate::model::M;
use crate::ops::*;
use crate::p_core::*;
use crate::runner::*;
use apint::{ApInt, BitWidth, ErrorKind, Int, Radix, UInt};
use std::panic::AssertUnwindSafe;

struct AssignOp {
    name: &'static str,
    /// (lhs, rhs, amount) -> lhs after the (possibly caught) panic, panicked?
    run: fn(ApInt, &ApInt, usize) -> (ApInt, ApInt, bool),
    div: bool,
    shift: bool,
}

macro_rules! aop {
    ($T:ident, $o:tt, $div:expr) => {
        AssignOp {
            name: concat!(stringify!($T), " ", stringify!($o)),
            run: |a, b, _| {
                let mut x = <$T as Ty>::mk(a);
                let y = <$T as Ty>::mk(b.clone());
                let p = catch(AssertUnwindSafe(|| { x $o &y; })).is_err();
                (x.un(), y.un(), p)
            },
            div: $div,
            shift: false,
        }
    };
    ($T:ident, shift $o:tt) => {
        AssignOp {
            name: concat!(stringify!($T), " ", stringify!($o)),
            run: |a, b, n| {
                let mut x = <$T as Ty>::mk(a);
                let p = catch(AssertUnwindSafe(|| { x $o n; })).is_err();
                (x.un(), b.clone(), p)
            },
            div: false,
            shift: true,
        }
    };
}

const ASSIGN: &[AssignOp] = &[
    aop!(ApInt, +=, false), aop!(ApInt, -=, false), aop!(ApInt, *=, false),
    aop!(ApInt, &=, false), aop!(ApInt, |=, false), aop!(ApInt, ^=, false),
    aop!(Int, +=, false), aop!(Int, -=, false), aop!(Int, *=, false),
    aop!(Int, &=, false), aop!(Int, |=, false), aop!(Int, ^=, false),
    aop!(Int, /=, true), aop!(Int, %=, true),
    aop!(UInt, +=, false), aop!(UInt, -=, false), aop!(UInt, *=, false),
    aop!(UInt, &=, false), aop!(UInt, |=, false), aop!(UInt, ^=, false),
    aop!(UInt, /=, true), aop!(UInt, %=, true),
    aop!(ApInt, shift <<=), aop!(Int, shift <<=), aop!(Int, shift >>=),
    aop!(UInt, shift <<=), aop!(UInt, shift >>=),
];

fn assign_ops(
    ctx: &mut Ctx,
    a: &M,
    b: &M,
    n: usize,
    pick: impl Fn(&AssignOp) -> bool,
) -> Result<(), String> {
    for op in ASSIGN.iter().filter(|o| pick(o)) {
        set_op(op.name);
        ctx.ops += 1;
        let y = build(b);
        let (x, y2, panicked) = (op.run)(build(a), &y, n);
        let inp = format!("[a={:?} b={:?} n={}]", a, b, n);
        if !panicked {
            return Err(format!("{} did not panic {}", op.name, inp));
        }
        same(&x, a).map_err(|m| format!("{}: failed but changed its target: {} {}", op.name, m, inp))?;
        same(&y2, b).map_err(|m| format!("{}: failed but changed its argument: {} {}", op.name, m, inp))?;
    }
    Ok(())
}

/// The messages of an error can always be rendered.
fn renders(ctx: &mut Ctx, e: &apint::Error) -> Result<(), String> {
    set_op("Error rendering");
    ctx.ops += 1;
    if e.message().is_empty() || format!("{}", e).is_empty() || format!("{:?}", e).is_empty() {
        return Err(format!("empty rendering of {:?}", e.kind()));
    }
    let _ = e.annotation();
    // the message names the offending numbers
    let nums: Vec<usize> = match e.kind() {
        ErrorKind::InvalidRadix(r) => vec![*r as usize],
        ErrorKind::InvalidBitWidth(w) => vec![*w],
        ErrorKind::InvalidBitAccess { pos, width } => vec![pos.to_usize(), width.to_usize()],
        ErrorKind::InvalidShiftAmount { shift_amount, width } => {
            vec![shift_amount.to_usize(), width.to_usize()]
        }
        ErrorKind::UnmatchingBitwidth(a, b) => vec![a.to_usize(), b.to_usize()],
        ErrorKind::TruncationBitWidthTooLarge { target, current }
        | ErrorKind::ExtensionBitWidthTooSmall { target, current } => {
            vec![target.to_usize(), current.to_usize()]
        }
        _ => vec![],
    };
    for n in nums {
        if !e.message().split(|c: char| !c.is_ascii_digit()).any(|t| t == n.to_string()) {
            return Err(format!("the message {:?} of {:?} does not name {}", e.message(), e.kind(), n));
        }
    }
    #[cfg(feature = "cfg_std")]
    {
        let d: &dyn std::error::Error = e;
        if d.to_string().is_empty() {
            return Err("empty std error".into());
        }
    }
    if e.clone() != *e {
        return Err("an error differs from its clone".into());
    }
    Ok(())
}

/// rare maximal width
const EW: usize = 70_000;

pub fn case_p12(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mode = g.below(8);
    match mode {
        0 | 1 => {
            // different widths (one in two with a zero right operand)
            let w = g.width_h(1000, EW);
            let w2 = 1 + g.draw(EW as u64, |s| {
                (if s.chance(1, 2) {
                    // same number of digits / neighbouring
                    let d = [1i64, -1, 2, -2, 63, -63, 64, -64, 128, 256, 512, 1 << 14][s.below(12) as usize];
                    (w as i64 + d).clamp(1, EW as i64) as usize
                } else {
                    rand_width_h(s, 1000, EW)
                }) as u64
                    - 1
            }) as usize;
            if w == w2 {
                return Ok(());
            }
            let a = g.value(w, &[]);
            let b = if mode == 1 { M::zero(w2) } else { g.value(w2, &[&a]) };
            ctx.label(if mode == 1 { "different widths, zero" } else { "different widths" });
            if (w + 63) / 64 == (w2 + 63) / 64 {
                ctx.label("different widths, same digit count");
            }
            ctx.nontrivial(!a.is_zero());
            ctx.note(|| format!("a={:?} b={:?}", a, b));
            for l in [l_ring(), l_udiv(), l_sdiv(), l_bitw(), l_cmp(), l_cast()] {
                let bins: Vec<&'static Op> =
                    l.iter().copied().filter(|o| o.k == K::Bin).collect();
                run_list(ctx, &bins, &a, &b, 0)?;
                run_oper_panics(ctx, &bins, &a, &b, 0)?;
            }
            assign_ops(ctx, &a, &b, 0, |o| !o.shift)?;
            let mut x = build(&a);
            let e = x.wrapping_add_assign(&build(&b)).unwrap_err();
            renders(ctx, &e)
        }
        2 => {
            let w = g.width_h(1000, EW);
            let a = g.value(w, &[]);
            let b = M::zero(w);
            ctx.label("zero divisor");
            ctx.nontrivial(!a.is_zero());
            ctx.note(|| format!("a={:?} / 0", a));
            for l in [l_udiv(), l_sdiv()] {
                run_list(ctx, l, &a, &b, 0)?;
                run_oper_panics(ctx, l, &a, &b, 0)?;
            }
            assign_ops(ctx, &a, &b, 0, |o| o.div)?;
            let mut x = build(&a);
            let e = x.wrapping_sdiv_assign(&build(&b)).unwrap_err();
            renders(ctx, &e)
        }
        3 => {
            let w = g.width_h(1000, EW);
            let a = g.value(w, &[]);
            let n = g.draw(0, |s| {
                (match s.below(8) {
                    0 => w,
                    1 => w + 1,
                    2 => w + 63,
                    3 => 64 * ((w + 63) / 64),
                    4 => usize::MAX,
                    5 => usize::MAX - s.below(130) as usize,
                    6 => (1usize << s.below(64)).max(w),
                    _ => w + s.below(300) as usize,
                }) as u64
            }) as usize;
            ctx.label("position/amount out of range");
            ctx.nontrivial(!a.is_zero() && n >= w);
            ctx.note(|| format!("a={:?} n={}", a, n));
            for l in [l_shift(), l_bit()] {
                run_list(ctx, l, &a, &a, n)?;
                run_oper_panics(ctx, l, &a, &a, n)?;
            }
            if n >= w {
                assign_ops(ctx, &a, &a, n, |o| o.shift)?;
            }
            if let Err(e) = build(&a).set_bit_at(n) {
                renders(ctx, &e)?;
            }
            if let Err(e) = build(&a).into_wrapping_shl(n) {
                renders(ctx, &e)?;
            }
            Ok(())
        }
        4 => {
            let w = g.width_h(1000, EW);
            let a = g.value(w, &[]);
            let t = 1 + g.draw(EW as u64, |s| {
                (match s.below(3) {
                    0 => (w + 1).min(EW),
                    1 => w.max(2) - 1,
                    _ => rand_width_h(s, 1000, EW),
                }) as u64
                    - 1
            }) as usize;
            ctx.label("impossible target width");
            ctx.nontrivial(!a.is_zero() && t != w);
            ctx.note(|| format!("a={:?} target={}", a, t));
            let wid: Vec<&'static Op> =
                l_cast().iter().copied().filter(|o| o.k == K::Wid).collect();
            run_list(ctx, &wid, &a, &a, t)?;
            // targets too large to allocate must be rejected before anything
            // is attempted
            if w > 1 {
                for big in [usize::MAX, 1 << 63, usize::MAX - 63] {
                    let mut x = build(&a);
                    set_op("truncate to a huge width");
                    match x.truncate(big) {
                        Err(e) => err_matches(&e, &MErr::Trunc { target: big, current: w })?,
                        Ok(()) => return Err(format!("truncate({}) of {:?} succeeded", big, a)),
                    }
                    same(&x, &a)?;
                    ctx.ops += 1;
                }
            }
            Ok(())
        }
        5 => {
            let w = g.width_h(700, 70_000);
            let a = g.value(w, &[]);
            ctx.label("unrepresentable values");
            ctx.nontrivial(a.bits() > 8);
            ctx.note(|| format!("a={:?}", a));
            run_list(ctx, l_prim(), &a, &a, 0)?;
            if let Err(e) = build(&a).try_to_u8() {
                renders(ctx, &e)?;
            }
            Ok(())
        }
        6 => {
            let n = g.draw(0, |s| match s.below(4) {
                0 => s.below(260),
                1 => u64::MAX - s.below(3),
                2 => 1 << s.below(64),
                _ => s.u64(),
            });
            ctx.label("widths, radices, positions");
            ctx.nontrivial(n > 1);
            ctx.note(|| format!("number {}", n));
            set_op("BitWidth::new");
            ctx.ops += 2;
            match BitWidth::new(n as usize) {
                Ok(b) if n != 0 => {
                    if b.to_usize() != n as usize || BitWidth::from(n as usize) != b {
                        return Err(format!("BitWidth::new({}) is {}", n, b.to_usize()));
                    }
                }
                Err(e) if n == 0 => {
                    if *e.kind() != ErrorKind::InvalidBitWidth(0) {
                        return Err(format!("BitWidth::new(0): {:?}", e.kind()));
                    }
                    renders(ctx, &e)?;
                    if catch(|| BitWidth::from(0usize)).is_ok() {
                        return Err("BitWidth::from(0) made a width".into());
                    }
                }
                r => return Err(format!("BitWidth::new({}) is {:?}", n, r)),
            }
            set_op("BitPos / ShiftAmount");
            let k = n as usize;
            match apint::BitPos::new(k) {
                Ok(p) if p.to_usize() == k && p == apint::BitPos::from(k) => {}
                r => return Err(format!("BitPos::new({}) is {:?}", k, r)),
            }
            if apint::ShiftAmount::from(k).to_usize() != k {
                return Err(format!("ShiftAmount::from({}) is {:?}", k, apint::ShiftAmount::from(k)));
            }
            set_op("Radix::new");
            let r = n as u8;
            match Radix::new(r) {
                Ok(x) if (2..=36).contains(&r) => {
                    if x.to_u8() != r || Radix::from(r) != x {
                        return Err(format!("Radix::new({}) is {}", r, x.to_u8()));
                    }
                }
                Err(e) if !(2..=36).contains(&r) => {
                    if *e.kind() != ErrorKind::InvalidRadix(r) {
                        return Err(format!("Radix::new({}): {:?}", r, e.kind()));
                    }
                    renders(ctx, &e)?;
                    if catch(|| Radix::from(r)).is_ok() {
                        return Err(format!("Radix::from({}) made a radix", r));
                    }
                }
                x => return Err(format!("Radix::new({}) is {:?}", r, x)),
            }
            Ok(())
        }
        _ => {
            let r = 2 + g.below(35) as u32;
            let s = crate::p_str::invalid_string(g, r);
            ctx.label("invalid strings");
            ctx.nontrivial(s.len() > 1);
            ctx.note(|| format!("radix {} {:?}", r, s));
            crate::p_str::parse_any(ctx, r, &s)?;
            if let Err(e) = ApInt::from_str_radix(r as u8, &s) {
                renders(ctx, &e)?;
            }
            Ok(())
        }
    }
}

fn enum_p12(thorough: bool, out: &mut Vec<Vec<u64>>) {
    // all pairs of different widths, all-ones operands / zero right operand
    let ws: Vec<usize> = if thorough {
        (1..=70).chain(126..=131).chain(190..=194).chain(255..=258).collect()
    } else {
        vec![1, 2, 7, 8, 9, 32, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 256, 257]
    };
    for &w in &ws {
        for &w2 in &ws {
            if w == w2 {
                continue;
            }
            for mode in [0u64, 1] {
                let mut t = vec![mode, w as u64 - 1, w2 as u64 - 1];
                t.extend(vec![u64::MAX; (w + 63) / 64]);
                t.extend(vec![u64::MAX; (w2 + 63) / 64]);
                out.push(t);
            }
        }
        for pat in [0u64, 1, u64::MAX, 1 << 63, 0x9E37_79B9_7F4A_7C15] {
            let mut t = vec![2, w as u64 - 1];
            t.extend(vec![pat; (w + 63) / 64]);
            out.push(t);
            for n in [w, w + 1, w + 63, 64 * ((w + 63) / 64), usize::MAX] {
                let mut t = vec![3, w as u64 - 1];
                t.extend(vec![pat; (w + 63) / 64]);
                t.push(n as u64);
                out.push(t);
            }
        }
    }
    for n in 0..=300u64 {
        out.push(vec![6, n]);
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P12",
        rule: "every fallible form with operands of different widths (also with a zero right operand), zero divisors, out-of-range positions/amounts, impossible target widths, unrepresentable values, invalid widths, radices and strings; error kind and payload, all operands afterwards, and the state after a caught operator panic compared with the reference. Non-trivial: offending argument present with a non-zero value",
        case: case_p12,
        enums: enum_p12,
        quick: 60_000,
    }]
}
