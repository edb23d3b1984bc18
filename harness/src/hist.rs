//! P13 / P14: histories of operations over a pool of integers.

use crate::alloc;
use crate::gen::*;
use crate::model::M;
use crate::ops::*;
use crate::p_core::{hash_of, ops};
use crate::runner::*;
use apint::{ApInt, Int, UInt};

const POOL: usize = 4;
const MAXW: usize = 70_000;

/// Tracks heap blocks obtained inside the code under test.
#[derive(Clone, Copy)]
struct Mem {
    slot: Option<usize>,
}
impl Mem {
    fn run<T>(self, f: impl FnOnce() -> T) -> T {
        match self.slot {
            None => f(),
            Some(s) => {
                let old = alloc::track(Some(s));
                struct Restore(usize);
                impl Drop for Restore {
                    fn drop(&mut self) {
                        alloc::track_raw(self.0);
                    }
                }
                let _r = Restore(old);
                f()
            }
        }
    }
}

/// width for a history: small ones, boundaries, a few large
fn hist_width(g: &mut Gen) -> usize {
    1 + g.draw(MAXW as u64, |s| {
        (match s.below(4) {
            0 => [1, 8, 32, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 256][s.below(14) as usize],
            1 => 1 + s.below(64) as usize,
            2 if s.chance(1, 6) => rand_width(s, 2500),
            _ => {
                let top = if s.chance(1, 4) { 17_000 } else { 700 };
                rand_width_x(s, 330, top, MAXW, 50_000)
            },
        }) as u64
            - 1
    }) as usize
}

/// An argument whose conversion panics.
struct Bomb;
macro_rules! bomb {
    ($($t:ident),*) => {$(
        impl From<Bomb> for apint::$t {
            fn from(_: Bomb) -> Self {
                panic!("conversion refused")
            }
        }
    )*};
}
bomb!(BitWidth, BitPos, ShiftAmount, Radix);
impl AsRef<str> for Bomb {
    fn as_ref(&self) -> &str {
        panic!("conversion refused")
    }
}

/// Calls number `k` of the generic methods with a panicking argument.
const BOMBED: usize = 36;
fn bombed(k: usize, x: &mut ApInt) {
    let c = || x.clone();
    match k {
        0 => drop(x.truncate(Bomb)),
        1 => drop(x.zero_extend(Bomb)),
        2 => drop(x.sign_extend(Bomb)),
        3 => x.zero_resize(Bomb),
        4 => x.sign_resize(Bomb),
        5 => drop(c().into_truncate(Bomb)),
        6 => drop(c().into_zero_extend(Bomb)),
        7 => drop(c().into_sign_extend(Bomb)),
        8 => drop(c().into_zero_resize(Bomb)),
        9 => drop(c().into_sign_resize(Bomb)),
        10 => drop(x.wrapping_shl_assign(Bomb)),
        11 => drop(x.wrapping_lshr_assign(Bomb)),
        12 => drop(x.wrapping_ashr_assign(Bomb)),
        13 => drop(c().into_wrapping_shl(Bomb)),
        14 => drop(c().into_wrapping_lshr(Bomb)),
        15 => drop(c().into_wrapping_ashr(Bomb)),
        16 => drop(x.get_bit_at(Bomb)),
        17 => drop(x.set_bit_at(Bomb)),
        18 => drop(x.unset_bit_at(Bomb)),
        19 => drop(x.flip_bit_at(Bomb)),
        20 => drop(x.to_string_radix(Bomb)),
        21 => drop(ApInt::from_str_radix(Bomb, "123")),
        22 => drop(ApInt::from_str_radix(10u8, Bomb)),
        23..=29 => {
            let mut t = Int::from(c());
            match k {
                23 => drop(t.truncate(Bomb)),
                24 => drop(t.extend(Bomb)),
                25 => t.resize(Bomb),
                26 => drop(t.into_truncate(Bomb)),
                27 => drop(t.into_extend(Bomb)),
                28 => drop(t.into_resize(Bomb)),
                _ => drop(t.wrapping_shr_assign(Bomb)),
            }
        }
        _ => {
            let mut t = UInt::from(c());
            match k {
                30 => drop(t.truncate(Bomb)),
                31 => drop(t.extend(Bomb)),
                32 => t.resize(Bomb),
                33 => drop(t.into_truncate(Bomb)),
                34 => drop(t.into_extend(Bomb)),
                _ => drop(t.into_resize(Bomb)),
            }
        }
    }
}

/// A generator that panics after some words.
#[cfg(feature = "cfg_rand")]
struct Fuse(usize);
#[cfg(feature = "cfg_rand")]
impl rand::RngCore for Fuse {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.0 == 0 {
            panic!("generator out of words");
        }
        self.0 -= 1;
        0x9E37_79B9_7F4A_7C15u64.rotate_left(self.0 as u32)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

struct Slot {
    a: Option<ApInt>,
    m: M,
}

/// Indistinguishable from a fresh integer of the same width and value?
fn twin(ctx: &mut Ctx, mem: Mem, g: &mut Gen, a: &ApInt, m: &M) -> Result<(), String> {
    let how = g.idx(BUILDERS);
    set_op("fresh twin");
    let t = mem.run(|| build_how(m, how));
    ctx.ops += 1;
    same(&t, m).map_err(|e| format!("fresh integer ({} route {}): {}", m.hex(), how, e))?;
    let err = |what: &str| Err(format!("{} differs from a fresh integer of value {:?} (route {})", what, m, how));
    if !(*a == t && t == *a) || *a != t {
        return err("equality");
    }
    if hash_of(a) != hash_of(&t) {
        return err("hash");
    }
    if format!("{:b}", a) != format!("{:b}", t)
        || format!("{:x}", a) != format!("{:x}", t)
        || format!("{:X}", a) != format!("{:X}", t)
        || format!("{:o}", a) != format!("{:o}", t)
    {
        return err("printed form");
    }
    #[cfg(feature = "cfg_serde")]
    {
        if serde_json::to_string(a).ok() != serde_json::to_string(&t).ok()
            || bincode::serialize(a).ok() != bincode::serialize(&t).ok()
        {
            return err("serialized form");
        }
    }
    let (i, u) = mem.run(|| (Int::from(a.clone()), UInt::from(a.clone())));
    let (it, ut) = mem.run(|| (Int::from(t.clone()), UInt::from(t)));
    if i != it || u != ut || hash_of(&i) != hash_of(&it) || hash_of(&u) != hash_of(&ut) {
        return err("typed equality or hash");
    }
    if i.partial_cmp(&it) != Some(std::cmp::Ordering::Equal)
        || u.partial_cmp(&ut) != Some(std::cmp::Ordering::Equal)
    {
        return err("order");
    }
    Ok(())
}

fn history(
    g: &mut Gen,
    ctx: &mut Ctx,
    mem: Mem,
    max_steps: u64,
    threads: bool,
) -> Result<(), String> {
    let mut pool: Vec<Slot> = vec![];
    for _ in 0..POOL {
        let w = hist_width(g);
        let m = g.value(w, &[]);
        let how = g.idx(BUILDERS);
        let a = mem.run(|| build_how(&m, how));
        pool.push(Slot { a: Some(a), m });
    }
    let steps = 1 + g.draw(max_steps, |s| s.below(max_steps));
    let mut crossings = 0;
    let mut fails = 0;
    let mut big = 0;
    for _ in 0..steps {
        if g.dry() {
            break;
        }
        let i = g.idx(POOL);
        let kind = g.draw(17, |s| {
            // mostly table operations
            if s.chance(3, 4) {
                0
            } else {
                1 + s.below(16)
            }
        });
        let before_inline = pool[i].m.w <= 64;
        match kind {
            1 => {
                // clone into another slot, drop what was there
                let j = g.idx(POOL);
                let c = mem.run(|| pool[i].a.as_ref().unwrap().clone());
                let m = pool[i].m.clone();
                set_op("clone");
                pool[j].a = Some(c);
                pool[j].m = m;
                ctx.note(|| format!("[{}]=clone [{}]", j, i));
            }
            2 | 3 => {
                // assign / strict_assign / clone_from across slots
                let j = g.idx(POOL);
                if i == j {
                    continue;
                }
                let mut x = pool[i].a.take().unwrap();
                let y = pool[j].a.as_ref().unwrap();
                let how = g.below(3);
                set_op(["assign", "strict_assign", "clone_from"][how as usize]);
                let ok = mem.run(|| match how {
                    0 => {
                        x.assign(y);
                        true
                    }
                    1 => x.strict_assign(y).is_ok(),
                    _ => {
                        x.clone_from(y);
                        true
                    }
                });
                let want = how != 1 || pool[i].m.w == pool[j].m.w;
                if ok != want {
                    return Err(format!("strict_assign {:?} <- {:?}: ok={}", pool[i].m, pool[j].m, ok));
                }
                pool[i].a = Some(x);
                if ok {
                    pool[i].m = pool[j].m.clone();
                }
                ctx.note(|| format!("[{}].assign#{}([{}])", i, how, j));
            }
            4 => {
                // fresh value
                let w = hist_width(g);
                let m = g.value(w, &[&pool[i].m]);
                let how = g.idx(BUILDERS);
                set_op("build");
                pool[i].a = Some(mem.run(|| build_how(&m, how)));
                pool[i].m = m;
                ctx.note(|| format!("[{}]=fresh {:?}", i, pool[i].m));
            }
            5 => {
                // print and parse back (width becomes that of the parser)
                let r = 2 + g.below(35) as u32;
                set_op("print/parse");
                let s = mem.run(|| pool[i].a.as_ref().unwrap().to_string_radix(r as u8));
                let b = mem.run(|| ApInt::from_str_radix(r as u8, &s)).map_err(|e| {
                    format!("{:?} printed in radix {} as {:?} does not parse: {:?}", pool[i].m, r, s, e.kind())
                })?;
                drop(s);
                let w = pool[i].m.w;
                let b = mem.run(|| b.into_zero_resize(w));
                pool[i].a = Some(b);
                ctx.note(|| format!("[{}] printed and parsed in radix {}", i, r));
            }
            6 => {
                // swap two slots
                let j = g.idx(POOL);
                pool.swap(i, j);
                ctx.note(|| format!("swap [{}] [{}]", i, j));
            }
            7 => {
                twin(ctx, mem, g, pool[i].a.as_ref().unwrap(), &pool[i].m)?;
            }
            #[cfg(feature = "cfg_rand")]
            8 => {
                use rand::SeedableRng;
                let seed = g.u64();
                set_op("randomize_using");
                let mut x = pool[i].a.take().unwrap();
                mem.run(|| x.randomize_using(&mut rand::rngs::SmallRng::seed_from_u64(seed)));
                let m = read(&x)?;
                if m.w != pool[i].m.w {
                    return Err("randomize changed the width".into());
                }
                pool[i].a = Some(x);
                pool[i].m = m;
                ctx.note(|| format!("[{}].randomize -> {:?}", i, pool[i].m));
            }
            #[cfg(feature = "cfg_serde")]
            9 => {
                set_op("serialize/deserialize");
                let x = pool[i].a.as_ref().unwrap();
                let y: ApInt = if g.coin() {
                    let s = serde_json::to_string(x).map_err(|e| e.to_string())?;
                    mem.run(|| serde_json::from_str(&s)).map_err(|e| e.to_string())?
                } else {
                    let s = bincode::serialize(x).map_err(|e| e.to_string())?;
                    mem.run(|| bincode::deserialize(&s)).map_err(|e| e.to_string())?
                };
                pool[i].a = Some(y);
                ctx.note(|| format!("[{}] serialized and read back", i));
            }
            10 => {
                // a panicking operator unwinds with live operands
                let j = g.idx(POOL);
                let ops: Vec<&Op> = ops().iter().filter(|o| o.oper && o.k != K::Un).collect();
                let op = ops[g.idx(ops.len())];
                let n = pool[i].m.w + g.idx(3);
                let b = pool[j].m.clone();
                if (op.model)(&pool[i].m, &b, n).out.is_ok() {
                    continue;
                }
                let x = mem.run(|| pool[i].a.as_ref().unwrap().clone());
                let y = mem.run(|| pool[j].a.as_ref().unwrap().clone());
                set_op(op.name);
                if mem.run(|| catch(|| drop((op.run)(x, y, n)))).is_ok() {
                    return Err(format!("{} did not panic on {:?} {:?} {}", op.name, pool[i].m, b, n));
                }
                ctx.ops += 1;
                fails += 1;
                ctx.note(|| format!("{} on [{}] [{}] n={} panics", op.name, i, j, n));
            }
            11 if threads => {
                // hand the value to another thread, mutate it there, take it back
                let x = pool[i].a.take().unwrap();
                let m = pool[i].m.clone();
                let w2 = hist_width(g);
                set_op("other thread");
                let x = std::thread::scope(|sc| {
                    sc.spawn(move || {
                        mem.run(move || {
                            let mut x = x;
                            x.sign_resize(w2);
                            x.flip_all();
                            let y = x.clone();
                            drop(x);
                            y
                        })
                    })
                    .join()
                })
                .map_err(|_| "panic in the other thread".to_string())?;
                pool[i].a = Some(x);
                pool[i].m = m.sresize(w2).not();
                ctx.note(|| format!("[{}] resized to {} and flipped in another thread", i, w2));
            }
            12 if threads => {
                // several threads read the same integer and drop clones of it
                let x = pool[i].a.as_ref().unwrap();
                let m = &pool[i].m;
                set_op("shared reads");
                let ok = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..3)
                        .map(|k| {
                            sc.spawn(move || {
                                let c = mem.run(|| {
                                    let mut c = x.clone();
                                    if k == 1 {
                                        c.flip_all();
                                        c.flip_all();
                                    }
                                    c
                                });
                                let r = c == *x && same(&c, m).is_ok() && same(x, m).is_ok();
                                drop(c);
                                r
                            })
                        })
                        .collect();
                    hs.into_iter().all(|h| h.join().unwrap_or(false))
                });
                if !ok {
                    return Err(format!("concurrent readers of {:?} disagree", m));
                }
                ctx.note(|| format!("[{}] read by three threads", i));
            }
            #[cfg(feature = "cfg_serde")]
            14 => {
                // a deserialization that (most likely) fails part of the way
                set_op("failing deserialization");
                let x = pool[i].a.as_ref().unwrap();
                let how = g.below(6);
                let (mut js, mut bc) = (String::new(), vec![]);
                if how % 2 == 0 {
                    js = serde_json::to_string(x).map_err(|e| e.to_string())?;
                } else {
                    bc = bincode::serialize(x).map_err(|e| e.to_string())?;
                }
                match how {
                    0 => js.truncate(g.idx(js.len())),
                    1 => bc.truncate(g.idx(bc.len())),
                    2 => {
                        // one digit too many, of the wrong type
                        let k = js.rfind(']').unwrap_or(0);
                        js.insert_str(k, [",7", ",-1", ",\"x\"", ",null"][g.idx(4)]);
                    }
                    3 => {
                        let k = g.idx(bc.len());
                        bc[k] ^= 1 << g.idx(8);
                        // keep a corrupted length from asking for the moon
                        bc.truncate(4096);
                    }
                    4 => js = js.replace("digits", "digit5"),
                    _ => bc.extend([0; 9]),
                }
                let r: Result<ApInt, String> = mem.run(|| {
                    if how % 2 == 0 {
                        serde_json::from_str(&js).map_err(|e| e.to_string())
                    } else {
                        bincode::deserialize(&bc).map_err(|e| e.to_string())
                    }
                });
                ctx.ops += 1;
                ctx.note(|| format!("[{}] corrupted encoding #{}: ok={}", i, how, r.is_ok()));
                drop(r);
            }
            #[cfg(feature = "cfg_rand")]
            15 => {
                // a generator that panics while the integer is being filled
                let left = g.idx(6);
                let w = pool[i].m.w;
                let mut x = mem.run(|| pool[i].a.as_ref().unwrap().clone());
                set_op("randomize with a panicking generator");
                let con = g.coin();
                let r = mem.run(|| {
                    catch(std::panic::AssertUnwindSafe(|| {
                        let mut r = Fuse(left);
                        if con {
                            drop(ApInt::random_with_width_using(apint::BitWidth::new(w).unwrap(), &mut r));
                        } else {
                            x.randomize_using(&mut r);
                        }
                    }))
                });
                ctx.ops += 1;
                ctx.note(|| format!("[{}] randomized by a generator failing after {} words: ok={}", i, left, r.is_ok()));
                drop(x);
                drop(r);
            }
            16 => {
                // an argument whose conversion panics inside the call
                let k = g.idx(BOMBED);
                let mut x = mem.run(|| pool[i].a.as_ref().unwrap().clone());
                set_op("call with a panicking argument");
                let r = mem.run(|| catch(std::panic::AssertUnwindSafe(|| bombed(k, &mut x))));
                ctx.ops += 1;
                ctx.note(|| format!("[{}] generic call {} with a panicking argument: ok={}", i, k, r.is_ok()));
                drop(r);
                read(&x)?;
                drop(x);
            }
            13 => {
                // move through a collection that reallocates and is dropped
                let x = pool[i].a.take().unwrap();
                let mut v = Vec::new();
                v.push(x);
                for _ in 0..5 {
                    let c = mem.run(|| v[0].clone());
                    v.push(c);
                }
                let x = v.swap_remove(3);
                drop(v);
                pool[i].a = Some(x);
                ctx.note(|| format!("[{}] moved through a vector", i));
            }
            _ => {
                let all = ops();
                let op = &all[g.idx(all.len())];
                let j = g.idx(POOL);
                let mut b_copy: Option<ApInt> = None;
                let mut bm = pool[j].m.clone();
                let mut moved = false;
                if op.k == K::Bin {
                    let fit = op.g != G::Cast && !g.chance(1, 6);
                    if i != j && (!fit || bm.w == pool[i].m.w) {
                        b_copy = pool[j].a.take();
                        moved = true;
                    } else {
                        // operate on a copy brought to the right width
                        let w = pool[i].m.w;
                        let signed = g.coin();
                        let y = pool[j].a.as_ref().unwrap();
                        let fit = fit && bm.w != w;
                        b_copy = Some(mem.run(|| {
                            let mut c = y.clone();
                            if fit {
                                if signed {
                                    c.sign_resize(w);
                                } else {
                                    c.zero_resize(w);
                                }
                            }
                            c
                        }));
                        if fit {
                            bm = if signed { bm.sresize(w) } else { bm.zresize(w) };
                        }
                    }
                }
                let n = match op.k {
                    K::Wid => hist_width(g),
                    K::Amt | K::Pos => {
                        if g.chance(1, 8) {
                            g.amount(pool[i].m.w)
                        } else {
                            g.amount_below(pool[i].m.w)
                        }
                    }
                    _ => 0,
                };
                let want = (op.model)(&pool[i].m, &bm, n);
                if want.out.is_err() {
                    fails += 1;
                    if op.oper {
                        if moved {
                            pool[j].a = b_copy;
                        }
                        continue;
                    }
                }
                let a = pool[i].a.take().unwrap();
                let b = match b_copy {
                    Some(b) => b,
                    None => mem.run(|| a.clone()),
                };
                let bm2 = if op.k == K::Bin { bm.clone() } else { pool[i].m.clone() };
                let want = if op.k == K::Bin { want } else { (op.model)(&pool[i].m, &bm2, n) };
                set_op(op.name);
                let r = mem.run(|| (op.run)(a, b, n));
                ctx.ops += 1;
                judge(op, &r, &want).map_err(|m| {
                    format!("{} [a={:?} b={:?} n={}]", m, pool[i].m, bm2, n)
                })?;
                ctx.note(|| format!("[{}] {} [{}] n={} -> {:?}", i, op.name, j, n, want.out.as_ref().map(|_| &want.a)));
                match r.a {
                    Some(x) => {
                        pool[i].a = Some(x);
                        pool[i].m = want.a;
                    }
                    None => {
                        // consumed by the failing call
                        let m = pool[i].m.clone();
                        pool[i].a = Some(mem.run(|| build(&m)));
                    }
                }
                if moved {
                    match r.b {
                        Some(y) => {
                            pool[j].a = Some(y);
                            pool[j].m = want.b;
                        }
                        None => {
                            pool[j].a = Some(mem.run(|| build(&bm2)));
                        }
                    }
                }
            }
        }
        if before_inline != (pool[i].m.w <= 64) {
            crossings += 1;
        }
        if pool[i].m.nonzero_digits() >= 2 {
            big += 1;
        }
    }
    // every integer still denotes what the history says
    set_op("final state");
    for s in &pool {
        let a = s.a.as_ref().unwrap();
        same(a, &s.m).map_err(|e| format!("after the history: {} (expected {:?})", e, s.m))?;
        twin(ctx, mem, g, a, &s.m)?;
    }
    if crossings > 0 {
        ctx.label("crosses the 64-bit boundary");
    }
    if fails > 0 {
        ctx.label("contains failing operations");
    }
    ctx.label(match steps {
        0..=4 => "1-4 steps",
        5..=12 => "5-12 steps",
        13..=24 => "13-24 steps",
        _ => "more than 24 steps",
    });
    ctx.nontrivial(steps >= 3 && big > 0);
    Ok(())
}

pub fn case_p13(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    history(g, ctx, Mem { slot: None }, 40, false)
}

pub fn case_p14(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let slot = ctx.slot;
    alloc::reset_live(slot);
    let _ = alloc::take_errors(slot);
    let r = history(g, ctx, Mem { slot: Some(slot) }, 30, g_threads());
    alloc::flush(slot);
    if let Some(e) = alloc::take_errors(slot) {
        return Err(format!("memory error: {}", e));
    }
    r?;
    // everything the history obtained has been released
    let l = alloc::live(slot);
    if alloc::guard_active() && l != 0 {
        return Err(format!("{} heap block(s) leaked", l));
    }
    Ok(())
}

fn g_threads() -> bool {
    true
}

fn enum_none(_: bool, _: &mut Vec<Vec<u64>>) {}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P13",
            rule: "histories of 1..40 steps over a pool of four integers (all ~250 public operation forms, clone/assign/clone_from, print+parse, serialize+deserialize, randomize, swaps, panicking operators, generators and argument conversions, other-width operands, failing calls), state compared with the model after every step, with a fresh twin at random points and at the end. Non-trivial: at least three steps and a value with at least two non-zero digits on the way",
            case: case_p13,
            enums: enum_none,
            quick: 150_000,
        },
        Prop {
            id: "P14",
            rule: "histories of 1..30 steps as P13 plus moves to and shared reads from other threads, run under an allocator that guards, poisons and accounts every block (apguard), under AddressSanitizer, and (thorough) under Miri. Non-trivial: as P13",
            case: case_p14,
            enums: enum_none,
            quick: 60_000,
        },
    ]
}
