//! P11: serialization.

use crate::gen::*;
use crate::model::M;
use crate::ops::*;
use crate::runner::*;
use apint::{ApInt, BitWidth, Width};
use serde_json::{json, Value};

fn cbor<T: serde::Serialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    ciborium::into_writer(t, &mut v).expect("cbor writer");
    v
}
fn from_cbor<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    ciborium::from_reader(b).map_err(|e| e.to_string())
}

fn round_trip(ctx: &mut Ctx, m: &M) -> Result<(), String> {
    let a = build(m);
    set_op("serialize");
    let j = serde_json::to_string(&a).map_err(|e| e.to_string())?;
    let jv = serde_json::to_value(&a).map_err(|e| e.to_string())?;
    let bn = bincode::serialize(&a).map_err(|e| e.to_string())?;
    let cb = cbor(&a);
    set_op("deserialize");
    let outs: [(&str, Result<ApInt, String>); 8] = [
        ("json text", serde_json::from_str(&j).map_err(|e| e.to_string())),
        ("json bytes", serde_json::from_slice(j.as_bytes()).map_err(|e| e.to_string())),
        ("json value", serde_json::from_value(jv).map_err(|e| e.to_string())),
        (
            "json pretty",
            serde_json::to_string_pretty(&a)
                .and_then(|s| serde_json::from_str(&s))
                .map_err(|e| e.to_string()),
        ),
        ("bincode", bincode::deserialize(&bn).map_err(|e| e.to_string())),
        ("cbor", from_cbor(&cb)),
        (
            "cbor bytes through a generic value",
            from_cbor::<ciborium::Value>(&cb).and_then(|v| v.deserialized().map_err(|e| e.to_string())),
        ),
        (
            "cbor value",
            ciborium::Value::serialized(&a)
                .and_then(|v| v.deserialized())
                .map_err(|e| e.to_string()),
        ),
    ];
    for (n, r) in outs {
        ctx.ops += 1;
        let b = r.map_err(|e| format!("{} of {:?}: {}", n, m, e))?;
        same(&b, m).map_err(|e| format!("{} round trip: {}", n, e))?;
        if b != a {
            return Err(format!("{} round trip of {:?} is not equal", n, m));
        }
    }
    Ok(())
}

/// Integers and widths as parts of a larger document: what follows one of them
/// in the stream must be read back too.
fn embedded(ctx: &mut Ctx, m: &M, m2: &M, tag: u64) -> Result<(), String> {
    type Doc = (u64, ApInt, u64, Vec<ApInt>, Option<BitWidth>, (BitWidth, ApInt), String);
    let (a, b) = (build(m), build(m2));
    let doc: Doc = (
        tag,
        a.clone(),
        !tag,
        vec![b.clone(), a.clone(), b.clone()],
        Some(a.width()),
        (b.width(), b.clone()),
        "end".into(),
    );
    set_op("serde of a document");
    let j = serde_json::to_string(&doc).map_err(|e| e.to_string())?;
    let bn = bincode::serialize(&doc).map_err(|e| e.to_string())?;
    let size = bincode::serialized_size(&doc).map_err(|e| e.to_string())?;
    if size != bn.len() as u64 {
        return Err(format!("bincode size {} but {} bytes", size, bn.len()));
    }
    let cb = cbor(&doc);
    let outs: [(&str, Result<Doc, String>); 3] = [
        ("json", serde_json::from_str(&j).map_err(|e| e.to_string())),
        ("bincode", bincode::deserialize(&bn).map_err(|e| e.to_string())),
        ("cbor", from_cbor(&cb)),
    ];
    for (n, r) in outs {
        ctx.ops += 1;
        match r {
            Ok(d) if d == doc => {
                same(&d.1, m).and_then(|_| same(&d.5 .1, m2)).map_err(|e| format!("{} document: {}", n, e))?
            }
            x => return Err(format!("{} document with {:?} and {:?} came back as {:?}", n, m, m2, x)),
        }
    }
    set_op("serde of a generic document");
    let v: ciborium::Value = from_cbor(&cb)?;
    ctx.ops += 1;
    match v.deserialized::<Doc>() {
        Ok(d) if d == doc => {}
        x => return Err(format!("cbor document with {:?} and {:?} read as a value came back as {:?}", m, m2, x)),
    }
    // one after the other in one stream
    let mut v = vec![];
    for x in [&a, &b, &a] {
        ciborium::into_writer(x, &mut v).map_err(|e| e.to_string())?;
    }
    let mut r = &v[..];
    for x in [m, m2, m] {
        ctx.ops += 1;
        let y: ApInt = ciborium::from_reader(&mut r).map_err(|e| format!("cbor stream: {}", e))?;
        same(&y, x).map_err(|e| format!("cbor stream: {}", e))?;
    }
    if !r.is_empty() {
        return Err(format!("cbor stream: {} bytes left over", r.len()));
    }
    Ok(())
}

/// A deserialized integer must be well-formed and round-trip.
fn well(ctx: &mut Ctx, what: &str, a: &ApInt) -> Result<M, String> {
    ctx.ops += 1;
    let m = read(a).map_err(|e| format!("{}: {}", what, e))?;
    if *a != build(&m) {
        return Err(format!("{}: not equal to a fresh integer of its value {:?}", what, m));
    }
    Ok(m)
}

fn width_trip(ctx: &mut Ctx, n: u64) -> Result<(), String> {
    set_op("BitWidth serde");
    let b = match BitWidth::new(n as usize) {
        Ok(b) => b,
        Err(_) => {
            // zero: rejected in every format
            let r: [(&str, bool); 3] = [
                ("json", serde_json::from_str::<BitWidth>("[0]").is_ok()),
                ("bincode", bincode::deserialize::<BitWidth>(&0u64.to_le_bytes()).is_ok()),
                ("cbor", from_cbor::<BitWidth>(&cbor(&0u64)).is_ok()),
            ];
            ctx.ops += 3;
            return match r.iter().find(|x| x.1) {
                Some((n, _)) => Err(format!("{}: zero bit width accepted", n)),
                None => Ok(()),
            };
        }
    };
    let j = serde_json::to_string(&b).map_err(|e| e.to_string())?;
    let bn = bincode::serialize(&b).map_err(|e| e.to_string())?;
    let cb = cbor(&b);
    for (n, r) in [
        ("json", serde_json::from_str::<BitWidth>(&j).map_err(|e| e.to_string())),
        ("bincode", bincode::deserialize::<BitWidth>(&bn).map_err(|e| e.to_string())),
        ("cbor", from_cbor::<BitWidth>(&cb)),
    ] {
        ctx.ops += 1;
        match r {
            Ok(x) if x == b => {}
            x => return Err(format!("{}: width {} came back as {:?}", n, b.to_usize(), x)),
        }
    }
    Ok(())
}

fn stated_width(v: &Value) -> Option<u64> {
    v.as_array()?.first()?.as_u64()
}

/// Structured documents: assembled from fields, judged by a strict acceptor.
fn structured(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let w = g.width(300);
    let m = g.value(w, &[]);
    let nd = (w + 63) / 64;
    // stated width
    let width: Value = match g.below(12) {
        0 => json!([0]),
        1 => json!([w as u64 + 1]),
        2 => json!([w.max(2) as u64 - 1]),
        3 => json!([w as u64 + 64]),
        4 => json!([u64::MAX]),
        5 => json!([g.u64()]),
        6 => match g.below(6) {
            0 => json!([-1]),
            1 => json!([1.5]),
            2 => json!(["8"]),
            3 => json!([]),
            4 => json!(w as u64),
            _ => Value::Null,
        },
        _ => json!([w as u64]),
    };
    let mut ds: Vec<Value> = m.digits().into_iter().map(|d| json!(d)).collect();
    match g.below(10) {
        0 => {
            ds.pop();
        }
        1 => ds.push(json!(0)),
        2 => ds.push(json!(g.u64())),
        3 => ds.clear(),
        4 => {
            // excess bits in the top digit
            let top = m.digit(nd - 1) | g.u64();
            ds[nd - 1] = json!(top);
        }
        5 => {
            let i = g.idx(nd);
            ds[i] = match g.below(4) {
                0 => json!(-1),
                1 => json!("0"),
                2 => json!(1.0),
                _ => Value::Null,
            };
        }
        _ => {}
    }
    // field layout
    let layout = g.below(10);
    let fw = ("width", width.clone());
    let fd = ("digits", Value::Array(ds.clone()));
    let fields: Vec<(&str, Value)> = match layout {
        0 => vec![fd, fw],
        1 => vec![fw],
        2 => vec![fd],
        3 => vec![],
        4 => vec![fw.clone(), fd, fw],
        5 => vec![fw, fd.clone(), fd],
        6 => vec![fw, fd, ("extra", json!(1))],
        7 => vec![("Width", fw.1), fd],
        _ => vec![fw, fd],
    };
    let text = format!(
        "{{{}}}",
        fields.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect::<Vec<_>>().join(",")
    );
    ctx.note(|| format!("json {}", text));
    let sw = stated_width(&width);
    let digits_ok = ds.iter().all(|d| d.as_u64().is_some());
    let fields_ok = matches!(layout, 0 | 8 | 9);
    let count_ok = sw.map(|s| s > 0 && (s - 1) / 64 + 1 == ds.len() as u64).unwrap_or(false);
    // must be rejected
    let bad = !fields_ok || !count_ok || !digits_ok;
    ctx.label(if bad { "structured: must be rejected" } else { "structured: acceptable" });
    set_op("deserialize json");
    ctx.ops += 1;
    let r = serde_json::from_str::<ApInt>(&text);
    judge_de(ctx, "json", &text, r.map_err(|e| e.to_string()), bad, sw, &ds)?;
    // the same content through the two binary formats
    if fields_ok {
        if let (Some(s), true) = (sw, digits_ok) {
            let raw: Vec<u64> = ds.iter().map(|d| d.as_u64().unwrap()).collect();
            let bad = !count_ok;
            set_op("deserialize bincode");
            let bn = bincode::serialize(&(s, raw.clone())).map_err(|e| e.to_string())?;
            judge_de(ctx, "bincode", &text, bincode::deserialize::<ApInt>(&bn).map_err(|e| e.to_string()), bad, sw, &ds)?;
            set_op("deserialize cbor");
            let cb = cbor(&(s, raw.clone()));
            judge_de(ctx, "cbor", &text, from_cbor::<ApInt>(&cb), bad, sw, &ds)?;
            // element count other than two
            for (n, b) in [
                ("cbor []", cbor::<[u64; 0]>(&[])),
                ("cbor [width]", cbor(&(s,))),
                ("cbor [[digits]]", cbor(&(raw.clone(),))),
            ] {
                ctx.ops += 1;
                if from_cbor::<ApInt>(&b).is_ok() {
                    return Err(format!("{} accepted (width {} digits {:?})", n, s, raw));
                }
            }
        }
    }
    ctx.nontrivial(ds.len() > 1 || bad);
    Ok(())
}

fn judge_de(
    ctx: &mut Ctx,
    fmt: &str,
    text: &str,
    r: Result<ApInt, String>,
    bad: bool,
    sw: Option<u64>,
    ds: &[Value],
) -> Result<(), String> {
    ctx.ops += 1;
    match r {
        Err(e) => {
            // content without excess bits that states a matching digit count
            // is what serialization itself produces and must be accepted
            if !bad {
                let s = sw.unwrap() as usize;
                let raw: Vec<u64> = ds.iter().map(|d| d.as_u64().unwrap()).collect();
                if M::from_digits(s, &raw).digits() == raw {
                    return Err(format!("{}: {} rejected: {}", fmt, text, e));
                }
            }
            Ok(())
        }
        Ok(a) => {
            if bad {
                return Err(format!("{}: {} accepted as {:?}", fmt, text, a));
            }
            let m = well(ctx, fmt, &a).map_err(|e| format!("{} from {}", e, text))?;
            if m.w as u64 != sw.unwrap() {
                return Err(format!("{}: {} gives width {}", fmt, text, m.w));
            }
            let raw: Vec<u64> = ds.iter().map(|d| d.as_u64().unwrap()).collect();
            if M::from_digits(m.w, &raw) != m {
                return Err(format!("{}: {} gives {:?}", fmt, text, m));
            }
            Ok(())
        }
    }
}

/// Byte-level corruption of real encodings.
fn corrupt(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let w = g.width(300);
    let m = g.value(w, &[]);
    let a = build(&m);
    let fmt = g.below(3);
    let mut b = match fmt {
        0 => serde_json::to_vec(&a).map_err(|e| e.to_string())?,
        1 => bincode::serialize(&a).map_err(|e| e.to_string())?,
        _ => cbor(&a),
    };
    let n = 1 + g.below(4);
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        // positions near the start (lengths, tags) are favoured
        let len = b.len() as u64;
        let i = g.draw(len, |s| if s.below(2) == 0 { s.below(len.min(20)) } else { s.below(len) }) as usize;
        match g.below(7) {
            0 => b[i] ^= 1 << g.below(8),
            1 => b[i] = g.below(256) as u8,
            2 => b.truncate(i),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, g.below(256) as u8),
            5 => {
                let j = g.idx(b.len());
                b.swap(i, j);
            }
            _ => {
                let tail: Vec<u8> = b[i..].to_vec();
                b.extend(tail);
            }
        }
    }
    ctx.label(["corrupted json", "corrupted bincode", "corrupted cbor"][fmt as usize]);
    ctx.note(|| format!("{} {:?}", ["json", "bincode", "cbor"][fmt as usize], String::from_utf8_lossy(&b)));
    ctx.nontrivial(b.len() > 8);
    feed(ctx, fmt, &b)
}

/// Arbitrary bytes: error or well-formed integer / width.
pub fn feed(ctx: &mut Ctx, fmt: u64, b: &[u8]) -> Result<(), String> {
    set_op("deserialize bytes");
    ctx.ops += 1;
    let r: Result<ApInt, String> = match fmt {
        0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => from_cbor(b),
    };
    if let Ok(a) = r {
        ctx.label("corrupted input still accepted");
        let m = well(ctx, "corrupted input", &a)?;
        // what the document states, where it can be decoded independently
        match fmt {
            0 => {
                if let Ok(v) = serde_json::from_slice::<Value>(b) {
                    let sw = stated_width(&v["width"]);
                    let n = v["digits"].as_array().map(|x| x.len());
                    if v.as_object().map(|o| o.len()) != Some(2)
                        || sw != Some(m.w as u64)
                        || n != Some((m.w + 63) / 64)
                    {
                        return Err(format!("accepted {} as {:?}", v, m));
                    }
                }
            }
            1 => {
                if let Ok((s, ds)) = bincode::deserialize::<(u64, Vec<u64>)>(b) {
                    if s != m.w as u64 || ds.len() != (m.w + 63) / 64 || M::from_digits(m.w, &ds) != m {
                        return Err(format!("bincode width {} digits {:?} accepted as {:?}", s, ds, m));
                    }
                }
            }
            _ => {
                if let Ok((s, ds)) = from_cbor::<(u64, Vec<u64>)>(b) {
                    if s != m.w as u64 || ds.len() != (m.w + 63) / 64 || M::from_digits(m.w, &ds) != m {
                        return Err(format!("cbor width {} digits {:?} accepted as {:?}", s, ds, m));
                    }
                }
            }
        }
        round_trip(ctx, &m)?;
    }
    let r: Result<BitWidth, String> = match fmt {
        0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => from_cbor(b),
    };
    if let Ok(x) = r {
        if x.to_usize() == 0 {
            return Err("a zero bit width was deserialized".into());
        }
    }
    Ok(())
}

pub fn case_p11(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        use crate::p_core::{giant_value, GIANTS};
        let i = g.below(8);
        let w = GIANTS[(i % 3) as usize];
        ctx.label("giant width");
        ctx.nontrivial(true);
        ctx.note(|| format!("giant width {} value {}", w, i));
        return round_trip(ctx, &giant_value(w, i));
    }
    match g.below(8) {
        0 | 1 => {
            let w = g.width_x(1500, 17_000, 70_000, 8000);
            let m = g.value(w, &[]);
            ctx.label("round trip");
            ctx.nontrivial(m.nonzero_digits() > 1);
            ctx.note(|| format!("round trip {:?}", m));
            round_trip(ctx, &m)?;
            let w2 = g.width(300);
            let m2 = g.value(w2, &[&m]);
            let tag = g.u64();
            embedded(ctx, &m, &m2, tag)
        }
        2 => {
            let n = g.draw(0, |s| match s.below(4) {
                0 => s.below(300),
                1 => u64::MAX - s.below(100),
                2 => 1 << s.below(64),
                _ => s.u64() >> s.below(64),
            });
            ctx.label("bit width round trip");
            ctx.nontrivial(n > 1);
            ctx.note(|| format!("bit width {}", n));
            width_trip(ctx, n)
        }
        3 => {
            // arbitrary short bytes
            let fmt = g.below(3);
            let n = g.idx(28);
            let b: Vec<u8> = (0..n)
                .map(|_| {
                    g.draw(256, |s| {
                        if fmt == 0 {
                            b"{}[],:\"widthdigits0123456789- e."[s.below(32) as usize] as u64
                        } else if s.below(2) == 0 {
                            [0u64, 1, 0x80, 0x81, 0x82, 0x83, 0x9f, 0xff, 0x1b, 0x18, 0x40, 0xa0, 0xf6]
                                [s.below(13) as usize]
                        } else {
                            s.below(256)
                        }
                    }) as u8
                })
                .collect();
            ctx.label("arbitrary bytes");
            ctx.nontrivial(n > 2);
            ctx.note(|| format!("format {} bytes {:?}", fmt, b));
            feed(ctx, fmt, &b)
        }
        4 | 5 => structured(g, ctx),
        _ => corrupt(g, ctx),
    }
}

fn enum_p11(thorough: bool, out: &mut Vec<Vec<u64>>) {
    crate::p_core::giants(out);
    for w in 1..=if thorough { 1500u64 } else { 520 } {
        for pat in [0u64, 1, u64::MAX, 1 << 63, 0x9E37_79B9_7F4A_7C15] {
            let mut t = vec![0, w - 1];
            t.extend(vec![pat; ((w + 63) / 64) as usize]);
            out.push(t);
        }
        out.push(vec![2, w]);
    }
    out.push(vec![2, 0]);
    // all combinations of width / digits / layout variants
    for w in [1u64, 63, 64, 65, 128, 129, 192] {
        for wv in 0..12u64 {
            for sub in 0..6u64 {
                if wv != 6 && sub > 0 {
                    continue;
                }
                for dv in 0..10u64 {
                    for dsub in 0..4u64 {
                        if dv != 5 && dsub > 0 {
                            continue;
                        }
                        for lay in 0..10u64 {
                            let mut t = vec![4, w - 1];
                            t.extend(vec![u64::MAX; ((w + 63) / 64) as usize]);
                            t.push(wv);
                            if wv == 5 {
                                t.push(77);
                            }
                            if wv == 6 {
                                t.push(sub);
                            }
                            t.push(dv);
                            match dv {
                                2 | 4 => t.push(u64::MAX),
                                5 => {
                                    t.push(0);
                                    t.push(dsub);
                                }
                                _ => {}
                            }
                            t.push(lay);
                            out.push(t);
                        }
                    }
                }
            }
        }
    }
    // every truncation of an encoding
    for w in [1u64, 64, 65, 128, 200] {
        for fmt in 0..3u64 {
            for i in 0..60u64 {
                let mut t = vec![6, w - 1];
                t.extend(vec![0x9E37_79B9_7F4A_7C15; ((w + 63) / 64) as usize]);
                t.extend([fmt, 0, i, 2]);
                out.push(t);
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P11",
        rule: "round trips of integers (1..1500 bits) and bit widths through JSON (text, bytes, value, pretty), bincode and CBOR, alone, as parts of larger documents and one after the other in a stream; documents assembled from valid and invalid widths, digit lists and field layouts judged by a strict acceptor; byte-level corruptions, every truncation, and arbitrary bytes. Non-trivial: more than one digit, or a document that must be rejected, or more than two bytes of corrupted input",
        case: case_p11,
        enums: enum_p11,
        quick: 200_000,
    }]
}
