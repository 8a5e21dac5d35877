//! Encoding: E01 to E03.

use crate::dec::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::payload::*;
use crate::wire::*;
use bytes::Bytes;
use protofish::decode::*;

fn i64s() -> Vec<i64>
{
    let mut v = vec![];
    for k in 0..64 {
        let p = 1i128 << k;
        for d in -2..=2i128 {
            for s in [1i128, -1] {
                let x = s * p + d;
                if x >= i64::MIN as i128 && x <= i64::MAX as i128 {
                    v.push(x as i64);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn f32s() -> Vec<f32>
{
    let mut v: Vec<f32> = vec![
        0.0, -0.0, 1.0, -1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::INFINITY,
        f32::NEG_INFINITY, f32::NAN,
    ];
    for b in [1u32, 0x7fa0_0001, 0xffc0_1234, 0x7fff_ffff, 0xffff_ffff, 0x8000_0001, 0x3f80_0001] {
        v.push(f32::from_bits(b));
    }
    v
}

fn f64s() -> Vec<f64>
{
    let mut v: Vec<f64> = vec![
        0.0, -0.0, 1.0, -1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY,
        f64::NEG_INFINITY, f64::NAN,
    ];
    for b in [1u64, 0x7ff4_0000_0000_0001, 0xfff8_0000_dead_beef, u64::MAX, 0x8000_0000_0000_0001] {
        v.push(f64::from_bits(b));
    }
    v
}

/// All boundary values of a scalar.
pub fn all_values(c: &Compiled, kind: Kind) -> Vec<Value>
{
    match kind {
        Kind::Double => f64s().into_iter().map(Value::Double).collect(),
        Kind::Float => f32s().into_iter().map(Value::Float).collect(),
        Kind::Int32 | Kind::SInt32 | Kind::SFixed32 => {
            let mut v: Vec<i32> = i64s()
                .into_iter()
                .filter(|x| *x >= i32::MIN as i64 && *x <= i32::MAX as i64)
                .map(|x| x as i32)
                .collect();
            v.dedup();
            v.into_iter()
                .map(|x| match kind {
                    Kind::Int32 => Value::Int32(x),
                    Kind::SInt32 => Value::SInt32(x),
                    _ => Value::SFixed32(x),
                })
                .collect()
        }
        Kind::Int64 => i64s().into_iter().map(Value::Int64).collect(),
        Kind::SInt64 => i64s().into_iter().map(Value::SInt64).collect(),
        Kind::SFixed64 => i64s().into_iter().map(Value::SFixed64).collect(),
        Kind::Enum(e) => i64s()
            .into_iter()
            .map(|value| {
                Value::Enum(EnumValue {
                    enum_ref: c.erefs[e],
                    value,
                })
            })
            .collect(),
        Kind::UInt32 | Kind::Fixed32 => {
            let mut v: Vec<u32> = varint_values()
                .into_iter()
                .filter(|x| *x <= u32::MAX as u128)
                .map(|x| x as u32)
                .collect();
            v.dedup();
            v.into_iter()
                .map(|x| match kind {
                    Kind::UInt32 => Value::UInt32(x),
                    _ => Value::Fixed32(x),
                })
                .collect()
        }
        Kind::UInt64 | Kind::Fixed64 => varint_values()
            .into_iter()
            .filter(|x| *x <= u64::MAX as u128)
            .map(|x| match kind {
                Kind::UInt64 => Value::UInt64(x as u64),
                _ => Value::Fixed64(x as u64),
            })
            .collect(),
        Kind::Bool => vec![Value::Bool(false), Value::Bool(true)],
        Kind::Str => {
            let mut v: Vec<Value> = ["", "a", "\0", "\u{e9}", "\u{1f600}\u{fffd}", "\u{feff}x"]
                .iter()
                .map(|s| Value::String(s.to_string()))
                .collect();
            for n in [127, 128, 129, 300] {
                v.push(Value::String("s".repeat(n)));
            }
            v
        }
        Kind::Bytes => strings()
            .into_iter()
            .map(|b| Value::Bytes(Bytes::from(b)))
            .collect(),
        Kind::Msg(_) => vec![],
    }
}

/// A few values of a scalar.
fn few(c: &Compiled, kind: Kind) -> Vec<Value>
{
    let all = all_values(c, kind);
    let n = all.len();
    let mut idx = vec![0, n - 1, n / 2, n / 3, n * 3 / 4];
    idx.sort();
    idx.dedup();
    idx.into_iter().map(|i| all[i].clone()).collect()
}

fn entry(number: u64, value: Value) -> FieldValue
{
    FieldValue { number, value }
}

fn message(c: &Compiled, mi: usize, fields: Vec<FieldValue>) -> MessageValue
{
    MessageValue {
        msg_ref: c.mrefs[mi],
        fields,
        garbage: None,
    }
}

fn unknowns() -> Vec<Value>
{
    let mut v: Vec<Value> = vec![];
    for x in [0u128, 1, 127, 128, 1 << 32, 1 << 63, (1 << 64) - 1] {
        v.push(Value::Unknown(UnknownValue::Varint(x)));
    }
    v.push(Value::Unknown(UnknownValue::Fixed64(0x8000_0000_0000_00ff)));
    v.push(Value::Unknown(UnknownValue::Fixed32(0x8000_00ff)));
    for s in strings() {
        v.push(Value::Unknown(UnknownValue::VariableLength(Bytes::from(s))));
    }
    v
}

fn wire_type(v: &Value) -> u8
{
    enc_value(v).0
}

/// Type-correct entries of a message.
fn entries(c: &Compiled, mi: usize, core: bool, depth: usize) -> Vec<FieldValue>
{
    let mut out = vec![];
    for (n, f) in c.schema.msgs[mi].fields.iter().enumerate() {
        match f.kind {
            Kind::Msg(m) => {
                out.push(entry(f.num, Value::Message(Box::new(message(c, m, vec![])))));
                if depth > 0 {
                    let inner = entries(c, m, true, depth - 1);
                    let take = if core { 1 } else { 10 };
                    let stride = (inner.len() / take).max(1);
                    for (i, e) in inner.iter().enumerate().skip(n % stride).step_by(stride) {
                        let mut body = vec![e.clone()];
                        if i % 2 == 0 {
                            body.push(inner[(i * 7 + 3) % inner.len()].clone());
                        }
                        out.push(entry(f.num, Value::Message(Box::new(message(c, m, body)))));
                    }
                    if !core {
                        // Left-overs inside an embedded message.
                        for t in tails(c, m) {
                            out.push(entry(f.num, Value::Message(Box::new(t))));
                        }
                    }
                }
            }
            k => {
                let v = few(c, k);
                for (i, x) in v.iter().enumerate() {
                    if !core || i == n % v.len() {
                        out.push(entry(f.num, x.clone()));
                    }
                }
                if f.repeated() && k.packable() {
                    let counts: &[usize] = if core { &[2] } else { &[0, 1, 2, 5, 130] };
                    for count in counts {
                        let elements: Vec<Value> = (0..*count)
                            .map(|i| v[(i + n) % v.len()].clone())
                            .collect();
                        out.push(entry(f.num, Value::Packed(pack(k, &elements))));
                    }
                }
            }
        }
        // Unknown where the wire type does not fit the declaration.
        if !core || n % 5 == 0 {
            for u in unknowns().iter().step_by(if core { 3 } else { 2 }) {
                let wt = wire_type(u);
                let accepted = wt == f.kind.wire() || (wt == 2 && f.repeated() && f.kind.packable());
                if !accepted {
                    out.push(entry(f.num, u.clone()));
                }
            }
        }
    }
    for (i, num) in [0u64, 99, 1 << 20, (1 << 29) - 1, (1 << 61) - 1].iter().enumerate() {
        if c.field(mi, *num).is_some() {
            continue;
        }
        for (j, u) in unknowns().into_iter().enumerate() {
            if !core || j % 5 == i {
                out.push(entry(*num, u));
            }
        }
    }
    out
}

/// Messages that consist of data nothing can be decoded after.
fn tails(c: &Compiled, mi: usize) -> Vec<MessageValue>
{
    let mut out = vec![];
    let inc = |wt: u8, b: &[u8]| Value::Incomplete(wt, Bytes::copy_from_slice(b));
    let mut numbers: Vec<u64> = c.schema.msgs[mi].fields.iter().map(|f| f.num).collect();
    numbers.push(77);
    for num in numbers {
        for v in [
            inc(0, &[]),
            inc(0, &[0x80]),
            inc(0, &[0xff; 9]),
            inc(0, &[0x80; 13]),
            inc(1, &[]),
            inc(1, &[1, 2, 3, 4, 5, 6, 7]),
            inc(2, &[]),
            inc(2, &[0x80]),
            inc(2, &[0x05, 1, 2, 3, 4]),
            inc(2, &[0x81, 0x00]),
            inc(2, &[0xff; 11]),
            inc(5, &[]),
            inc(5, &[1, 2, 3]),
        ] {
            out.push(message(c, mi, vec![entry(num, v)]));
        }
        for wt in [3u8, 4, 6, 7] {
            for b in [&[][..], &[0x80], &[0x08, 0x01]] {
                let u = UnknownValue::Invalid(wt, Bytes::copy_from_slice(b));
                out.push(message(c, mi, vec![entry(num, Value::Unknown(u))]));
            }
        }
    }
    for g in [&[0x80][..], &[0xff; 9], &[0xff; 10], &[0x80; 15]] {
        let mut m = message(c, mi, vec![]);
        m.garbage = Some(Bytes::copy_from_slice(g));
        out.push(m);
    }
    out
}

fn round_trip(c: &Compiled, v: &MessageValue, mi: usize, st: &mut St) -> R
{
    let b = encode(c, v)?;
    let back = decode(c, mi, &b)?;
    st.traces += 1;
    st.steps += v.fields.len() as u64 + 1;
    if !same_msg(&back, v) {
        return fail(format!(
            "{}\n  encodes to {}\n  which decodes to {}\nschema:\n{}",
            short(v),
            hex(&b),
            short(&back),
            c.schema.render()
        ));
    }
    st.sample(|| format!("{} <-> {}", short(v), hex(&b)));
    Ok(())
}

fn value_state(mi: usize, e: &FieldValue) -> (usize, u64, u8, usize)
{
    let d = match &e.value {
        Value::Packed(_) => 1,
        Value::Message(m) => 2 + m.fields.len(),
        Value::Unknown(_) => 30,
        Value::Incomplete(..) => 31,
        _ => 0,
    };
    let (wt, b) = enc_value(&e.value);
    (mi, e.number, wt, d * 100 + b.len().min(20))
}

pub fn e01(r: &mut Runner)
{
    let c = match r.setup("schema", || rich().compile()) {
        Some(c) => c,
        None => return,
    };
    let th = r.thorough();
    let lists: Vec<(usize, Vec<FieldValue>, Vec<FieldValue>)> = (0..c.schema.msgs.len())
        .map(|m| (m, entries(&c, m, false, 2), entries(&c, m, true, 2)))
        .collect();
    let n: Vec<String> = lists
        .iter()
        .map(|l| format!("{}:{}/{}", c.schema.msgs[l.0].name, l.1.len(), l.2.len()))
        .collect();
    r.space(
        "pairs",
        0,
        &format!("every sequence of up to 2 entries out of the full entry list of each message type (entries full/core: {})", n.join(" ")),
        |ch, st| {
            let (mi, full, _) = ch.of(&lists);
            let k = ch.pick(3);
            let fields: Vec<FieldValue> = (0..k).map(|_| ch.of(full).clone()).collect();
            for f in &fields {
                st.state(&value_state(*mi, f));
            }
            round_trip(&c, &message(&c, *mi, fields), *mi, st)
        },
    );
    let k = if th { 4 } else { 3 };
    r.space(
        "core",
        0,
        &format!("every sequence of {} entries out of the core entry list of A, B, N, Rep", k),
        |ch, st| {
            let (mi, _, core) = &lists[*ch.of(&[A, B, N, REP])];
            let fields: Vec<FieldValue> = (0..k)
                .map(|i| {
                    if i < 3 {
                        ch.of(core).clone()
                    } else {
                        core[ch.pick(core.len() / 3) * 3].clone()
                    }
                })
                .collect();
            round_trip(&c, &message(&c, *mi, fields), *mi, st)
        },
    );
    let endings: Vec<Vec<MessageValue>> = (0..c.schema.msgs.len()).map(|m| tails(&c, m)).collect();
    r.space(
        "tails",
        0,
        "every undecodable tail (incomplete value, invalid wire type, garbage) of every field number after up to 2 core entries",
        |ch, st| {
            let (mi, _, core) = ch.of(&lists);
            let k = ch.pick(if th && *mi != REP { 3 } else { 2 });
            let mut fields: Vec<FieldValue> = (0..k).map(|_| ch.of(core).clone()).collect();
            for t in &endings[*mi] {
                let mut m = message(&c, *mi, std::mem::take(&mut fields));
                m.fields.extend(t.fields.iter().cloned());
                m.garbage = t.garbage.clone();
                if let Some(f) = t.fields.first() {
                    st.state(&value_state(*mi, f));
                }
                round_trip(&c, &m, *mi, st)?;
                fields = m.fields;
                fields.truncate(k);
            }
            Ok(())
        },
    );
    // All boundary values in every position a value can take.
    let pools: Vec<(u64, Kind, Vec<Value>)> = SCALARS
        .iter()
        .enumerate()
        .map(|(i, k)| (i as u64 + 1, *k, all_values(&c, *k)))
        .chain(std::iter::once((16, Kind::Enum(0), all_values(&c, Kind::Enum(0)))))
        .collect();
    r.space(
        "values",
        0,
        "every boundary value (within 2 of powers of two, both signs; float classes; strings) of every type, singular, optional, expanded, packed alone and between others, in messages nested 0 to 3 deep",
        |ch, st| {
            let (num, kind, values) = ch.of(&pools);
            let v = ch.of(values);
            let form = ch.pick(5);
            let depth = ch.pick(4);
            let (mi, value) = match form {
                0 => (A, v.clone()),
                1 => (OPT, v.clone()),
                2 => (REP, v.clone()),
                _ => {
                    if !kind.packable() {
                        return Ok(());
                    }
                    let list = match form {
                        3 => vec![v.clone()],
                        _ => vec![values[0].clone(), v.clone(), values[values.len() - 1].clone(), v.clone()],
                    };
                    (REP, Value::Packed(pack(*kind, &list)))
                }
            };
            let mut m = message(&c, mi, vec![entry(*num, value)]);
            for _ in 0..depth {
                m = message(&c, mi, vec![entry(18, Value::Message(Box::new(m)))]);
            }
            st.state(&(form, depth, num, hash_of(&format!("{:?}", v))));
            round_trip(&c, &m, mi, st)
        },
    );
    // Sizes.
    let mut sizes: Vec<usize> = (0..=600).collect();
    for k in [10, 12, 13, 14, 15, 16, 20, 21] {
        for d in -2i64..=2 {
            sizes.push(((1i64 << k) + d) as usize);
        }
    }
    if !th {
        sizes.retain(|s| *s < 1 << 17);
    }
    r.space(
        "sizes",
        0,
        "strings, bytes, unknown data, packed arrays of each element type, repeated messages and nested messages of every size 0 to 600 and within 2 of powers of two, followed by another entry",
        |ch, st| {
            let size = *ch.of(&sizes);
            let form = ch.pick(17);
            let (mi, e) = match form {
                0 => (A, entry(14, Value::String("q".repeat(size)))),
                1 => (A, entry(15, Value::Bytes(Bytes::from(vec![0x80; size])))),
                2 => (
                    A,
                    entry(
                        99,
                        Value::Unknown(UnknownValue::VariableLength(Bytes::from(vec![1; size]))),
                    ),
                ),
                3 => {
                    let inner = message(
                        &c,
                        N,
                        vec![entry(2, Value::String("r".repeat(size)))],
                    );
                    (A, entry(17, Value::Message(Box::new(inner))))
                }
                f => {
                    let (num, kind, values) = &pools[f - 4];
                    if size > 10_000 && *num % 4 != 0 {
                        return Ok(());
                    }
                    let n = size.min(20_000);
                    let list: Vec<Value> = (0..n).map(|i| values[i % values.len()].clone()).collect();
                    (REP, entry(*num, Value::Packed(pack(*kind, &list))))
                }
            };
            st.state(&(form, size));
            let m = message(&c, mi, vec![e, entry(13, Value::Bool(true))]);
            round_trip(&c, &m, mi, st)
        },
    );
    r.space(
        "depth",
        0,
        "core entries nested 1 to 100 deep through each recursive field",
        |ch, st| {
            let (mi, num) = *ch.of(&[(A, 18u64), (B, 3), (N, 4), (REP, 18), (OPT, 18)]);
            let depth = 1 + ch.pick(MAX_LEVELS);
            let core = &lists[mi].2;
            let i = ch.pick(core.len());
            let around = ch.flag();
            if depth + (0..core.len()).filter(|k| around || *k == i).map(|k| levels(&core[k].value)).max().unwrap_or(0) > MAX_LEVELS {
                return Ok(());
            }
            let mut m = message(&c, mi, vec![core[i].clone()]);
            for l in 0..depth {
                let mut f = vec![entry(num, Value::Message(Box::new(m)))];
                if around {
                    f.push(core[(i + l) % core.len()].clone());
                }
                m = message(&c, mi, f);
            }
            st.state(&(mi, depth, i, around));
            round_trip(&c, &m, mi, st)
        },
    );
    if th {
        r.space(
            "values-all",
            0,
            "every 32-bit pattern as int32, sint32, uint32, sfixed32 and float: one entry of each per message",
            |ch, st| {
                let hi = ch.pick(1 << 16) as u32;
                for lo in 0..1u32 << 16 {
                    let x = hi << 16 | lo;
                    let m = message(
                        &c,
                        A,
                        vec![
                            entry(3, Value::Int32(x as i32)),
                            entry(7, Value::SInt32(x as i32)),
                            entry(5, Value::UInt32(x)),
                            entry(11, Value::SFixed32(x as i32)),
                            entry(2, Value::Float(f32::from_bits(x))),
                        ],
                    );
                    let b = v_encode(&c, &m);
                    let back = c.ctx.resolve_message(c.mrefs[A]).decode(&b, &c.ctx);
                    if !same_msg(&back, &m) {
                        return fail(format!("{:#x}: {} encodes to {} and decodes to {}", x, short(&m), hex(&b), short(&back)));
                    }
                }
                st.traces += 1 << 16;
                st.steps += 5 << 16;
                Ok(())
            },
        );
    }
}

/// Levels of messages within a value.
fn levels(v: &Value) -> usize
{
    match v {
        Value::Message(m) => 1 + m.fields.iter().map(|f| levels(&f.value)).max().unwrap_or(0),
        _ => 0,
    }
}

fn v_encode(c: &Compiled, m: &MessageValue) -> Vec<u8>
{
    m.encode(&c.ctx).to_vec()
}

// ---------------------------------------------------------------------------------------------

pub fn e02(r: &mut Runner)
{
    let c = match r.setup("schema", || rich().compile()) {
        Some(c) => c,
        None => return,
    };
    let sel = Sel {
        bytes: true,
        records: true,
        odd: true,
        sweeps: true,
        damage: true,
        heavy: false,
    };
    let body: Body = &|c, mi, b, st| {
        let mut d = Dec::new(c);
        d.decode(mi, b);
        normalise(c, mi, b, d.canon, st)?;
        d.flush(st);
        Ok(())
    };
    payloads(r, &c, sel, body);
    let bases = damage_bases(&c, r.thorough());
    r.space(
        "cuts",
        0,
        "every cut of every pair of nested payloads of A, N, Rep and of every single payload of B",
        |ch, st| {
            let (mi, a) = ch.of(&bases);
            let (mj, b) = ch.of(&bases);
            if mi != mj {
                return Ok(());
            }
            let p = [a.as_slice(), b.as_slice()].concat();
            for cut in a.len()..=p.len() {
                body(&c, *mi, &p[..cut], st)?;
            }
            Ok(())
        },
    );
    // Deeper than anything decodes: the bytes must survive all the same.
    deep(r, &c, &|c, mi, b, st| {
        let v = decode(c, mi, b)?;
        let e = encode(c, &v)?;
        st.traces += 1;
        ensure!(
            e == b,
            "a deeply nested payload of {} bytes re-encodes differently ({} bytes): {} and {}",
            b.len(),
            e.len(),
            hex(b),
            hex(&e)
        );
        Ok(())
    });
}

fn normalise(c: &Compiled, mi: usize, b: &[u8], canon: bool, st: &mut St) -> R
{
    let v1 = decode(c, mi, b)?;
    let b1 = encode(c, &v1)?;
    st.traces += 1;
    if canon {
        st.outcome("canonical");
        ensure!(
            b1 == b,
            "canonical payload {} as {} re-encodes to {}; decoded: {}",
            hex(b),
            c.schema.msgs[mi].name,
            hex(&b1),
            short(&v1)
        );
        return Ok(());
    }
    st.outcome("not canonical");
    let v2 = decode(c, mi, &b1)?;
    let b2 = encode(c, &v2)?;
    ensure!(
        b1 == b2 && same_msg(&v1, &v2),
        "{} as {} normalises to {} and that to {}; decoded: {} and {}",
        hex(b),
        c.schema.msgs[mi].name,
        hex(&b1),
        hex(&b2),
        short(&v1),
        short(&v2)
    );
    st.sample(|| format!("{} as {} -> {}", hex(b), c.schema.msgs[mi].name, hex(&b1)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn e03(r: &mut Runner)
{
    let c = match r.setup("schema", || rich().compile()) {
        Some(c) => c,
        None => return,
    };
    let th = r.thorough();
    // Values of every kind, whatever the schema says about the field.
    let mut pool: Vec<Value> = vec![];
    for k in SCALARS.iter().chain([&Kind::Enum(0)]) {
        pool.extend(all_values(&c, *k));
    }
    let wide = pool.len();
    pool.extend(unknowns());
    for x in [1u128 << 64, (1 << 70) - 1, 1 << 100, u128::MAX, u128::MAX >> 1] {
        pool.push(Value::Unknown(UnknownValue::Varint(x)));
    }
    for wt in 0..8u8 {
        for b in [&[][..], &[0x80], &[1, 2, 3], &[0xff; 11]] {
            let b = Bytes::copy_from_slice(b);
            pool.push(Value::Incomplete(wt, b.clone()));
            pool.push(Value::Unknown(UnknownValue::Invalid(wt, b)));
        }
    }
    for k in NUMERIC {
        let v = all_values(&c, k);
        pool.push(Value::Packed(pack(k, &[])));
        for i in 0..v.len() {
            pool.push(Value::Packed(pack(k, &v[i..i + 1])));
        }
        pool.push(Value::Packed(pack(k, &v)));
    }
    for mi in [A, B, N] {
        for garbage in [None, Some(Bytes::new()), Some(Bytes::from_static(&[0x80, 0x81]))] {
            for n in 0..3usize {
                let fields = (0..n)
                    .map(|i| entry(i as u64 * 16 + 1, pool[(i * 97 + mi * 31) % wide].clone()))
                    .collect();
                let mut m = message(&c, mi, fields);
                m.garbage = garbage.clone();
                pool.push(Value::Message(Box::new(m)));
            }
        }
    }
    let mut numbers: Vec<u64> = (0..=40).collect();
    for k in 6..61u32 {
        numbers.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    numbers.push((1 << 61) - 1);
    numbers.sort();
    numbers.dedup();
    let check = |m: &MessageValue, st: &mut St| -> R {
        let got = encode(&c, m)?;
        let want = enc_msg(m);
        st.traces += 1;
        st.steps += m.fields.len() as u64;
        if got != want {
            return fail(format!(
                "{}\n  encodes to {}\n  but should be {}",
                short(m),
                hex(&got),
                hex(&want)
            ));
        }
        st.sample(|| format!("{} -> {}", short(m), hex(&got)));
        Ok(())
    };
    r.space(
        "single",
        0,
        &format!("{} values of all kinds (boundary values of all types, unknown values to 128 bits, undecodable data of each wire type, packed arrays, messages with garbage) x {} field numbers up to 2^61-1", pool.len(), numbers.len()),
        |ch, st| {
            let v = ch.of(&pool);
            st.state(&value_state(0, &entry(1, v.clone())));
            for num in &numbers {
                check(&message(&c, A, vec![entry(*num, v.clone())]), st)?;
            }
            Ok(())
        },
    );
    let step = if th { 1 } else { 3 };
    let few: Vec<Value> = pool.iter().step_by(step).cloned().collect();
    r.space(
        "pairs",
        0,
        &format!("every ordered pair of {} values, with and without garbage, bare and embedded", few.len()),
        |ch, st| {
            let a = ch.of(&few);
            let garbage = *ch.of(&[None, Some(&[0xffu8, 1][..])]);
            let depth = ch.pick(2);
            for b in &few {
                let mut m = message(&c, B, vec![entry(3, a.clone()), entry(700, b.clone())]);
                m.garbage = garbage.map(Bytes::copy_from_slice);
                if depth == 1 {
                    m = message(
                        &c,
                        A,
                        vec![
                            entry(17, Value::Message(Box::new(m))),
                            entry(1, Value::Bool(true)),
                        ],
                    );
                }
                check(&m, st)?;
            }
            Ok(())
        },
    );
    r.space(
        "sizes",
        0,
        "strings, bytes, unknown data and packed arrays of every size 0 to 600 and within 2 of powers of two to 2^21, embedded 0 to 3 deep",
        |ch, st| {
            let mut sizes: Vec<usize> = (0..=600).collect();
            for k in [10, 12, 13, 14, 15, 16, 20, 21] {
                for d in -2i64..=2 {
                    sizes.push(((1i64 << k) + d) as usize);
                }
            }
            let size = *ch.of(&sizes);
            let form = ch.pick(5);
            let depth = ch.pick(4);
            if size > 100_000 && (depth > 1 || !th) {
                return Ok(());
            }
            let v = match form {
                0 => Value::String("q".repeat(size)),
                1 => Value::Bytes(Bytes::from(vec![0x80; size])),
                2 => Value::Unknown(UnknownValue::VariableLength(Bytes::from(vec![1; size]))),
                3 => Value::Packed(PackedArray::Bool(vec![true; size])),
                _ => Value::Packed(PackedArray::SInt32(
                    (0..size).map(|i| (i as i32).wrapping_mul(-77)).collect(),
                )),
            };
            let mut m = message(&c, A, vec![entry(14, v), entry(1, Value::Bool(true))]);
            for _ in 0..depth {
                m = message(&c, A, vec![entry(18, Value::Message(Box::new(m)))]);
            }
            st.state(&(size, form, depth));
            check(&m, st)
        },
    );
    r.space(
        "depth",
        0,
        "values embedded 1 to 200 deep",
        |ch, st| {
            let depth = 1 + ch.pick(200);
            let v = &pool[ch.pick(20) * (pool.len() / 20)];
            let mut m = message(&c, N, vec![entry(1, v.clone())]);
            for _ in 0..depth {
                m = message(&c, N, vec![entry(4, Value::Message(Box::new(m)))]);
            }
            st.state(&(depth, wire_type(v)));
            check(&m, st)
        },
    );
    let lists: Vec<Vec<FieldValue>> = [A, B, N, REP]
        .iter()
        .map(|m| entries(&c, *m, true, 2))
        .collect();
    r.space(
        "core",
        0,
        "every sequence of 3 core entries of A, B, N, Rep",
        |ch, st| {
            let mi = ch.pick(4);
            let fields = (0..3).map(|_| ch.of(&lists[mi]).clone()).collect();
            check(&message(&c, [A, B, N, REP][mi], fields), st)
        },
    );
}
