//! Decoding: D01 to D07.

use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::payload::*;
use crate::wire::*;
use protofish::context::*;
use protofish::decode::*;

/// Decodes through the definition.
pub fn decode(c: &Compiled, mi: usize, b: &[u8]) -> Result<MessageValue, Viol>
{
    let r = call("decode", || {
        c.ctx.resolve_message(c.mrefs[mi]).decode(b, &c.ctx)
    });
    r.map_err(|v| Viol {
        key: None,
        msg: format!("{}; payload {} as {}", v.msg, hex(b), c.schema.msgs[mi].name),
    })
}

/// Decodes through the reference.
pub fn decode_ref(c: &Compiled, mi: usize, b: &[u8]) -> Result<MessageValue, Viol>
{
    call("Context::decode", || c.ctx.decode(c.mrefs[mi], b))
}

pub fn encode(c: &Compiled, v: &MessageValue) -> Result<Vec<u8>, Viol>
{
    call("encode", || v.encode(&c.ctx).to_vec())
        .map_err(|e| Viol {
            key: None,
            msg: format!("{}; value {}", e.msg, short(v)),
        })
}

pub fn differ(c: &Compiled, mi: usize, b: &[u8], got: &MessageValue, want: &MessageValue) -> Viol
{
    Viol {
        key: None,
        msg: format!(
            "decoding {} as {} gives\n  {}\nbut should give\n  {}\nschema:\n{}",
            hex(b),
            c.schema.msgs[mi].name,
            short(got),
            short(want),
            c.schema.render()
        ),
    }
}

/// Decodes and compares with the reference decoder.
pub fn conform<'c>(c: &'c Compiled, mi: usize, b: &[u8], st: &mut St) -> Result<Dec<'c>, Viol>
{
    let mut d = Dec::new(c);
    let want = d.decode(mi, b);
    let got = decode(c, mi, b)?;
    st.traces += 1;
    if let Some(s) = d.spans.last() {
        st.outcome(s.ev.name());
    }
    d.flush(st);
    if !same_msg(&got, &want) {
        return Err(differ(c, mi, b, &got, &want));
    }
    st.sample(|| format!("{} as {} -> {}", hex(b), c.schema.msgs[mi].name, short(&got)));
    Ok(d)
}

fn rich_ctx(r: &mut Runner) -> Option<Compiled>
{
    r.setup("schema", || rich().compile())
}

// ---------------------------------------------------------------------------------------------

pub fn d01(r: &mut Runner)
{
    let c = match rich_ctx(r) {
        Some(c) => c,
        None => return,
    };
    let sel = Sel {
        bytes: true,
        records: true,
        odd: true,
        sweeps: true,
        damage: true,
        heavy: false,
    };
    payloads(r, &c, sel, &|c, mi, b, st| {
        let got = decode(c, mi, b)?;
        st.traces += 1;
        // The reference run only tells which situations were reached.
        if st.evals & 15 == 0 {
            let mut d = Dec::new(c);
            d.decode(mi, b);
            if let Some(s) = d.spans.last() {
                st.outcome(s.ev.name());
            }
            d.flush(st);
        } else {
            st.steps += got.fields.len() as u64;
        }
        st.sample(|| format!("{} as {}", hex(b), c.schema.msgs[mi].name));
        Ok(())
    });

    // Everything the API lets a user declare: each type with each multiplicity, any number.
    let api = r.setup("API schemas", || {
        let mut out = vec![];
        for num in [0u64, 1, 5, 16, 1 << 29, u64::MAX >> 3, u64::MAX >> 2, u64::MAX] {
            let mut s = Schema::default();
            s.enums.push(("E".to_string(), vec![0]));
            let mut kinds = SCALARS.to_vec();
            kinds.push(Kind::Enum(0));
            for (i, k) in kinds.iter().enumerate() {
                for m in 0..4u8 {
                    let id = s.msg(&format!("M{}x{}", i, m));
                    s.add(id, num, *k, Label::Api(m));
                }
            }
            for m in 0..4u8 {
                let id = s.msg(&format!("Mx{}", m));
                s.add(id, num, Kind::Msg(id), Label::Api(m));
            }
            out.push(s.compile_api()?);
        }
        Ok(out)
    });
    let api = match api {
        Some(a) => a,
        None => return,
    };
    let long = r.by(3, 4);
    r.space(
        "api-declarable",
        0,
        &format!("contexts built by hand: 17 types x 4 multiplicities x 8 field numbers (0 to 2^64-1) x every wire type x every string of up to {} bytes over 12 critical bytes after the tag", long),
        |ch, st| {
            let c = ch.of(&api);
            let mi = ch.pick(c.schema.msgs.len());
            let num = c.schema.msgs[mi].fields[0].num;
            let wt = ch.pick(8) as u8;
            let mut b = varint(((num as u128) * 8 + wt as u128) % (1 << 64));
            let n = ch.pick(long + 1);
            for _ in 0..n {
                b.push(*ch.of(&[0u8, 1, 2, 3, 4, 8, 9, 10, 0x7f, 0x80, 0xff, 13]));
            }
            let r = conform(c, mi, &b, st);
            // Here only the absence of a crash counts.
            match r {
                Err(v) if v.msg.contains("panicked") => Err(v),
                _ => {
                    decode_ref(c, mi, &b)?;
                    Ok(())
                }
            }
        },
    );
    deep(r, &c, &|c, mi, b, st| {
        decode(c, mi, b)?;
        st.traces += 1;
        Ok(())
    });
    r.space(
        "cuts",
        0,
        "every cut of every damage base payload",
        |ch, st| {
            let bases = damage_bases(&c, false);
            let (mi, b) = ch.of(&bases);
            let n = ch.pick(b.len() + 1);
            conform(&c, *mi, &b[..n], st).map(|_| ()).or_else(|v| {
                match v.msg.contains("panicked") {
                    true => Err(v),
                    false => Ok(()),
                }
            })
        },
    );
}

/// Deeply nested payloads.
pub fn deep(r: &mut Runner, c: &Compiled, body: Body)
{
    let depths: Vec<usize> = (1..=130)
        .chain([200, 255, 256, 257, 500, 999, 1000, 1001, 2000, 5000, 10_000, 20_000, 50_000])
        .chain([100_000, 300_000].iter().cloned())
        .chain(if r.thorough() { vec![1_000_000, 3_000_000] } else { vec![] })
        .collect();
    r.space(
        "deep",
        0,
        &format!("messages nested 1 to 130 levels and {} other depths up to {} through each recursive field, complete, cut short at the end, and with an undecodable innermost message", depths.len() - 130, depths[depths.len() - 1]),
        |ch, st| {
            let depth = *ch.of(&depths);
            let (mi, nums) = *ch.of(&[
                (N, [4u64, 4]),
                (B, [3, 3]),
                (A, [18, 18]),
                (REP, [18, 18]),
                (N, [5, 13]),
                (B, [8, 5]),
            ]);
            let form = ch.pick(4);
            let inner: &[u8] = match form {
                0 => &[],
                1 => &[0x80],
                2 => &[0x08],
                _ => &[0x08, 0x01],
            };
            // Written back to front to keep it linear.
            let mut rev: Vec<u8> = inner.iter().rev().cloned().collect();
            for level in 0..depth {
                let len = varint(rev.len() as u128);
                rev.extend(len.iter().rev());
                let num = nums[(depth - 1 - level) % 2];
                rev.extend(tag(num, 2).iter().rev());
            }
            rev.reverse();
            let mut b = rev;
            if form == 3 && ch.flag() {
                b.pop();
            }
            st.steps += depth as u64;
            st.state(&("deep", depth, mi, form));
            body(c, mi, &b, st)
        },
    );
}

// ---------------------------------------------------------------------------------------------

pub fn d02(r: &mut Runner)
{
    let c = match rich_ctx(r) {
        Some(c) => c,
        None => return,
    };
    let sel = Sel {
        bytes: true,
        records: true,
        odd: false,
        sweeps: true,
        damage: false,
        heavy: false,
    };
    payloads(r, &c, sel, &|c, mi, b, st| {
        let mut d = Dec::new(c);
        let want = d.decode(mi, b);
        if !d.well {
            // Not this property's business.
            st.outcome("not well formed");
            return Ok(());
        }
        let got = decode(c, mi, b)?;
        if !same_msg(&got, &want) {
            return Err(differ(c, mi, b, &got, &want));
        }
        if b.len() < 64 {
            let by_ref = decode_ref(c, mi, b)?;
            if !same_msg(&by_ref, &want) {
                return Err(differ(c, mi, b, &by_ref, &want));
            }
        }
        ensure!(got.garbage.is_none(), "garbage in {}", hex(b));
        if let Some(s) = d.spans.last() {
            st.outcome(s.ev.name());
        }
        st.traces += 1;
        d.flush(st);
        st.sample(|| format!("{} as {} -> {}", hex(b), c.schema.msgs[mi].name, short(&got)));
        Ok(())
    });

    // The same for contexts built by hand: one field, any number, any type.
    let mut nums: Vec<u64> = (1..=64).collect();
    for k in 7..61 {
        nums.extend([(1u64 << k) - 1, 1 << k]);
    }
    nums.sort();
    nums.dedup();
    let ctxs = r.setup("API schemas", || {
        nums.iter()
            .map(|num| {
                let mut s = Schema::default();
                s.enums.push(("E".to_string(), vec![0]));
                let mut kinds = SCALARS.to_vec();
                kinds.push(Kind::Enum(0));
                kinds.push(Kind::Msg(0));
                for (i, k) in kinds.iter().enumerate() {
                    let id = s.msg(&format!("M{}", i));
                    s.add(id, *num, *k, Label::Single);
                    // Neighbours in the index.
                    s.add(id, num + 1, Kind::Bool, Label::Rep);
                    s.add(id, num + 3, Kind::Fixed32, Label::Optional);
                }
                s.compile_api()
            })
            .collect::<Result<Vec<_>, _>>()
    });
    if let Some(ctxs) = ctxs {
        r.space(
            "declared-numbers",
            0,
            "contexts built by hand x declared field numbers 1 to 64 and around every power of two up to 2^61 x 17 types x neighbouring numbers x wire types",
            |ch, st| {
                let c = ch.of(&ctxs);
                let mi = ch.pick(c.schema.msgs.len());
                let num = c.schema.msgs[mi].fields[0].num;
                let at = num + ch.pick(6) as u64 - 1;
                let mut b = vec![];
                for wt in [0u8, 1, 2, 5] {
                    b.extend(tag(at, wt));
                    match wt {
                        0 => b.extend(varint(3)),
                        1 => b.extend([8, 7, 6, 5, 4, 3, 2, 1]),
                        2 => b.extend(ld(&[])),
                        _ => b.extend([4, 3, 2, 1]),
                    }
                }
                conform(c, mi, &b, st).map(|_| ())
            },
        );
    }

    // Messages with many fields: numbers in a row, with gaps, scattered.
    let sizes: Vec<u64> = (1..=r.by(40u64, 80)).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).collect();
    let ctxs = r.setup("large schemas", || {
        let mut v = vec![];
        for n in &sizes {
            for pattern in 0..8u64 {
                let number = |i: u64| match pattern {
                    0 => i + 1,
                    1 => i + 5,
                    // Gaps after the first, in the middle, before the last.
                    2 if i > 0 => i + 2,
                    3 if i >= n / 2 => i + 2,
                    4 if i == n - 1 => i + 6,
                    5 => 2 * i + 2,
                    6 => n - i,
                    7 => 1 + (i + 1).wrapping_mul(0x9e37_79b9) % ((1 << 29) - 1),
                    _ => i + 1,
                };
                let mut s = Schema::default();
                s.enums.push(("E".to_string(), vec![0]));
                let id = s.msg("M");
                let kinds: Vec<Kind> = SCALARS.iter().copied().chain([Kind::Enum(0), Kind::Msg(0)]).collect();
                for i in 0..*n {
                    let k = (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 32;
                    s.add(id, number(i), kinds[k as usize % kinds.len()], Label::Single);
                }
                v.push(s.compile_text()?);
                v.push(s.compile_api()?);
            }
        }
        Ok(v)
    });
    let ctxs = match ctxs {
        Some(x) => x,
        None => return,
    };
    let example = |b: &mut Vec<u8>, num: u64, wt: u8| {
        b.extend(tag(num, wt));
        match wt {
            0 => b.extend(varint(3)),
            1 => b.extend([8, 7, 6, 5, 4, 3, 2, 1]),
            2 => b.extend(ld(&[])),
            _ => b.extend([4, 3, 2, 1]),
        }
    };
    r.space(
        "rows",
        0,
        &format!("messages of {} numbers of fields up to 300, numbered in 8 ways, from text and by hand x all numbers between the declared ones and up to 3 beyond, and every declared one with one bit changed, with all wire types; and all fields at once in 3 orders", sizes.len()),
        |ch, st| {
            let c = ch.of(&ctxs);
            let declared: Vec<u64> = c.schema.msgs[0].fields.iter().map(|f| f.num).collect();
            let (least, most) = (declared.iter().min().unwrap() - 1, declared.iter().max().unwrap() + 3);
            let near: Vec<u64> = if most - least < 1000 {
                (least..=most).collect()
            } else {
                declared.iter().flat_map(|n| n - 1..=n + 1).collect()
            };
            let at = ch.pick(near.len() + declared.len() + 1);
            let mut b = vec![];
            if at == near.len() + declared.len() {
                let mut order = declared.clone();
                match ch.pick(3) {
                    0 => {}
                    1 => order.reverse(),
                    _ => order.sort_by_key(|n| n.wrapping_mul(0x9e37_79b9_7f4a_7c15)),
                }
                for n in order {
                    let (_, f) = c.field(0, n).unwrap();
                    example(&mut b, n, f.kind.wire());
                }
            } else if at < near.len() {
                for wt in [0u8, 1, 2, 5] {
                    example(&mut b, near[at], wt);
                }
            } else {
                let n = declared[at - near.len()];
                for bit in 0..61 {
                    let n = n ^ (1 << bit);
                    let wt = c.field(0, n).map_or(0, |(_, f)| f.kind.wire());
                    example(&mut b, n, wt);
                }
            }
            st.state(&(declared.len(), at));
            conform(c, 0, &b, st).map(|_| ())
        },
    );
}

// ---------------------------------------------------------------------------------------------

pub fn d03(r: &mut Runner)
{
    let c = match rich_ctx(r) {
        Some(c) => c,
        None => return,
    };
    let sel = Sel {
        bytes: true,
        records: true,
        odd: true,
        sweeps: true,
        damage: true,
        heavy: false,
    };
    payloads(r, &c, sel, &|c, mi, b, st| {
        let d = conform(c, mi, b, st)?;
        // Accounting: the records cover the payload without gap or overlap.
        let mut at = 0;
        for s in &d.spans {
            assert!(s.start == at && s.end >= s.value && s.value >= s.start);
            at = s.end;
        }
        assert!(at == b.len());
        Ok(())
    });
    // Damage inside one record leaves the others alone (no reference decoder involved).
    let bases = damage_bases(&c, false);
    r.space(
        "containment",
        0,
        "a good record, an embedded message or packed array with every content of up to 2 bytes (3 over critical bytes), a good record",
        |ch, st| {
            let (mi, num) = *ch.of(&[
                (N, 3u64),
                (N, 4),
                (N, 5),
                (B, 2),
                (B, 3),
                (B, 4),
                (B, 5),
                (B, 6),
                (B, 9),
                (B, 11),
                (B, 13),
                (B, 14),
                (A, 17),
            ]);
            let n = ch.pick(4);
            let mut inner = vec![];
            for _ in 0..n {
                inner.push(if n == 3 {
                    *ch.of(&CRITICAL_B)
                } else {
                    ch.pick(256) as u8
                });
            }
            let good = match mi {
                N => rec(6, 1, &[1, 2, 3, 4, 5, 6, 7, 8]),
                B => rec(12, 0, &[9]),
                _ => rec(13, 0, &[1]),
            };
            let b = [good.clone(), rec_ld(num, &inner), good.clone()].concat();
            let got = decode(&c, mi, &b)?;
            let alone = decode(&c, mi, &good)?;
            st.traces += 1;
            st.steps += 3;
            ensure!(
                got.fields.len() == 3
                    && got.garbage.is_none()
                    && got.fields[0] == alone.fields[0]
                    && got.fields[2] == alone.fields[0]
                    && got.fields[1].number == num,
                "damage in field {} of {} spreads: {} decodes to {}",
                num,
                c.schema.msgs[mi].name,
                hex(&b),
                short(&got)
            );
            Ok(())
        },
    );
    r.space(
        "appended",
        0,
        "every damage base payload followed by every 2-byte tail",
        |ch, st| {
            let (mi, base) = ch.of(&bases);
            let full = decode(&c, *mi, base)?;
            let x = ch.pick(256) as u8;
            let mut b = base.clone();
            b.extend_from_slice(&[x, 0]);
            for y in 0..=255u8 {
                let n = b.len();
                b[n - 1] = y;
                let got = decode(&c, *mi, &b)?;
                st.traces += 1;
                ensure!(
                    got.fields.len() >= full.fields.len()
                        && same_fields(&got.fields[..full.fields.len()], &full.fields),
                    "records before the damage change: {} as {} gives {}",
                    hex(&b),
                    c.schema.msgs[*mi].name,
                    short(&got)
                );
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------

pub fn d04(r: &mut Runner)
{
    let c = match rich_ctx(r) {
        Some(c) => c,
        None => return,
    };
    let sel = Sel {
        bytes: false,
        records: true,
        odd: false,
        sweeps: true,
        damage: false,
        heavy: true,
    };
    let all_cuts: Body = &|c, mi, b, st| cuts(c, mi, b, st);
    payloads(r, &c, sel, all_cuts);
    let bases = damage_bases(&c, r.thorough());
    r.space(
        "bases",
        0,
        "every cut of every pair of nested payloads",
        |ch, st| {
            let (mi, a) = ch.of(&bases);
            let (mj, b) = ch.of(&bases);
            if mi != mj {
                return Ok(());
            }
            cuts(&c, *mi, &[a.as_slice(), b.as_slice()].concat(), st)
        },
    );
}

fn cuts(c: &Compiled, mi: usize, b: &[u8], st: &mut St) -> R
{
    let mut d = Dec::new(c);
    d.decode(mi, b);
    if !d.well {
        st.outcome("not well formed");
        return Ok(());
    }
    let full = decode(c, mi, b)?;
    ensure!(
        full.fields.len() == d.spans.len() && full.garbage.is_none(),
        "{} records expected in {} as {}, got {}",
        d.spans.len(),
        hex(b),
        c.schema.msgs[mi].name,
        short(&full)
    );
    let check = |cut: usize, st: &mut St| -> R {
        let got = decode(c, mi, &b[..cut])?;
        st.traces += 1;
        st.steps += 1;
        let k = d.spans.iter().take_while(|s| s.end <= cut).count();
        let explain = |what: &str| {
            fail(format!(
                "cut at {} of {} as {}: {}; got {}",
                cut,
                hex(b),
                c.schema.msgs[mi].name,
                what,
                short(&got)
            ))
        };
        if got.fields.len() < k || !same_fields(&got.fields[..k], &full.fields[..k]) {
            return explain("complete records changed");
        }
        let rest = &got.fields[k..];
        let boundary = if k == 0 { 0 } else { d.spans[k - 1].end };
        if cut == boundary {
            st.outcome("on a boundary");
            if !rest.is_empty() || got.garbage.is_some() {
                return explain("left-overs on a record boundary");
            }
            return Ok(());
        }
        let s = d.spans[k];
        let tail = &b[..cut];
        st.states.insert(hash_of(&(
            mi,
            full.fields[k].number,
            b[s.start] & 7,
            (cut - s.start).min(24),
        )));
        if cut <= s.value && b[..cut].last().map_or(false, |x| *x >= 0x80) {
            st.outcome("inside a tag");
            if !rest.is_empty() || got.garbage.as_deref() != Some(&tail[s.start..]) {
                return explain("garbage with the rest of the data expected");
            }
        } else {
            st.outcome("inside a value");
            let want = Value::Incomplete(
                b[s.start] & 7,
                bytes::Bytes::copy_from_slice(&tail[s.value..]),
            );
            if rest.len() != 1
                || got.garbage.is_some()
                || rest[0].number != full.fields[k].number
                || rest[0].value != want
            {
                return explain("one incomplete value with the rest of the data expected");
            }
        }
        Ok(())
    };
    st.sample(|| format!("all {} cuts of {} as {}", b.len() + 1, hex(b), c.schema.msgs[mi].name));
    if b.len() <= 400 {
        for cut in 0..=b.len() {
            check(cut, st)?;
        }
    } else {
        // All positions near record boundaries, every 97th elsewhere.
        let mut last = usize::MAX;
        for s in &d.spans {
            for p in [s.start, s.value, s.end] {
                for cut in p.saturating_sub(12)..=(p + 12).min(b.len()) {
                    if last == usize::MAX || cut > last {
                        check(cut, st)?;
                        last = cut;
                    }
                }
                if last != usize::MAX && last > 4000 && b.len() > 4000 {
                    continue;
                }
            }
        }
        for cut in (0..=b.len()).step_by(97 + b.len() / 50) {
            check(cut, st)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// The complete schema of D05.
fn evolving() -> Schema
{
    let mut s = Schema::default();
    s.enums.push(("E".to_string(), vec![0, 1]));
    s.msg("X");
    s.msg("Y");
    s.add(0, 1, Kind::Int32, Label::Single);
    s.add(0, 2, Kind::Str, Label::Single);
    s.add(0, 3, Kind::Fixed64, Label::Single);
    s.add(0, 4, Kind::Float, Label::Optional);
    s.add(0, 5, Kind::Msg(1), Label::Single);
    s.add(0, 6, Kind::SInt32, Label::Rep);
    s.add(0, 7, Kind::Enum(0), Label::Single);
    s.add(0, 8, Kind::Msg(1), Label::Rep);
    s.add(0, 300, Kind::Bool, Label::Single);
    s.add(1, 1, Kind::UInt64, Label::Single);
    s.add(1, 2, Kind::Bytes, Label::Rep);
    s.add(1, 3, Kind::Msg(0), Label::Single);
    s.add(1, 4, Kind::Double, Label::Rep);
    s
}

pub fn d05(r: &mut Runner)
{
    let full_schema = evolving();
    let full = match r.setup("schema", || evolving().compile()) {
        Some(f) => f,
        None => return,
    };
    // All variants with up to k fields removed or retyped to each other wire type.
    let slots: Vec<(usize, usize)> = full_schema
        .msgs
        .iter()
        .enumerate()
        .flat_map(|(m, d)| (0..d.fields.len()).map(move |f| (m, f)))
        .collect();
    let changes = r.by(2, 3);
    let mut variants: Vec<Vec<(usize, u8)>> = vec![];
    fn grow(
        slots: &[(usize, usize)],
        from: usize,
        left: usize,
        cur: &mut Vec<(usize, u8)>,
        out: &mut Vec<Vec<(usize, u8)>>,
    )
    {
        out.push(cur.clone());
        if left == 0 {
            return;
        }
        for i in from..slots.len() {
            for c in 0..5u8 {
                cur.push((i, c));
                grow(slots, i + 1, left - 1, cur, out);
                cur.pop();
            }
        }
    }
    grow(&slots, 0, changes, &mut vec![], &mut variants);
    let mut schemas = vec![];
    let mut changed = vec![];
    for v in &variants {
        let mut s = full_schema.clone();
        let mut ok = true;
        let mut removed = vec![];
        for (i, change) in v {
            let (m, f) = slots[*i];
            let field = &mut s.msgs[m].fields[f];
            if *change == 0 {
                removed.push((m, f));
                continue;
            }
            let kind = [Kind::UInt32, Kind::SFixed64, Kind::Bytes, Kind::Fixed32]
                [*change as usize - 1];
            let accepts = |w: u8| {
                field.kind.wire() == w || (w == 2 && field.repeated() && field.kind.packable())
            };
            if accepts(kind.wire()) {
                ok = false;
                break;
            }
            *field = fld(field.num, kind, Label::Single);
        }
        if !ok {
            continue;
        }
        removed.sort();
        for (m, f) in removed.iter().rev() {
            s.msgs[*m].fields.remove(*f);
        }
        schemas.push(s);
        changed.push(v.len());
    }
    // Also every subset of removed fields.
    let n = slots.len();
    for mask in 0u32..1 << n {
        let ones = mask.count_ones() as usize;
        if ones <= changes || (!r.thorough() && ones < n - 2) {
            continue;
        }
        let mut s = full_schema.clone();
        for i in (0..n).rev() {
            if mask >> i & 1 == 1 {
                let (m, f) = slots[i];
                s.msgs[m].fields.remove(f);
            }
        }
        schemas.push(s);
        changed.push(if ones == n { 0 } else { ones });
    }
    let count = schemas.len();
    let compiled = std::sync::Mutex::new((0..count).map(|_| None).collect::<Vec<Option<Compiled>>>());
    let ok = r.setup("variants", || {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let err = std::sync::Mutex::new(None);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= schemas.len() {
                        break;
                    }
                    match schemas[i].compile() {
                        Ok(c) => compiled.lock().unwrap()[i] = Some(c),
                        Err(v) => {
                            *err.lock().unwrap() = Some(v);
                            break;
                        }
                    }
                });
            }
        });
        match err.into_inner().unwrap() {
            Some(v) => Err(v),
            None => Ok(()),
        }
    });
    if ok.is_none() {
        return;
    }
    let variants: Vec<Compiled> = compiled
        .into_inner()
        .unwrap()
        .into_iter()
        .map(|c| c.unwrap())
        .collect();

    let mut records = tokens(&full, 0, true, false, 3);
    for f in &full.schema.msgs[0].fields {
        // Wrong wire types of declared fields, too.
        for wt in [0u8, 1, 2, 5] {
            if f.kind.wire() != wt {
                records.push(match wt {
                    0 => rec(f.num, 0, &varint(1 << 40)),
                    1 => rec(f.num, 1, &[1, 2, 3, 4, 5, 6, 7, 8]),
                    2 => rec_ld(f.num, &[8, 8]),
                    _ => rec(f.num, 5, &[1, 2, 3, 4]),
                });
            }
        }
    }
    records.push(rec_ld(5, &rec_ld(3, &rec_ld(5, &rec(1, 0, &varint((1 << 64) - 1))))));
    records.push(rec_ld(8, &[rec_ld(4, &[0; 16]), rec_ld(3, &rec_ld(6, &[1, 2, 3]))].concat()));
    records.push(rec(999, 0, &varint(77)));
    // Only complete, well-formed ones.
    records.retain(|t| {
        let mut d = Dec::new(&full);
        d.decode(0, t);
        d.well
    });
    records.sort();
    records.dedup();

    r.space(
        "evolution",
        0,
        &format!("{} reduced schemas (every combination of up to {} fields removed or redeclared with each other wire type, over two nested message types; {} field subsets) x every sequence of up to 2 of {} records", count, changes, if r.thorough() { "all" } else { "nearly empty" }, records.len()),
        |ch, st| {
            let v = ch.of(&variants);
            let a = ch.pick(records.len() + 1);
            let a: &[u8] = if a == 0 { &[] } else { &records[a - 1] };
            let mut b = a.to_vec();
            for second in std::iter::once(&vec![]).chain(if a.is_empty() { &records[..0] } else { &records[..] }) {
                b.truncate(a.len());
                b.extend_from_slice(second);
                evolve(&full, v, &b, st)?;
            }
            Ok(())
        },
    );

    // Long runs of one record, with another one in the middle: mostly unknown ones.
    let small: Vec<&Compiled> = (0..count).filter(|i| changed[*i] <= 1).map(|i| &variants[i]).collect();
    r.space(
        "runs",
        0,
        &format!("{} schemas with up to 1 field removed or redeclared, and without any field x runs of each of {} records of {} lengths up to {}", small.len(), records.len(), RUNS.len(), RUNS[RUNS.len() - 1]),
        |ch, st| {
            let v = *ch.of(&small);
            let a = ch.of(&records);
            if a.len() > 40 {
                return Ok(());
            }
            let n = *ch.of(&RUNS);
            let mut b = a.repeat(n / 2);
            b.extend_from_slice(&records[(n * 7 + a.len()) % records.len()]);
            b.extend(a.repeat(n - n / 2));
            evolve(&full, v, &b, st)
        },
    );
}

/// Lengths around which bookkeeping tends to change.
const RUNS: [usize; 50] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 23, 24, 25, 29, 30, 31,
    32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300,
    511, 512, 513,
];

fn evolve(full: &Compiled, v: &Compiled, b: &[u8], st: &mut St) -> R
{
    let reduced = decode(v, 0, b)?;
    let complete = decode(full, 0, b)?;
    let mut d = Dec::new(v);
    let want = d.decode(0, b);
    st.traces += 1;
    if !same_msg(&reduced, &want) {
        return Err(differ(v, 0, b, &reduced, &want));
    }
    if let Some(s) = d.spans.last() {
        st.outcome(s.ev.name());
    }
    d.flush(st);
    ensure!(
        reduced.fields.len() == complete.fields.len(),
        "{} gives {} entries with the complete schema and {} with the reduced one:\n{}",
        hex(b),
        complete.fields.len(),
        reduced.fields.len(),
        v.schema.render()
    );
    for (x, y) in reduced.fields.iter().zip(&complete.fields) {
        ensure!(x.number == y.number, "field numbers differ for {}", hex(b));
        let declared = v.field(0, x.number).map(|f| f.1.kind);
        let before = full.field(0, x.number).map(|f| f.1.kind);
        if declared == before && !matches!(declared, Some(Kind::Msg(_)) | Some(Kind::Enum(_))) {
            ensure!(
                same_value(&x.value, &y.value),
                "field {} of {} differs between the complete and the reduced schema: {} and {}\n{}",
                x.number,
                hex(b),
                short(&y.value),
                short(&x.value),
                v.schema.render()
            );
        }
    }
    let mut df = Dec::new(full);
    df.decode(0, b);
    if df.canon && d.canon {
        let e1 = encode(full, &complete)?;
        let e2 = encode(v, &reduced)?;
        ensure!(
            e1 == e2 && e1 == b,
            "{} re-encodes to {} with the complete and to {} with the reduced schema\n{}",
            hex(b),
            hex(&e1),
            hex(&e2),
            v.schema.render()
        );
        st.outcome("re-encoded");
    }
    st.sample(|| format!("{} with\n{}", hex(b), v.schema.render()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

const OPTION_FORMS: [(&str, Option<bool>); 14] = [
    ("", None),
    (" [packed = true]", Some(true)),
    (" [packed = false]", Some(false)),
    (" [packed=false, deprecated=true]", Some(false)),
    (" [deprecated = true, packed = false]", Some(false)),
    (" [json_name = \"packed\", packed = false, deprecated = false]", Some(false)),
    (" [deprecated = true]", None),
    (" [deprecated = true, packed = true]", Some(true)),
    (" [(packed) = false]", None),
    (" [(my.opt).packed = false, packed = true]", Some(true)),
    (" [(my.packed) = true, packed = false]", Some(false)),
    (" [json_name = \"x\", deprecated = false]", None),
    (" [packed_ = false]", None),
    (" [jstype = packed]", None),
];

struct Form
{
    text: String,
    ctx: Context,
    field: Kind,
    /// 0 repeated, 1 singular, 2 optional, 3 in a oneof
    label: usize,
    option: usize,
    packed: bool,
    mref: MessageRef,
    compiled: Option<Compiled>,
}

fn d06_form(kind: usize, label: usize, option: usize) -> Result<Form, Viol>
{
    let names = [
        "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32",
        "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "Other", "E",
    ];
    let k = match kind {
        15 => Kind::Msg(1),
        16 => Kind::Enum(0),
        k => SCALARS[k],
    };
    let label_text = ["repeated ", "", "optional ", ""][label];
    let decl = format!("{}{} f = 4{};", label_text, names[kind], OPTION_FORMS[option].0);
    let decl = match label {
        3 => format!("oneof choice {{ {} }}", decl),
        _ => decl,
    };
    let text = format!(
        "syntax = \"proto3\";\nenum E {{ Z = 0; }}\nmessage Other {{ int32 x = 1; }}\nmessage M {{\n  bool before = 3;\n  {}\n  uint32 after = 5;\n}}\n",
        decl
    );
    let ctx = match call("Context::parse", || Context::parse([text.as_str()]))? {
        Ok(c) => c,
        Err(e) => return fail(format!("valid schema rejected: {:?}\n{}", e, text)),
    };
    let mref = match ctx.get_message("M") {
        Some(m) => m.self_ref,
        None => return fail(format!("M not found\n{}", text)),
    };
    Ok(Form {
        text,
        ctx,
        field: k,
        label,
        option,
        packed: label == 0 && OPTION_FORMS[option].1.unwrap_or(true),
        mref,
        compiled: None,
    })
}

/// The elements that an entry of a repeated field contributes.
fn flatten(m: &MessageValue, num: u64) -> Vec<Value>
{
    let mut out = vec![];
    for f in &m.fields {
        if f.number == num {
            match &f.value {
                Value::Packed(p) => out.extend(packed_values(p)),
                v => out.push(v.clone()),
            }
        }
    }
    out
}

pub fn d06(r: &mut Runner)
{
    let mut forms = vec![];
    for kind in 0..17 {
        for label in 0..4 {
            for option in 0..OPTION_FORMS.len() {
                if label != 0 && OPTION_FORMS[option].1.is_some() {
                    // Not allowed by protobuf.
                    continue;
                }
                if kind >= 13 && kind != 16 && OPTION_FORMS[option].1.is_some() {
                    continue;
                }
                match r.setup("forms", || d06_form(kind, label, option)) {
                    Some(f) => forms.push(f),
                    None => return,
                }
            }
        }
    }
    for f in forms.iter_mut() {
        // The reference schema: numbers and kinds only.
        let mut s = Schema::default();
        s.enums.push(("E".into(), vec![0]));
        s.msg("M");
        s.msg("Other");
        s.add(1, 1, Kind::Int32, Label::Single);
        s.add(0, 3, Kind::Bool, Label::Single);
        let l = if f.label == 0 { Label::Rep } else { Label::Single };
        s.add(0, 4, f.field, l);
        s.add(0, 5, Kind::UInt32, Label::Single);
        f.compiled = match r.setup("reference", || s.compile()) {
            Some(c) => Some(c),
            None => return,
        };
    }

    r.space(
        "multiplicity",
        0,
        "15 scalars, message, enum x repeated, singular, optional, oneof x 14 option spellings: declared multiplicity",
        |ch, st| {
            let f = ch.of(&forms);
            let m = f.ctx.resolve_message(f.mref);
            let field = match call("get_field", || m.get_field(4))? {
                Some(x) => x,
                None => return fail(format!("field 4 not found\n{}", f.text)),
            };
            let want = match f.label {
                0 if f.field.packable() => match f.packed {
                    true => Multiplicity::RepeatedPacked,
                    false => Multiplicity::Repeated,
                },
                0 => Multiplicity::Repeated,
                2 => Multiplicity::Optional,
                _ => Multiplicity::Single,
            };
            st.traces += 1;
            st.steps += 1;
            st.state(&(f.field, f.label, f.option));
            st.sample(|| format!("{:?} for {}", field.multiplicity, f.text));
            // The enum's own default is not asserted: the library has no packed array of enums.
            if !matches!(f.field, Kind::Enum(_)) || f.label != 0 {
                ensure!(
                    field.multiplicity == want,
                    "multiplicity is {:?}, should be {:?}\n{}",
                    field.multiplicity,
                    want,
                    f.text
                );
            }
            Ok(())
        },
    );

    let max = r.by(3, 4);
    r.space(
        "interop",
        0,
        &format!("each such field x every sequence of up to {} elements of 5 boundary values x every split into expanded records and packed runs, with records of other fields around", max),
        |ch, st| {
            let f = ch.of(&forms);
            let c = f.compiled.as_ref().unwrap();
            if !f.field.packable() && !matches!(f.field, Kind::Enum(_)) {
                // Never packed.
                let n = ch.pick(3);
                let data: &[u8] = [&[][..], &[8, 1], &[8, 1, 8, 2]][n];
                let mut b = rec(3, 0, &[1]);
                b.extend(rec_ld(4, data));
                b.extend(rec(5, 0, &[9]));
                let got = call("decode", || f.ctx.resolve_message(f.mref).decode(&b, &f.ctx))?;
                st.traces += 1;
                st.steps += 3;
                ensure!(
                    got.fields.len() == 3 && !matches!(got.fields[1].value, Value::Packed(_)),
                    "{} gives {}\n{}",
                    hex(&b),
                    short(&got),
                    f.text
                );
                match (f.field, &got.fields[1].value) {
                    (Kind::Str, Value::String(s)) if s.as_bytes() == data => {}
                    (Kind::Bytes, Value::Bytes(s)) if s == data => {}
                    (Kind::Msg(_), Value::Message(m)) if m.fields.len() == n => {}
                    _ => return fail(format!("{} gives {}\n{}", hex(&b), short(&got), f.text)),
                }
                return Ok(());
            }
            let n = ch.pick(max + 1);
            let elements: Vec<Vec<u8>> = (0..n)
                .map(|_| {
                    let i = ch.pick(5);
                    match f.field.wire() {
                        0 => varint([0, 1, 300, (1 << 32) - 1, (1 << 64) - 1][i]),
                        1 => fixed_values(8)[[0, 1, 2, 4, 6][i]].clone(),
                        _ => fixed_values(4)[[0, 1, 2, 4, 6][i]].clone(),
                    }
                })
                .collect();
            // 0: expanded, 1: starts a packed run, 2: continues the packed run.
            let mut form = vec![];
            for i in 0..n {
                let options = if i > 0 && form[i - 1] > 0 { 3 } else { 2 };
                form.push(ch.pick(options));
            }
            let empty_run = ch.flag();
            let interleave = ch.flag();
            let mut b = rec(3, 0, &[1]);
            let mut packed_used = false;
            if empty_run {
                b.extend(rec_ld(4, &[]));
                packed_used = true;
            }
            let mut i = 0;
            while i < n {
                if form[i] == 0 {
                    b.extend(rec(4, f.field.wire(), &elements[i]));
                    i += 1;
                } else {
                    let mut run = elements[i].clone();
                    i += 1;
                    while i < n && form[i] == 2 {
                        run.extend_from_slice(&elements[i]);
                        i += 1;
                    }
                    b.extend(rec_ld(4, &run));
                    packed_used = true;
                }
                if interleave {
                    b.extend(rec(5, 0, &[7]));
                }
            }
            b.extend(rec(5, 0, &[9]));

            let got = call("decode", || f.ctx.resolve_message(f.mref).decode(&b, &f.ctx))?;
            st.traces += 1;
            st.steps += n as u64 + 2;
            st.state(&(f.field, f.label, f.option, &form, empty_run, interleave));
            let values = flatten(&got, 4);
            let show = || format!("{} gives {}\n{}", hex(&b), short(&got), f.text);
            let repeated = f.label == 0;
            if repeated {
                // All expanded is the reference for the element values.
                let mut all: Vec<u8> = vec![];
                for e in &elements {
                    all.extend(rec(4, f.field.wire(), e));
                }
                let mut d = Dec::new(c);
                let want: Vec<Value> = d
                    .decode(0, &all)
                    .fields
                    .into_iter()
                    .map(|f| f.value)
                    .collect();
                if matches!(f.field, Kind::Enum(_)) {
                    // The enum references come from another context.
                    let plain = |v: &[Value]| -> Option<Vec<i64>> {
                        v.iter()
                            .map(|v| match v {
                                Value::Enum(e) => Some(e.value),
                                _ => None,
                            })
                            .collect()
                    };
                    if plain(&values).is_none() || plain(&values) != plain(&want) {
                        // Exactly the known failure: each packed run is an unknown value and
                        // everything else is right.
                        if packed_used && enum_runs_unknown(&got, &b) {
                            return fail_key("packed-enum", show());
                        }
                        return fail(show());
                    }
                } else {
                    let same = values.len() == want.len()
                        && values.iter().zip(&want).all(|(a, b)| same_value(a, b));
                    ensure!(same, "elements should be {:?}: {}", want, show());
                    // A packed record stays one entry, an expanded one is a plain value.
                    let mut at = 0;
                    let mut d = Dec::new(c);
                    let whole = d.decode(0, &b);
                    ensure!(
                        whole.fields.len() == got.fields.len(),
                        "{} entries expected: {}",
                        whole.fields.len(),
                        show()
                    );
                    for (x, y) in got.fields.iter().zip(&whole.fields) {
                        ensure!(
                            x.number == y.number
                                && matches!(x.value, Value::Packed(_))
                                    == matches!(y.value, Value::Packed(_)),
                            "entry {} has the wrong form: {}",
                            at,
                            show()
                        );
                        at += 1;
                    }
                }
                st.outcome(if packed_used { "packed form" } else { "expanded form" });
            } else {
                // Never packed.
                for v in &values {
                    ensure!(
                        !matches!(v, Value::Packed(_)),
                        "singular field decoded as packed: {}",
                        show()
                    );
                }
                st.outcome("singular");
            }
            st.sample(show);
            Ok(())
        },
    );

    // Many elements, by count and by bytes.
    let mut lengths: Vec<usize> = RUNS.to_vec();
    lengths.extend([1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]);
    lengths.extend([8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537]);
    r.space(
        "long",
        0,
        &format!("each repeated scalar and expanded enum field x {} numbers of elements up to {} x 5 values, or all of them in turn x one record each, one packed record, two packed records, a packed record after single ones, and between other fields", lengths.len(), lengths[lengths.len() - 1]),
        |ch, st| {
            let f = ch.of(&forms);
            let is_enum = matches!(f.field, Kind::Enum(_));
            if f.label != 0 || !(f.field.packable() || is_enum) {
                return Ok(());
            }
            let n = *ch.of(&lengths);
            if n > 600 && f.option > 2 {
                return Ok(());
            }
            let value = ch.pick(6);
            if n > 5000 && value != 1 && value != 5 {
                return Ok(());
            }
            let shape = ch.pick(if is_enum { 1 } else { 4 });
            let element = |i: usize| -> Vec<u8> {
                let k = if value == 5 { i * 3 % 5 } else { value };
                match f.field.wire() {
                    0 => varint([0, 1, 300, (1 << 32) - 1, (1 << 64) - 1][k]),
                    1 => fixed_values(8)[[0, 1, 2, 4, 6][k]].clone(),
                    _ => fixed_values(4)[[0, 1, 2, 4, 6][k]].clone(),
                }
            };
            let expanded = |from: usize, to: usize| -> Vec<u8> {
                (from..to).flat_map(|i| rec(4, f.field.wire(), &element(i))).collect()
            };
            let packed = |from: usize, to: usize| -> Vec<u8> {
                rec_ld(4, &(from..to).flat_map(element).collect::<Vec<u8>>())
            };
            let b = match shape {
                0 => expanded(0, n),
                1 => packed(0, n),
                2 => [packed(0, n / 2), rec(5, 0, &[7]), packed(n / 2, n)].concat(),
                _ => [expanded(0, n / 3), packed(n / 3, n), rec(3, 0, &[1])].concat(),
            };
            let c = f.compiled.as_ref().unwrap();
            let got = call("decode", || f.ctx.resolve_message(f.mref).decode(&b, &f.ctx))?;
            st.traces += 1;
            st.steps += n as u64;
            st.state(&(f.field, f.option, n, shape));
            let mut d = Dec::new(c);
            let want = d.decode(0, &b);
            let says = || {
                format!(
                    "{} elements of {:?} in shape {}: {} entries with {} elements, should be {} with {}\n{}",
                    n,
                    f.field,
                    shape,
                    got.fields.len(),
                    flatten(&got, 4).len(),
                    want.fields.len(),
                    flatten(&want, 4).len(),
                    f.text
                )
            };
            ensure!(got.garbage.is_none() && got.fields.len() == want.fields.len(), "{}", says());
            for (x, y) in got.fields.iter().zip(&want.fields) {
                let same = x.number == y.number
                    && match (&x.value, &y.value) {
                        (Value::Enum(a), Value::Enum(b)) => a.value == b.value,
                        (a, b) => same_value(a, b),
                    };
                ensure!(same, "{}", says());
            }
            ensure!(flatten(&got, 4).len() == n, "{}", says());
            Ok(())
        },
    );
}

fn enum_runs_unknown(got: &MessageValue, b: &[u8]) -> bool
{
    // Walk the payload: tags 3, 4, 5 are single bytes.
    let mut pos = 0;
    let mut i = 0;
    while pos < b.len() {
        let f = match got.fields.get(i) {
            Some(f) => f,
            None => return false,
        };
        let t = b[pos];
        pos += 1;
        if t & 7 == 2 {
            let len = b[pos] as usize;
            let data = &b[pos + 1..pos + 1 + len];
            match &f.value {
                Value::Unknown(UnknownValue::VariableLength(x)) if x == data => {}
                _ => return false,
            }
            pos += 1 + len;
        } else {
            if matches!(f.value, Value::Unknown(_) | Value::Incomplete(..)) {
                return false;
            }
            while b[pos] >= 0x80 {
                pos += 1;
            }
            pos += 1;
        }
        if f.number != t as u64 >> 3 {
            return false;
        }
        i += 1;
    }
    i == got.fields.len() && got.garbage.is_none()
}

// ---------------------------------------------------------------------------------------------

pub fn d07(r: &mut Runner)
{
    let c = match rich_ctx(r) {
        Some(c) => c,
        None => return,
    };
    // Complete payloads: single records and the empty payload.
    let th = r.thorough();
    let lists: Vec<(usize, Vec<Vec<u8>>)> = [A, B, REP, OPT, N, BIG, 7]
        .iter()
        .map(|mi| {
            let full = !matches!(*mi, REP | OPT) || th;
            let mut l = tokens(&c, *mi, !full, true, 2);
            l.push(vec![]);
            l.retain(|t| {
                // Complete: what is undecodable inside stays inside.
                let mut d = Dec::new(&c);
                d.decode(*mi, t);
                d.spans.iter().all(|s| {
                    matches!(s.ev, Ev::Typed | Ev::Packed | Ev::Unknown | Ev::BadPacked)
                })
            });
            (*mi, l)
        })
        .collect();
    // Decoded on their own.
    let alone = r.setup("alone", || {
        let mut out = vec![];
        for (mi, l) in &lists {
            let mut o = vec![];
            for t in l {
                o.push(decode(&c, *mi, t)?);
            }
            out.push(o);
        }
        Ok(out)
    });
    let alone = match alone {
        Some(a) => a,
        None => return,
    };
    let parts = r.by(2, 3);
    r.space(
        "concat",
        0,
        &format!("every sequence of up to {} complete payloads per message type ({} payloads)", parts, lists.iter().map(|l| l.1.len().to_string()).collect::<Vec<_>>().join(", ")),
        |ch, st| {
            let li = ch.pick(lists.len());
            let (mi, l) = &lists[li];
            let mut b = vec![];
            let mut idx = vec![];
            let n = if l.len() > 260 { 2 } else { parts };
            for _ in 0..n {
                let i = ch.pick(l.len());
                idx.push(i);
                b.extend_from_slice(&l[i]);
            }
            let got = decode(&c, *mi, &b)?;
            st.traces += 1;
            st.steps += n as u64;
            st.state(&(li, idx[0], idx[n - 1]));
            let mut at = 0;
            let mut ok = got.garbage.is_none() && got.msg_ref == c.mrefs[*mi];
            for i in &idx {
                let want = &alone[li][*i].fields;
                ok = ok
                    && at + want.len() <= got.fields.len()
                    && same_fields(&got.fields[at..at + want.len()], want);
                if !ok {
                    break;
                }
                at += want.len();
            }
            ensure!(
                ok && at == got.fields.len(),
                "the concatenation of {:?} as {} gives {}",
                idx.iter().map(|i| hex(&l[*i])).collect::<Vec<_>>(),
                c.schema.msgs[*mi].name,
                short(&got)
            );
            st.sample(|| format!("{} as {}", hex(&b), c.schema.msgs[*mi].name));
            Ok(())
        },
    );
    if r.thorough() {
        r.space(
            "concat-4",
            0,
            "every sequence of 4 of every 8th complete payload of A, B, N",
            |ch, st| {
                let li = *ch.of(&[0usize, 1, 4]);
                let (mi, l) = &lists[li];
                let k = (l.len() / 8).min(36);
                let mut b = vec![];
                let mut want = vec![];
                for j in 0..4 {
                    let i = ch.pick(k) * 8 + j;
                    let i = i.min(l.len() - 1);
                    b.extend_from_slice(&l[i]);
                    want.extend_from_slice(&alone[li][i].fields);
                }
                let got = decode(&c, *mi, &b)?;
                st.traces += 1;
                st.steps += 4;
                ensure!(
                    same_fields(&got.fields, &want) && got.garbage.is_none(),
                    "concatenation {} as {} gives {}",
                    hex(&b),
                    c.schema.msgs[*mi].name,
                    short(&got)
                );
                Ok(())
            },
        );
    }

    // Runs of one payload after runs of another.
    r.space(
        "concat-runs",
        0,
        &format!("runs of each complete payload of each message type of {} lengths up to {}, followed by runs of 3 others", RUNS.len(), RUNS[RUNS.len() - 1]),
        |ch, st| {
            let li = ch.pick(lists.len());
            let (mi, l) = &lists[li];
            let i = ch.pick(l.len());
            if l[i].len() > 64 {
                return Ok(());
            }
            let n = *ch.of(&RUNS);
            let (j, m) = match ch.pick(3) {
                0 => (l.len() - 1, 0),
                1 => (i, n + 1),
                _ => ((i * 7 + n) % l.len(), 1 + n * 5 % 300),
            };
            let m = if l[j].len() > 64 { 1 } else { m };
            let mut b = l[i].repeat(n);
            b.extend(l[j].repeat(m));
            let got = decode(&c, *mi, &b)?;
            st.traces += 1;
            st.steps += (n + m) as u64;
            st.state(&(li, i, n));
            let (x, y) = (&alone[li][i].fields, &alone[li][j].fields);
            let mut ok = got.garbage.is_none()
                && got.msg_ref == c.mrefs[*mi]
                && got.fields.len() == n * x.len() + m * y.len();
            for k in 0..n {
                ok = ok && same_fields(&got.fields[k * x.len()..(k + 1) * x.len()], x);
            }
            for k in 0..m {
                let at = n * x.len() + k * y.len();
                ok = ok && same_fields(&got.fields[at..at + y.len()], y);
            }
            ensure!(
                ok,
                "{} copies of {} and {} copies of {} as {} do not decode to what they are alone: {} entries, garbage {:?}",
                n,
                hex(&l[i]),
                m,
                hex(&l[j]),
                c.schema.msgs[*mi].name,
                got.fields.len(),
                got.garbage.as_ref().map(|g| g.len())
            );
            Ok(())
        },
    );

    // Embedding: any bytes, complete or not, decode inside as they do alone.
    let chains: Vec<(usize, Vec<(u64, usize)>)> = vec![
        (B, vec![(3, B)]),
        (N, vec![(4, N)]),
        (A, vec![(18, A)]),
        (REP, vec![(18, REP)]),
        (OPT, vec![(18, OPT)]),
        (B, vec![(2, N), (5, B)]),
        (B, vec![(8, N), (5, B)]),
        (B, vec![(13, N), (5, B)]),
        (A, vec![(17, N), (4, N), (5, B), (3, B)]),
        (REP, vec![(17, N), (4, N)]),
        (OPT, vec![(17, N), (5, B)]),
        (BIG, vec![(127, N), (4, N)]),
        (B, vec![(11, 7)]),
    ];
    let inner: Vec<Vec<Vec<u8>>> = (0..c.schema.msgs.len())
        .map(|mi| {
            let mut l = tokens(&c, mi, true, true, 2);
            let n = l.len();
            for i in 0..n {
                let mut p = l[i].clone();
                p.extend_from_slice(&l[(i * 5 + 2) % n]);
                l.push(p);
            }
            l.push(vec![]);
            l.push(vec![0x80]);
            l.push(vec![0x0a, 0x05, 0x01]);
            l
        })
        .collect();
    let depths: Vec<usize> = if th {
        (1..=MAX_LEVELS + 4).collect()
    } else {
        (1..=9).chain([15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 90, 99, 100, 101, 102]).collect()
    };
    r.space(
        "embed",
        0,
        &format!("every core record, pair of core records and damaged message of each type embedded through 13 chains of message fields (singular, repeated, optional, oneof, map) at {} depths up to and beyond the limit of 100, with 4 kinds of neighbours", depths.len()),
        |ch, st| {
            let (root, chain) = ch.of(&chains);
            let depth = *ch.of(&depths);
            if chain.len() == 1 && chain[0].1 == 7 && depth > 1 {
                return Ok(());
            }
            // Chains loop over their last elements.
            let step = |level: usize| -> (u64, usize) {
                if level < chain.len() {
                    chain[level]
                } else {
                    // Continue from the type reached: find the loop.
                    let last = chain[chain.len() - 1].1;
                    match last {
                        N => (4, N),
                        B => (3, B),
                        A => (18, A),
                        m => (18, m),
                    }
                }
            };
            let target = step(depth - 1).1;
            let i = ch.pick(inner[target].len());
            let payload = &inner[target][i];
            let mut types = vec![*root];
            for l in 0..depth {
                types.push(step(l).1);
            }
            let around = ch.pick(4);
            let side = |mi: usize| -> Vec<u8> {
                match mi {
                    A => rec(13, 0, &[1]),
                    B => rec(7, 2, &ld(b"side")),
                    N => rec_ld(3, &[1, 2, 3]),
                    7 => rec(2, 0, &[1]),
                    REP | OPT => rec(8, 0, &[1]),
                    _ => rec(99, 5, &[1, 2, 3, 4]),
                }
            };
            let mut b = payload.clone();
            // What is embedded at the first level that is not decoded.
            let mut beyond = vec![];
            for l in (0..depth).rev() {
                if l == MAX_LEVELS {
                    beyond = b.clone();
                }
                let mut o = vec![];
                if around & 1 == 1 {
                    o.extend(side(types[l]));
                }
                o.extend(rec_ld(step(l).0, &b));
                if around & 2 == 2 {
                    o.extend(side(types[l]));
                }
                b = o;
            }
            let got = decode(&c, *root, &b)?;
            let mut alone = decode(&c, target, payload)?;
            let alone_ref = decode_ref(&c, target, payload)?;
            ensure!(
                same_msg(&alone, &alone_ref),
                "decoding through the definition and the reference differ for {}",
                hex(payload)
            );
            st.traces += 1;
            st.steps += depth as u64;
            st.state(&(root, depth, target, i));
            let mut m = &got;
            for l in 0..depth.min(MAX_LEVELS) {
                let k = around & 1;
                let n = 1 + k + (around >> 1);
                let next = match m.fields.get(k) {
                    Some(FieldValue {
                        number,
                        value: Value::Message(x),
                    }) if *number == step(l).0 => x,
                    _ => {
                        return fail(format!(
                            "no message at level {} of {} in {}",
                            l + 1,
                            hex(&b),
                            short(&got)
                        ))
                    }
                };
                ensure!(
                    m.fields.len() == n && m.garbage.is_none(),
                    "wrong neighbours at level {} of {} in {}",
                    l,
                    hex(&b),
                    short(&got)
                );
                if n > 1 {
                    let s = decode(&c, types[l], &side(types[l]))?;
                    for j in [0, n - 1] {
                        if j != k {
                            ensure!(
                                same_fields(&m.fields[j..j + 1], &s.fields),
                                "neighbour changed at level {} of {} in {}",
                                l,
                                hex(&b),
                                short(&got)
                            );
                        }
                    }
                }
                m = next;
            }
            if depth > MAX_LEVELS {
                let k = around & 1;
                let n = 1 + k + (around >> 1);
                let (number, _) = step(MAX_LEVELS);
                ensure!(
                    m.garbage.is_none()
                        && m.fields.len() == n
                        && m.fields[k].number == number
                        && matches!(&m.fields[k].value, Value::Unknown(UnknownValue::VariableLength(x)) if x[..] == beyond[..]),
                    "beyond the limit of {} levels, {} decodes to {}",
                    MAX_LEVELS,
                    hex(&b),
                    short(m)
                );
                return Ok(());
            }
            if depth + 4 > MAX_LEVELS {
                // What is in the payload may be beyond the limit.
                alone = Dec::new(&c).decode_at(target, payload, depth);
            }
            ensure!(
                same_msg(m, &alone),
                "{} as {} decodes to {} on its own and to {} embedded at depth {} in {}",
                hex(payload),
                c.schema.msgs[target].name,
                short(&alone),
                short(m),
                depth,
                hex(&b)
            );
            st.sample(|| format!("{} at depth {} of {}", hex(payload), depth, c.schema.msgs[*root].name));
            Ok(())
        },
    );
}
