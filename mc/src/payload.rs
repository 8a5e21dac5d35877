//! Payload spaces shared by the decode and encode checks.

use crate::engine::*;
use crate::model::*;
use crate::wire::*;

pub type Body<'a> = &'a (dyn Fn(&Compiled, usize, &[u8], &mut St) -> R + Sync);

/// Interesting varint values.
pub fn varint_values() -> Vec<u128>
{
    let mut v: Vec<u128> = vec![];
    for k in 0..=70u32 {
        let p = 1u128 << k;
        for d in [0i128, -3, -2, -1, 1, 2, 3] {
            let x = p as i128 + d;
            if x >= 0 && x < 1i128 << 70 {
                v.push(x as u128);
            }
        }
    }
    // Sign extended negative numbers.
    for k in 0..63u32 {
        v.push((1u128 << 64) - (1u128 << k));
        v.push((1u128 << 64) - (1u128 << k) - 1);
    }
    for k in 1..10u32 {
        // Seven-bit patterns.
        v.push(((1u128 << (7 * k)) - 1) / 127);
        v.push(((1u128 << (7 * k)) - 1) / 127 * 64);
    }
    v.push(0x5555_5555_5555_5555);
    v.push(0xaaaa_aaaa_aaaa_aaaa);
    v.push(0x0123_4567_89ab_cdef);
    v.push(0xfedc_ba98_7654_3210);
    v.sort();
    v.dedup();
    v
}

pub fn core_varints() -> Vec<Vec<u8>>
{
    [
        0u128,
        1,
        2,
        127,
        128,
        300,
        (1 << 31) - 1,
        1 << 31,
        (1 << 32) - 1,
        1 << 32,
        (1 << 63) - 1,
        1 << 63,
        (1 << 64) - 1,
        (1 << 64) - 2,
        (1 << 64) - (1 << 31),
    ]
    .iter()
    .map(|v| varint(*v))
    .collect()
}

pub fn fixed_values(n: usize) -> Vec<Vec<u8>>
{
    let mut v = vec![
        vec![0; n],
        vec![0xff; n],
        (1..=n as u8).collect::<Vec<_>>(),
        (0..n as u8).map(|i| 0x80 >> i.min(7)).collect(),
    ];
    // Only the sign bit, the largest positive number, a signalling and a negative quiet NaN.
    let mut top = vec![0; n];
    top[n - 1] = 0x80;
    v.push(top);
    let mut max = vec![0xff; n];
    max[n - 1] = 0x7f;
    v.push(max);
    if n == 4 {
        v.push(0x7fa0_0001u32.to_le_bytes().to_vec());
        v.push(0xffc0_1234u32.to_le_bytes().to_vec());
        v.push(1.5f32.to_le_bytes().to_vec());
        v.push(f32::INFINITY.to_le_bytes().to_vec());
    } else {
        v.push(0x7ff4_0000_0000_0001u64.to_le_bytes().to_vec());
        v.push(0xfff8_0000_dead_beefu64.to_le_bytes().to_vec());
        v.push((-2.5f64).to_le_bytes().to_vec());
        v.push(f64::NEG_INFINITY.to_le_bytes().to_vec());
    }
    v
}

pub fn strings() -> Vec<Vec<u8>>
{
    vec![
        vec![],
        b"a".to_vec(),
        "\u{e9}\u{1f600}".as_bytes().to_vec(),
        vec![0],
        vec![0xff, b'x'],
        vec![0xe2, 0x82],
        vec![0x08, 0x01],
        vec![b'y'; 127],
        vec![b'z'; 128],
    ]
}

/// Payload of one element.
fn element(kind: Kind, i: usize) -> Vec<u8>
{
    match kind.wire() {
        0 => {
            let v = core_varints();
            v[i % v.len()].clone()
        }
        1 => fixed_values(8)[i % 10].clone(),
        5 => fixed_values(4)[i % 10].clone(),
        _ => unreachable!(),
    }
}

/// Records of the message. `core` gives fewer of them. Without `odd` there are only well-formed
/// ones.
pub fn tokens(c: &Compiled, mi: usize, core: bool, odd: bool, depth: usize) -> Vec<Vec<u8>>
{
    let mut out = vec![];
    let mut n = 0;
    for f in &c.schema.msgs[mi].fields {
        n += 1;
        // Well-formed values.
        match f.kind {
            Kind::Msg(m) => {
                out.push(rec_ld(f.num, &[]));
                if depth > 0 {
                    let inner = tokens(c, m, true, odd, depth - 1);
                    let take = if core { 2 } else { 12 };
                    let stride = (inner.len() / take).max(1);
                    for (i, t) in inner.iter().enumerate().skip(n % stride).step_by(stride) {
                        let mut body = t.clone();
                        if i % 2 == 1 {
                            body.extend_from_slice(&inner[(i * 7 + 3) % inner.len()]);
                        }
                        out.push(rec_ld(f.num, &body));
                    }
                }
            }
            Kind::Str | Kind::Bytes => {
                for (i, s) in strings().iter().enumerate() {
                    if !core || i < 3 {
                        out.push(rec_ld(f.num, s));
                    }
                }
            }
            k => {
                let all: Vec<Vec<u8>> = match k.wire() {
                    0 => core_varints(),
                    1 => fixed_values(8),
                    _ => fixed_values(4),
                };
                for (i, v) in all.iter().enumerate() {
                    if !core || i == n % 5 || i == 12.min(all.len() - 1) {
                        out.push(rec(f.num, k.wire(), v));
                    }
                }
                if !core && k.wire() == 0 {
                    out.push(rec(f.num, 0, &varint_padded(5, 4)));
                    out.push(rec(f.num, 0, &varint_padded(1 << 31, 10)));
                }
                // Packed arrays: of repeated fields and where they are not expected.
                let counts: &[usize] = if core { &[2] } else { &[0, 1, 2, 3, 17] };
                for count in counts {
                    let body: Vec<u8> = (0..*count).flat_map(|i| element(k, i + n)).collect();
                    out.push(rec_ld(f.num, &body));
                }
            }
        }
        // Values of every wire type.
        if !core {
            out.push(rec(f.num, 0, &[0x96, 0x01]));
            out.push(rec(f.num, 1, &[1, 2, 3, 4, 5, 6, 7, 8]));
            out.push(rec_ld(f.num, &[0x07]));
            out.push(rec(f.num, 5, &[1, 2, 3, 0x80]));
        } else if n % 4 == 0 {
            let wt = [0, 1, 5, 2][(n / 4) % 4];
            out.push(match wt {
                0 => rec(f.num, 0, &[0x96, 0x01]),
                1 => rec(f.num, 1, &[1, 2, 3, 4, 5, 6, 7, 8]),
                2 => rec_ld(f.num, &[0x07]),
                _ => rec(f.num, 5, &[1, 2, 3, 0x80]),
            });
        }
        if odd && (!core || n % 5 == 0) {
            // Undecodable data.
            out.push(rec(f.num, 3, &[1, 2]));
            if !core {
                out.push(rec(f.num, 4, &[]));
                out.push(rec(f.num, 6, &[0x08]));
                out.push(rec(f.num, 7, &[0xff]));
                out.push(rec(f.num, 0, &[0xff; 11]));
                out.push(rec(f.num, 0, &varint((1 << 65) + 1)));
                out.push(rec_ld(f.num, &[0x80]));
                out.push(rec_ld(f.num, &[0x05, 0xff]));
                out.push(rec_ld(f.num, &[0xff; 12]));
                out.push(rec_ld(f.num, &[1, 2, 3, 4, 5]));
                out.push(rec(f.num, 2, &[0x7f]));
                out.push(rec(f.num, 2, &[0xff; 11]));
                out.push(rec(
                    f.num,
                    2,
                    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
                ));
            }
        }
    }
    // Undeclared numbers.
    for (i, num) in [0u64, 99, 1000, (1 << 29) - 1, 1 << 29, (1 << 61) - 1]
        .iter()
        .enumerate()
    {
        if core && i % 3 != 1 {
            continue;
        }
        out.push(rec(*num, 0, &varint(1 << (9 * i + 3))));
        out.push(rec(*num, 1, &fixed_values(8)[i % 10]));
        out.push(rec_ld(*num, &strings()[i + 1]));
        out.push(rec(*num, 5, &fixed_values(4)[i % 10]));
        if odd {
            out.push(rec(*num, 3, &[0x08, 0x01]));
            if !core {
                out.push(rec(*num, 6, &[]));
                out.push(rec(*num, 2, &[0x03, 0x01]));
            }
        }
    }
    if odd {
        // Undecodable tags.
        out.push(vec![0x80]);
        out.push(vec![0xff; 10]);
        if !core {
            out.push(vec![0x80; 11]);
            out.push(vec![
                0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02,
            ]);
        }
    }
    if !odd {
        // `values of every wire type` and the nested ones may be undecodable.
        out.retain(|t| {
            let mut d = Dec::new(c);
            d.decode(mi, t);
            d.well
        });
    }
    out
}

#[derive(Clone, Copy, Default)]
pub struct Sel
{
    pub bytes: bool,
    pub records: bool,
    pub odd: bool,
    pub sweeps: bool,
    pub damage: bool,
    /// Scales the sizes down for bodies that do much work per payload.
    pub heavy: bool,
}

pub const CRITICAL_B: [u8; 14] = [
    0x00, 0x01, 0x02, 0x03, 0x80, 0xff, 0x08, 0x12, 0x1a, 0x22, 0x20, 0x35, 0x3a, 0x0b,
];
pub const CRITICAL_A: [u8; 14] = [
    0x00, 0x01, 0x02, 0x04, 0x80, 0xff, 0x7f, 0x18, 0x09, 0x15, 0x72, 0x6d, 0x3c, 0x38,
];

/// Enumerates payloads and passes each to the body.
pub fn payloads(r: &mut Runner, c: &Compiled, sel: Sel, body: Body)
{
    let th = r.thorough();
    if sel.bytes {
        let len = if sel.heavy && !th { 2 } else { 3 };
        r.space(
            "bytes-all",
            0,
            &format!("every byte string of up to {} bytes, decoded as A (singular scalars) and as B (all labels, maps, messages, oneofs)", len),
            |ch, st| {
                let mi = *ch.of(&[A, B]);
                let n = ch.pick(len + 1);
                let mut b = [0u8; 8];
                for x in b[..n].iter_mut() {
                    *x = ch.pick(256) as u8;
                }
                body(c, mi, &b[..n], st)
            },
        );
        r.space(
            "bytes-all-2",
            0,
            "every byte string of up to 2 bytes for each message type; every third byte after a two-byte tag of the fields 16 to 18",
            |ch, st| {
                let mi = *ch.of(&[REP, REPF, OPT, N, BIG, 7]);
                let n = ch.pick(4);
                let mut b = [0u8; 8];
                if n == 3 {
                    b[0] = 0x80 | ch.pick(32) as u8;
                    b[1] = 1;
                    b[2] = ch.pick(256) as u8;
                } else {
                    for x in b[..n].iter_mut() {
                        *x = ch.pick(256) as u8;
                    }
                }
                body(c, mi, &b[..n], st)
            },
        );
        let len = match (th, sel.heavy) {
            (false, true) => 4,
            (false, false) => 5,
            (true, true) => 6,
            (true, false) => 7,
        };
        r.space(
            "bytes-critical",
            0,
            &format!("every string of up to {} bytes over 14 critical bytes (tags of each payload form, varint and length boundaries), as A and as B", len),
            |ch, st| {
                let (mi, alphabet) = *ch.of(&[(B, CRITICAL_B), (A, CRITICAL_A)]);
                let n = ch.pick(len + 1);
                let mut b = [0u8; 8];
                for x in b[..n].iter_mut() {
                    *x = *ch.of(&alphabet);
                }
                body(c, mi, &b[..n], st)
            },
        );
        if th && !sel.heavy {
            r.space(
                "bytes-all-4",
                0,
                "every tag byte of B followed by every two bytes and one of 14 critical bytes; 4 bytes",
                |ch, st| {
                    let b = [
                        ch.pick(128) as u8,
                        ch.pick(256) as u8,
                        ch.pick(256) as u8,
                        *ch.of(&CRITICAL_B),
                    ];
                    body(c, B, &b, st)
                },
            );
        }
    }

    if sel.records {
        let lists: Vec<(usize, Vec<Vec<u8>>, Vec<Vec<u8>>)> = (0..c.schema.msgs.len())
            .map(|m| {
                (
                    m,
                    tokens(c, m, false, sel.odd, 2),
                    tokens(c, m, true, sel.odd, 2),
                )
            })
            .collect();
        let n: Vec<String> = lists
            .iter()
            .map(|(m, f, k)| format!("{}:{}/{}", c.schema.msgs[*m].name, f.len(), k.len()))
            .collect();
        let bound = if th && !sel.heavy { 3 } else { 2 };
        r.space(
            "records-full",
            0,
            &format!("every sequence of up to {} records out of the full record list of each message type (records full/core: {})", bound, n.join(" ")),
            |ch, st| {
                let (mi, full, _) = ch.of(&lists);
                let bound = if matches!(*mi, A | B | N | REP) { bound } else { 2 };
                let k = ch.pick(bound + 1);
                let mut b = vec![];
                for _ in 0..k {
                    b.extend_from_slice(ch.of(full));
                }
                body(c, *mi, &b, st)
            },
        );
        let bound = match (th, sel.heavy) {
            (true, false) => 4,
            (true, true) => 3,
            (false, false) => 3,
            (false, true) => 2,
        };
        r.space(
            "records-core",
            0,
            &format!("every sequence of exactly {} records out of the core record list of A, B, N and Rep", bound),
            |ch, st| {
                let (mi, _, core) = &lists[*ch.of(&[A, B, N, REP])];
                let mut b = vec![];
                for i in 0..bound {
                    let t = if i < 2 || bound <= 3 {
                        ch.of(core)
                    } else {
                        // Every second record in the last places.
                        &core[ch.pick(core.len() / 2) * 2]
                    };
                    b.extend_from_slice(t);
                }
                body(c, *mi, &b, st)
            },
        );
        r.space(
            "runs",
            0,
            "each core record repeated 0 to 40 times and 100, 127, 128, 255, 256, 1000 times, followed by a second record",
            |ch, st| {
                let (mi, _, core) = ch.of(&lists);
                let t = ch.of(core);
                let count = ch.pick(47);
                let count = if count <= 40 {
                    count
                } else {
                    [100, 127, 128, 255, 256, 1000][count - 41]
                };
                let mut b = vec![];
                for _ in 0..count {
                    b.extend_from_slice(t);
                }
                b.extend_from_slice(&core[core.len() / 3]);
                body(c, *mi, &b, st)
            },
        );
        if !sel.heavy {
            r.space(
                "long-runs",
                0,
                "every third core record repeated 1023 to 1025, 4095 to 4097, 32767 to 32769, 65535 to 65537 and 100000 times, bare or in an embedded message, followed by a second record",
                |ch, st| {
                    let (mi, _, core) = ch.of(&lists);
                    let t = &core[ch.pick((core.len() + 2) / 3) * 3];
                    let count = *ch.of(&[
                        1023usize, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536,
                        65537, 100000,
                    ]);
                    if count > 5000 && t.len() > if th { 400 } else { 24 } {
                        return Ok(());
                    }
                    let mut b = t.repeat(count);
                    b.extend_from_slice(&core[core.len() / 3]);
                    if *mi == A && ch.flag() {
                        b = rec_ld(18, &b);
                    }
                    body(c, *mi, &b, st)
                },
            );
        }
        r.space(
            "nesting",
            0,
            "a record nested 1 to 64 and 95 to 106 levels deep (100 is the limit) through each message field, with and without records before and after it at every level",
            |ch, st| {
                let paths: [(usize, &[(u64, usize)]); 7] = [
                    (B, &[(3u64, B)][..]),
                    (N, &[(4, N)][..]),
                    (A, &[(18, A)][..]),
                    (REP, &[(18, REP)][..]),
                    (OPT, &[(18, OPT)][..]),
                    (B, &[(8, N), (5, B)][..]),
                    (N, &[(5, B), (13, N)][..]),
                ];
                let (mi, path) = ch.of(&paths);
                let depth = match ch.pick(76) {
                    d if d < 64 => d + 1,
                    d => d + 31,
                };
                let around = ch.pick(4);
                // The innermost type.
                let inner_mi = if depth % path.len() == 0 {
                    *mi
                } else {
                    path[depth % path.len() - 1].1
                };
                let core = &lists[inner_mi].2;
                let picks = if th && !sel.heavy { core.len() } else { 12.min(core.len()) };
                let i = ch.pick(picks);
                let mut b = core[i * (core.len() / picks)].clone();
                for level in (0..depth).rev() {
                    let (num, _) = path[level % path.len()];
                    let outer_mi = if level % path.len() == 0 {
                        *mi
                    } else {
                        path[level % path.len() - 1].1
                    };
                    let side = &lists[outer_mi].2;
                    let mut o = vec![];
                    if around & 1 == 1 {
                        o.extend_from_slice(&well(side, level));
                    }
                    o.extend_from_slice(&rec_ld(num, &b));
                    if around & 2 == 2 {
                        o.extend_from_slice(&well(side, level + 1));
                    }
                    b = o;
                }
                body(c, *mi, &b, st)
            },
        );
    }

    if sel.sweeps {
        let values = varint_values();
        r.space(
            "varints",
            0,
            "each varint field kind, as singular, expanded and packed element and unknown, x all values within 3 of a power of two up to 2^70, sign-extended negatives, bit patterns x padding to 0 to 10 bytes",
            |ch, st| {
                let form = ch.pick(5);
                let kinds = [3u64, 4, 5, 6, 7, 8, 13, 16];
                let (mi, num) = match form {
                    0 => (A, *ch.of(&kinds)),
                    1 => (REP, *ch.of(&kinds)),
                    2 => (REP, *ch.of(&kinds)),
                    3 => (OPT, *ch.of(&kinds)),
                    _ => (N, *ch.of(&[7, 2, 6, 1 << 20])),
                };
                let v = *ch.of(&values);
                let pad = ch.pick(11);
                let p = varint_padded(v, pad);
                let b = if form == 2 {
                    let mut body = varint(3);
                    body.extend_from_slice(&p);
                    body.extend_from_slice(&varint(128));
                    rec_ld(num, &body)
                } else {
                    let mut b = rec(num, 0, &p);
                    b.extend_from_slice(&[0x08, 0x07]);
                    b
                };
                body(c, mi, &b, st)
            },
        );
        r.space(
            "varints-small",
            0,
            "each varint field kind, singular and packed, x all values below 2^16 (2^21 thorough), and the same subtracted from 2^64",
            |ch, st| {
                let mi = *ch.of(&[A, REP]);
                let num = *ch.of(&[3u64, 4, 5, 6, 7, 8, 13, 16]);
                let high = ch.pick(256) as u128;
                let neg = ch.flag();
                for i in 0..(if th && !sel.heavy { 8192 } else { 256 }) {
                    let v = i * 256 + high;
                    let v = if neg { (1u128 << 64) - 1 - v } else { v };
                    let b = if mi == A {
                        rec(num, 0, &varint(v))
                    } else {
                        rec_ld(num, &varint(v))
                    };
                    body(c, mi, &b, st)?;
                }
                Ok(())
            },
        );
        r.space(
            "fixed",
            0,
            "each fixed-width kind, singular, packed and unknown, x all values with one or two non-zero bytes (and the complements)",
            |ch, st| {
                let (mi, num) = *ch.of(&[
                    (A, 1u64), (A, 2), (A, 9), (A, 10), (A, 11), (A, 12),
                    (REP, 1), (REP, 2), (REP, 9), (REP, 10), (REP, 11), (REP, 12),
                    (N, 50), (N, 51),
                ]);
                let n = if matches!(num, 1 | 10 | 12 | 50) { 8 } else { 4 };
                let hi = ch.pick(n);
                let lo = ch.pick(hi + 1);
                let x = ch.pick(256) as u8;
                let inv = ch.flag();
                let packed = mi == REP && ch.flag();
                let step = if sel.heavy && !th { 17 } else { 1 };
                for y in (0..256).step_by(step) {
                    let mut v = vec![0u8; n];
                    v[lo] = y as u8;
                    v[hi] = x;
                    if inv {
                        for b in v.iter_mut() {
                            *b = !*b;
                        }
                    }
                    let b = if packed {
                        let mut two = v.clone();
                        two.extend_from_slice(&v);
                        rec_ld(num, &two)
                    } else {
                        rec(num, if n == 8 { 1 } else { 5 }, &v)
                    };
                    body(c, mi, &b, st)?;
                    if lo == hi {
                        break;
                    }
                }
                Ok(())
            },
        );
        let crit: [u8; 24] = [
            0x00, 0x09, 0x20, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbb, 0xbf, 0xc0, 0xc2, 0xdf,
            0xe0, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xfe, 0xff,
        ];
        r.space(
            "text",
            0,
            "a string, repeated string, map key and bytes field x every content of up to 2 bytes and of up to 4 out of 24 bytes that matter to UTF-8 (well-formed or not), bare and between letters",
            |ch, st| {
                let (mi, num) = *ch.of(&[(A, 14u64), (REP, 14), (B, 11), (A, 15)]);
                let len = ch.pick(5);
                let mut t = vec![];
                let last = if len > 2 { len - 1 } else { len.min(1) };
                for _ in 0..last {
                    t.push(if len <= 2 { ch.pick(256) as u8 } else { *ch.of(&crit) });
                }
                // The last byte in a loop.
                let all: Vec<u8> = match len {
                    0 | 1 => vec![0],
                    2 => (0..=255).collect(),
                    _ => crit.to_vec(),
                };
                let around = ch.flag();
                for x in all {
                    let mut c1 = t.clone();
                    if len > 1 {
                        c1.push(x);
                    }
                    if around {
                        c1 = [b"a", &c1[..], b"b"].concat();
                    }
                    let mut b = if mi == B {
                        rec_ld(num, &[rec_ld(1, &c1), rec(2, 0, &[1])].concat())
                    } else {
                        rec_ld(num, &c1)
                    };
                    b.extend_from_slice(&[0x18, 0x2a]);
                    body(c, mi, &b, st)?;
                }
                Ok(())
            },
        );
        r.space(
            "unicode",
            0,
            "every Unicode character in a string field, once and three times",
            |ch, st| {
                let high = ch.pick(if th && !sel.heavy { 4352 } else { 1088 }) as u32;
                let times = *ch.of(&[1usize, 3]);
                let (step, off) = if th && !sel.heavy { (256, high) } else { (1024, high) };
                for i in 0..step {
                    let x = match char::from_u32(off * step + i) {
                        Some(x) => x,
                        None => continue,
                    };
                    if sel.heavy && i % 16 != 0 {
                        continue;
                    }
                    let t = x.to_string().repeat(times);
                    let mut b = rec_ld(14, t.as_bytes());
                    b.extend_from_slice(&[0x18, 0x2a]);
                    body(c, A, &b, st)?;
                }
                Ok(())
            },
        );
        let mut lens: Vec<usize> = (0..=600).collect();
        for k in [10, 11, 12, 13, 14, 15, 16, 20, 21, 22] {
            for d in -2i64..=2 {
                lens.push(((1i64 << k) + d) as usize);
            }
        }
        if !th {
            lens.retain(|l| *l < 1 << 17);
        }
        let forms: Vec<(usize, u64)> = vec![
            (A, 14),
            (A, 15),
            (A, 17),
            (N, 99),
            (REP, 1),
            (REP, 2),
            (REP, 3),
            (REP, 8),
            (REP, 13),
            (REP, 9),
            (B, 7),
            (B, 9),
            (B, 11),
            (A, 3),
            (BIG, 16),
        ];
        r.space(
            "lengths",
            0,
            "each length-delimited form (string, bytes, message, packed arrays, map entry, unknown, wrong wire type) x every data length 0 to 600 and within 2 of 2^10..2^22 x length padded to 0, 2, 5, 10 bytes, followed by a record",
            |ch, st| {
                let (mi, num) = *ch.of(&forms);
                let len = *ch.of(&lens);
                let pad = *ch.of(&[0usize, 2, 5, 10]);
                if pad > 0 && len > 300 && pad != 5 {
                    return Ok(());
                }
                let mut data = vec![0x01; len];
                if (mi, num) == (A, 17) || (mi, num) == (B, 11) {
                    // Records of 2 bytes and 3 bytes.
                    data = [0x08, 0x05].iter().cycle().take(len / 2 * 2).cloned().collect();
                    if len % 2 == 1 && len >= 3 {
                        data.truncate(len - 3);
                        data.extend_from_slice(&[0x08, 0x80, 0x01]);
                    }
                }
                let mut b = tag(num, 2);
                b.extend_from_slice(&varint_padded(data.len() as u128, pad));
                b.extend_from_slice(&data);
                b.extend_from_slice(&[0x08, 0x2a]);
                body(c, mi, &b, st)
            },
        );
        r.space(
            "tags",
            0,
            "every field number up to 70000 and within 2 of a power of two up to 2^61 x wire types 0 to 7 x tag padded to 0, 5, 10 bytes, for messages where the number is and is not declared",
            |ch, st| {
                let mi = *ch.of(&[BIG, A, N]);
                let wt = ch.pick(8) as u8;
                let pad = *ch.of(&[0usize, 5, 10]);
                let group = ch.pick(80);
                let nums: Vec<u64> = if group < 70 {
                    let s = group as u64 * 1000;
                    (s..s + 1000).collect()
                } else {
                    (0..62u64)
                        .filter(|k| k % 10 == group as u64 - 70)
                        .flat_map(|k| (0..5u64).map(move |d| ((1u64 << k) + d).saturating_sub(2)))
                        .filter(|n| *n < 1 << 61)
                        .collect()
                };
                for num in nums {
                    let mut b = varint_padded(num as u128 * 8 + wt as u128, pad);
                    match wt {
                        0 => b.extend_from_slice(&[0xac, 0x02]),
                        1 => b.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]),
                        2 => b.extend_from_slice(&[2, 0x08, 0x01]),
                        5 => b.extend_from_slice(&[1, 2, 3, 4]),
                        _ => {}
                    }
                    b.extend_from_slice(&[0x08, 0x2a]);
                    if sel.heavy && num % 16 > 2 {
                        continue;
                    }
                    body(c, mi, &b, st)?;
                }
                Ok(())
            },
        );
    }

    if sel.damage {
        let bases = damage_bases(c, th && !sel.heavy);
        r.space(
            "damage",
            0,
            &format!("{} payloads of up to three records at nesting levels 0 to 3 with records around them x every position x every replacement byte, deletion, insertion of a critical byte, or end of data there", bases.len()),
            |ch, st| {
                let (mi, base) = ch.of(&bases);
                let pos = ch.pick(base.len() + 1);
                let mut b = base.clone();
                // Replacements first: the loop is over the 256 bytes.
                if pos < base.len() {
                    for x in 0..=255u8 {
                        b[pos] = x;
                        body(c, *mi, &b, st)?;
                    }
                    b[pos] = base[pos];
                    let mut d = base.clone();
                    d.remove(pos);
                    body(c, *mi, &d, st)?;
                }
                for x in [0x00, 0x01, 0x08, 0x0b, 0x12, 0x7f, 0x80, 0xff] {
                    let mut d = base.clone();
                    d.insert(pos, x);
                    body(c, *mi, &d, st)?;
                }
                body(c, *mi, &b[..pos], st)
            },
        );
        r.space(
            "packed-damage",
            0,
            "packed arrays of each element type with 0 to 20 and up to 1000 elements, declared packed or not, as field of the message or of an embedded one, ending in the first bytes of an element or an endless varint, followed by records",
            |ch, st| {
                let mi = *ch.of(&[REP, REPF]);
                let num = *ch.of(&[1u64, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]);
                let n = *ch.of(&[
                    0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31,
                    32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000,
                ]);
                let kind = SCALARS[num as usize - 1];
                let mut p = vec![];
                for i in 0..n {
                    match kind.wire() {
                        0 if num == 13 => p.push(i as u8 % 2),
                        0 => p.extend(varint(i as u128 * 77)),
                        1 => p.extend_from_slice(&(i as u64 * 77).to_le_bytes()),
                        _ => p.extend_from_slice(&(i as u32 * 77).to_le_bytes()),
                    }
                }
                let tail = ch.pick(11);
                match kind.wire() {
                    0 if tail < 10 => p.extend(vec![0x80; tail]),
                    0 => p.extend(vec![0xff; 12]),
                    1 if tail >= 8 => return Ok(()),
                    5 if tail >= 4 => return Ok(()),
                    _ => p.extend(vec![1; tail]),
                }
                let mut b = rec_ld(num, &p);
                b.extend_from_slice(&rec_ld(14, b"next"));
                if ch.flag() {
                    b = [rec_ld(18, &b), rec_ld(14, b"last")].concat();
                }
                body(c, mi, &b, st)
            },
        );
        r.space(
            "damage-2",
            0,
            "pairs of damaged bytes: every two positions of the shorter payloads x 9 critical replacement bytes each",
            |ch, st| {
                let (mi, base) = ch.of(&bases);
                if base.len() > if th { 40 } else { 24 } {
                    return Ok(());
                }
                let crit = [0x00u8, 0x01, 0x02, 0x03, 0x7f, 0x80, 0xff, 0x0b, 0x22];
                let p = ch.pick(base.len());
                let mut b = base.clone();
                for q in p + 1..base.len() {
                    for x in crit {
                        for y in crit {
                            b[p] = x;
                            b[q] = y;
                            body(c, *mi, &b, st)?;
                        }
                    }
                    b[q] = base[q];
                }
                Ok(())
            },
        );
    }
}

fn well(list: &[Vec<u8>], i: usize) -> Vec<u8>
{
    // A short record.
    let short: Vec<&Vec<u8>> = list.iter().filter(|t| t.len() < 6 && t.len() > 1).collect();
    short[(i * 5) % short.len().min(12)].clone()
}

/// Well-formed payloads to damage.
pub fn damage_bases(_c: &Compiled, more: bool) -> Vec<(usize, Vec<u8>)>
{
    let mut out = vec![];
    let cat = |parts: &[Vec<u8>]| parts.concat();
    let scal = rec(1, 0, &varint(300));
    let str_ = rec_ld(2, b"str");
    let pack = rec_ld(3, &[1, 2, 0xac, 0x02]);
    let fix = rec(6, 1, &[1, 2, 3, 4, 5, 6, 7, 8]);
    let n_all = cat(&[scal.clone(), str_.clone(), pack.clone(), fix.clone()]);
    out.push((N, n_all.clone()));
    out.push((N, cat(&[rec_ld(4, &n_all), scal.clone()])));
    out.push((
        N,
        cat(&[
            scal.clone(),
            rec_ld(4, &cat(&[rec_ld(4, &n_all), str_.clone()])),
            pack.clone(),
        ]),
    ));
    out.push((
        N,
        cat(&[
            rec_ld(4, &cat(&[rec_ld(4, &rec_ld(4, &scal)), fix.clone()])),
            scal.clone(),
        ]),
    ));
    // B: every form.
    let b_forms: Vec<Vec<u8>> = vec![
        rec(1, 0, &varint(2)),
        rec_ld(2, &scal),
        rec_ld(3, &rec(10, 0, &[5])),
        rec_ld(4, &[1, 0xac, 0x02, 3]),
        rec(4, 0, &[7]),
        rec_ld(5, &[1, 0, 1]),
        rec_ld(6, &[1, 2, 3, 4, 5, 6, 7, 8]),
        rec(6, 5, &[9, 8, 7, 6]),
        rec_ld(7, b"abc"),
        rec_ld(8, &n_all),
        rec(9, 0, &[3]),
        rec_ld(9, &[1, 2]),
        rec(10, 0, &varint(1 << 31)),
        rec_ld(11, &cat(&[rec_ld(1, b"k"), rec(2, 0, &[9])])),
        rec(12, 0, &[1]),
        rec_ld(13, &str_),
        rec_ld(14, &[0; 16]),
        rec(14, 1, &[1; 8]),
        rec_ld(15, &[1, 2, 3]),
        rec(20, 0, &[0x80, 0x01]),
        rec(20, 1, &[1; 8]),
        rec_ld(20, &[1, 2, 3]),
        rec(20, 5, &[1; 4]),
        rec_ld(1, &[1, 2]),
        rec(7, 0, &[4]),
    ];
    for (i, a) in b_forms.iter().enumerate() {
        let next = &b_forms[(i + 7) % b_forms.len()];
        out.push((B, cat(&[a.clone(), next.clone()])));
        out.push((
            B,
            cat(&[rec_ld(3, &cat(&[a.clone(), rec(12, 0, &[2])])), next.clone()]),
        ));
        if more {
            for b in &b_forms {
                out.push((B, cat(&[a.clone(), b.clone(), rec(12, 0, &[2])])));
                out.push((
                    B,
                    cat(&[
                        rec_ld(3, &rec_ld(3, &cat(&[a.clone(), b.clone()]))),
                        rec(12, 0, &[2]),
                    ]),
                ));
            }
        }
    }
    // A: scalars.
    for i in 1..=15u64 {
        let k = SCALARS[i as usize - 1];
        let v = match k.wire() {
            0 => rec(i, 0, &varint(1 << 35)),
            1 => rec(i, 1, &fixed_values(8)[2]),
            5 => rec(i, 5, &fixed_values(4)[2]),
            _ => rec_ld(i, b"xy"),
        };
        out.push((A, cat(&[v.clone(), rec(3, 0, &[1])])));
        out.push((A, cat(&[rec_ld(18, &v), rec(13, 0, &[1])])));
        let e = match k.wire() {
            0 => varint(1 << 35),
            1 => fixed_values(8)[2].clone(),
            5 => fixed_values(4)[2].clone(),
            _ => continue,
        };
        out.push((REP, cat(&[rec_ld(i, &[e.clone(), e].concat()), rec(3, 0, &[1])])));
    }
    out
}
