//! D08: decoding needs memory in proportion to the payload.

use crate::engine::*;
use crate::ensure;
use crate::mem::measure;
use crate::model::*;
use crate::payload::*;
use crate::wire::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;

/// Bytes allocated at once: this many, and this many for each byte of the payload.
const PEAK: (u64, u64) = (1 << 16, 1 << 10);
/// Bytes allocated altogether.
const TOTAL: (u64, u64) = (1 << 18, 1 << 12);

static SHOW: OnceLock<bool> = OnceLock::new();
static MOST_PEAK: AtomicU64 = AtomicU64::new(0);
static MOST_TOTAL: AtomicU64 = AtomicU64::new(0);

fn check(c: &Compiled, mi: usize, b: &[u8], st: &mut St) -> R
{
    let m = c.ctx.resolve_message(c.mrefs[mi]);
    let (r, u) = measure(|| call("decode", || m.decode(b, &c.ctx)));
    st.traces += 1;
    let v = r?;
    st.steps += v.fields.len() as u64;
    let len = b.len() as u64;
    if *SHOW.get_or_init(|| std::env::var_os("MC_SHOW").is_some()) {
        let show = |most: &AtomicU64, x: u64, what: &str| {
            let x = x * 100 / len.max(8);
            if most.fetch_max(x, Relaxed) < x {
                eprintln!("{} {}.{:02} per byte: {}", what, x / 100, x % 100, hex(&b[..b.len().min(40)]));
            }
        };
        show(&MOST_PEAK, u.peak, "peak");
        show(&MOST_TOTAL, u.total, "total");
    }
    ensure!(
        u.peak <= PEAK.0 + PEAK.1 * len,
        "decoding {} bytes as {} holds {} bytes of memory at once: {}",
        len,
        c.schema.msgs[mi].name,
        u.peak,
        hex(&b[..b.len().min(60)])
    );
    ensure!(
        u.total <= TOTAL.0 + TOTAL.1 * len,
        "decoding {} bytes as {} allocates {} bytes in {} steps: {}",
        len,
        c.schema.msgs[mi].name,
        u.total,
        u.calls,
        hex(&b[..b.len().min(60)])
    );
    st.sample(|| format!("{} bytes as {}: {:?}", len, c.schema.msgs[mi].name, u));
    Ok(())
}

const MESSAGES: [usize; 7] = [A, B, REP, REPF, OPT, N, BIG];

pub fn d08(r: &mut Runner)
{
    let c = match r.setup("schema", || rich().compile()) {
        Some(c) => c,
        None => return,
    };

    // Lengths that promise more than there is.
    let lengths: Vec<u128> = {
        let mut v = varint_values();
        v.extend((0..70).map(|i| 3u128 << i).filter(|v| *v < 1 << 70));
        v.sort();
        v.dedup();
        v
    };
    let deep = r.by(2, 4);
    r.space(
        "claims",
        0,
        &format!("every field of every message type and undeclared ones x {} lengths up to 2^70 x up to 24 bytes of contents, embedded 0 to {} deep in messages of true or claimed length", lengths.len(), deep),
        |ch, st| {
            let mi = *ch.of(&MESSAGES);
            let depth = ch.pick(deep + 1);
            // Only B and N lead to everything.
            let inner = if depth == 0 { mi } else { [N, B][mi % 2] };
            if depth > 0 && !matches!(mi, B | N) {
                return Ok(());
            }
            let mut nums: Vec<u64> = c.schema.msgs[inner].fields.iter().map(|f| f.num).collect();
            nums.push(100);
            nums.push(1 << 40);
            let num = *ch.of(&nums);
            let mut claims = lengths.clone();
            claims.push(1 << 127);
            let claim = *ch.of(&claims);
            let mut b = tag(num, 2);
            b.extend(match claim >> 127 {
                0 => varint(claim),
                _ => vec![0xff; 12],
            });
            let n = *ch.of(&[0usize, 1, 4, 24]);
            b.extend(std::iter::repeat(*ch.of(&[0u8, 1, 0xff])).take(n));
            let lie = depth > 0 && ch.flag();
            for level in 0..depth {
                let num = match (inner == N, level == depth - 1, mi == N) {
                    // The last one is decoded as `mi`.
                    (true, true, true) | (true, false, _) => 4,
                    (true, true, false) => 2,
                    (false, true, true) => 5,
                    (false, _, _) => 3,
                };
                let mut w = tag(num, 2);
                match lie {
                    true => w.extend(varint(claim.min(u64::MAX as u128))),
                    false => w.extend(varint(b.len() as u128)),
                }
                w.extend(&b);
                b = w;
            }
            st.state(&(mi, depth, num, claim));
            st.outcome("claim");
            check(&c, mi, &b, st)
        },
    );

    let sel = Sel {
        bytes: true,
        records: true,
        odd: true,
        sweeps: true,
        damage: true,
        heavy: true,
    };
    payloads(r, &c, sel, &|c, mi, b, st| {
        st.outcome("payload");
        check(c, mi, b, st)
    });

    // Growth.
    let sizes: Vec<usize> = r.by(vec![100, 3000, 100_000], vec![100, 1000, 10_000, 100_000, 4_000_000]);
    let all: Vec<(usize, Vec<Vec<u8>>)> = MESSAGES
        .iter()
        .map(|mi| (*mi, tokens(&c, *mi, true, true, 1)))
        .collect();
    r.space(
        "growth",
        0,
        &format!("every core record of every message type ({}) repeated to {:?} bytes, bare, embedded 1 and 90 deep, and with a damaged end", all.iter().map(|a| a.1.len().to_string()).collect::<Vec<_>>().join(", "), sizes),
        |ch, st| {
            let (mi, tokens) = ch.of(&all);
            let t = ch.of(tokens);
            let size = *ch.of(&sizes);
            let end: &[u8] = *ch.of(&[&[][..], &[0x80], &[0x0a, 0xff, 0xff, 0x03], &[0x0f]]);
            let mut b = Vec::with_capacity(size + 64);
            while b.len() < size && !t.is_empty() {
                b.extend_from_slice(t);
            }
            b.extend_from_slice(end);
            st.state(&(mi, t, size));
            st.outcome("growth");
            check(&c, *mi, &b, st)?;
            let num = match *mi {
                A | REP | OPT => 18,
                B => 3,
                N => 4,
                _ => return Ok(()),
            };
            for depth in [1, 90] {
                let mut e = b.clone();
                for _ in 0..depth {
                    e = rec_ld(num, &e);
                }
                check(&c, *mi, &e, st)?;
            }
            Ok(())
        },
    );
    r.space(
        "long-fields",
        0,
        &format!("every field of every message type holding {:?} bytes of each of 8 fill bytes, once and in each of 8 records, embedded 0, 1 and 90 deep", sizes),
        |ch, st| {
            let mi = *ch.of(&MESSAGES);
            let f = ch.of(&c.schema.msgs[mi].fields);
            let num = match ch.flag() {
                true => f.num,
                false => 77,
            };
            let size = *ch.of(&sizes);
            let fill = *ch.of(&[0u8, 1, 8, 0x0a, 0x12, 0x7f, 0x80, 0xff]);
            let n = *ch.of(&[1usize, 8]);
            let one = rec_ld(num, &vec![fill; size / n]);
            let mut b = one.repeat(n);
            let depth = *ch.of(&[0, 1, 90]);
            if depth > 0 {
                let num = match mi {
                    A | REP | OPT => 18,
                    B => 3,
                    N => 4,
                    _ => return Ok(()),
                };
                for _ in 0..depth {
                    b = rec_ld(num, &b);
                }
            }
            st.state(&(mi, num, size, fill));
            st.outcome("long field");
            check(&c, mi, &b, st)
        },
    );
    // What a part needs may not depend on how many there are.
    crate::d09::growth(r, &c, &|c, mi, few, many, _, st| {
        let m = c.ctx.resolve_message(c.mrefs[mi]);
        let mut use_of = |b: &[u8]| {
            let (r, u) = measure(|| call("decode", || m.decode(b, &c.ctx)));
            st.traces += 1;
            st.steps += b.len() as u64;
            r.map(|_| u)
        };
        let (a, b) = (use_of(few.0)?, use_of(many.0)?);
        for (what, a, b) in [("holds at once", a.peak, b.peak), ("allocates", a.total, b.total)] {
            let (a, b) = (a / few.1 as u64, b / many.1 as u64);
            ensure!(
                b <= 4 * a + 64,
                "decoding as {} {} {} bytes for each of {} parts, but {} for each of {}: {}",
                c.schema.msgs[mi].name,
                what,
                a,
                few.1,
                b,
                many.1,
                hex(&few.0[..few.0.len().min(60)])
            );
        }
        Ok(())
    });
    crate::dec::deep(r, &c, &|c, mi, b, st| {
        st.outcome("deep");
        check(c, mi, b, st)
    });
}
