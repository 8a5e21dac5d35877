//! D09: decoding and encoding take time in proportion to the payload.
//!
//! Time is what the processor spends on the calling thread, the least of several measurements. What
//! a record costs in a payload of many is compared with what it costs in a payload of few: the
//! payloads differ so much in size that a cost that grows with the number of records stands out
//! from anything that the machine may do to the measurement.

use crate::engine::*;
use crate::model::*;
use crate::payload::*;
use crate::wire::*;

/// The large payload has this many times the parts of the small one.
const TIMES: usize = 64;
/// Each part may cost this many times as much there, and nanoseconds.
const SLACK: (u64, u64) = (8, 20);

fn thread_time() -> u64
{
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

/// Keeps memory with the process, so that large blocks cost no more than small ones.
fn keep_memory()
{
    extern "C" {
        fn mallopt(param: i32, value: i32) -> i32;
    }
    unsafe {
        // M_MMAP_THRESHOLD, M_TRIM_THRESHOLD, M_TOP_PAD
        mallopt(-3, 1 << 30);
        mallopt(-1, i32::MAX);
        mallopt(-2, 64 << 20);
    }
}

/// Nanoseconds of decoding and of encoding; the least of some rounds.
fn cost(c: &Compiled, mi: usize, b: &[u8], rounds: usize, st: &mut St) -> Result<[u64; 2], Viol>
{
    let m = c.ctx.resolve_message(c.mrefs[mi]);
    let mut least = [u64::MAX; 2];
    for _ in 0..rounds {
        let t = thread_time();
        let v = call("decode", || m.decode(b, &c.ctx))?;
        least[0] = least[0].min(thread_time() - t);
        let t = thread_time();
        let e = call("encode", || v.encode(&c.ctx))?;
        least[1] = least[1].min(thread_time() - t);
        st.traces += 2;
        st.steps += (b.len() + e.len()) as u64;
    }
    Ok(least)
}

/// Compares what a part costs in two payloads with numbers of parts.
fn compare(c: &Compiled, mi: usize, few: (&[u8], usize), many: (&[u8], usize), encode: bool, st: &mut St) -> R
{
    let mut least = [[u64::MAX; 2]; 2];
    let what = if encode { &[0, 1][..] } else { &[0] };
    // What is too slow is measured again: nothing but the code is slow all the time.
    for round in 0..12 {
        for (k, (b, n)) in [few, many].into_iter().enumerate() {
            let t = cost(c, mi, b, if k == 0 { 10 } else { 1 + round / 2 }, st)?;
            for i in 0..2 {
                // In picoseconds for each part.
                least[k][i] = least[k][i].min(t[i] * 1000 / n as u64);
            }
        }
        let slow = |i: usize| least[1][i] > SLACK.0 * least[0][i] + SLACK.1 * 1000;
        if what.iter().all(|i| !slow(*i)) {
            if std::env::var_os("MC_SHOW").is_some() && what.iter().any(|&i| least[1][i] > 2 * least[0][i] + 20_000) {
                eprintln!("{:?} {:?} in round {}: {}", least[0], least[1], round, hex(&few.0[..few.0.len().min(40)]));
            }
            return Ok(());
        }
    }
    let i = what.iter().copied().max_by_key(|i| least[1][*i] / (least[0][*i] + 1)).unwrap_or(0);
    fail(format!(
        "{} takes {} ns for each of {} parts of {} bytes, but {} ns for each of {} of {} bytes, as {}: {}",
        ["decoding", "encoding"][i],
        least[0][i] / 1000,
        few.1,
        few.0.len(),
        least[1][i] / 1000,
        many.1,
        many.0.len(),
        c.schema.msgs[mi].name,
        hex(&few.0[..few.0.len().min(60)])
    ))
}

const MESSAGES: [usize; 7] = [A, B, REP, REPF, OPT, N, BIG];

fn nested(mi: usize, mut b: Vec<u8>, depth: usize) -> Vec<u8>
{
    let num = match mi {
        A | REP | OPT => 18,
        B => 3,
        N => 4,
        _ => return b,
    };
    for _ in 0..depth {
        b = rec_ld(num, &b);
    }
    b
}

pub fn d09(r: &mut Runner)
{
    keep_memory();
    if let Some(c) = r.setup("schema", || rich().compile()) {
        growth(r, &c, &compare);
    }
}

/// Compares payloads of few and of many parts; whether to encode as well.
pub type Compare<'a> =
    &'a (dyn Fn(&Compiled, usize, (&[u8], usize), (&[u8], usize), bool, &mut St) -> R + Sync);

/// Pairs of payloads of the same kind with few and with many parts.
pub fn growth(r: &mut Runner, c: &Compiled, compare: Compare)
{
    let pair = |mi: usize, n: usize, make: &dyn Fn(usize) -> Vec<u8>, st: &mut St| {
        compare(c, mi, (&make(n), n), (&make(n * TIMES), n * TIMES), true, st)
    };
    let all: Vec<(usize, Vec<Vec<u8>>)> = MESSAGES
        .iter()
        .map(|mi| (*mi, tokens(c, *mi, true, true, 1).into_iter().filter(|t| !t.is_empty()).collect()))
        .collect();
    let n = r.by(250usize, 2000);
    r.space(
        "growth: records",
        0,
        &format!(
            "every core record of every message type ({}) repeated {} and {} times, alone or in turn with another one, bare and embedded; as one record with that many copies in it",
            all.iter().map(|a| a.1.len().to_string()).collect::<Vec<_>>().join(", "),
            n, TIMES * n
        ),
        |ch, st| {
            let (mi, tokens) = ch.of(&all);
            let i = ch.pick(tokens.len());
            let t = &tokens[i];
            let u = &tokens[tokens.len() / 3];
            let form = ch.pick(3);
            st.state(&(mi, t, form));
            st.outcome("records");
            pair(*mi, n, &|n| {
                let b = match form {
                    0 => t.repeat(n),
                    1 => [&t[..], &u[..]].concat().repeat(n),
                    _ => nested(*mi, t.repeat(n), 3),
                };
                b
            }, st)
        },
    );
    r.space(
        "growth: numbers",
        0,
        "records with as many different field numbers, declared or not, ascending and descending, of each wire type",
        |ch, st| {
            let mi = *ch.of(&MESSAGES);
            let start = *ch.of(&[1u64, 15, 100, 2040, 1 << 27, 1 << 40]);
            let wt = *ch.of(&[0u8, 1, 2, 5]);
            let down = ch.flag();
            st.state(&(mi, start, wt, down));
            st.outcome("numbers");
            pair(mi, n, &|n| {
                let mut b = vec![];
                for i in 0..n as u64 {
                    let num = start + if down { n as u64 - i } else { i };
                    match wt {
                        0 => b.extend(rec(num, 0, &[5])),
                        1 => b.extend(rec(num, 1, &[5; 8])),
                        2 => b.extend(rec_ld(num, &[8, 1])),
                        _ => b.extend(rec(num, 5, &[5; 4])),
                    }
                }
                b
            }, st)
        },
    );
    let size = r.by(2000usize, 20_000);
    r.space(
        "growth: long-fields",
        0,
        &format!("every field of every message type holding {} and {} bytes of each of 6 fill bytes, embedded 0 and 3 deep, complete or followed by the end of the data", size, TIMES * size),
        |ch, st| {
            let mi = *ch.of(&MESSAGES);
            let f = ch.of(&c.schema.msgs[mi].fields);
            let num = match ch.flag() {
                true => f.num,
                false if f.num == 1 => 77,
                false => return Ok(()),
            };
            let fill = *ch.of(&[1u8, 0, 0x0a, 0x7f, 0x80, 0xff]);
            let form = ch.pick(3);
            st.state(&(mi, num, fill, form));
            st.outcome("long field");
            pair(mi, size, &|n| match form {
                0 => rec_ld(num, &vec![fill; n]),
                1 => nested(mi, rec_ld(num, &vec![fill; n]), 3),
                _ => {
                    let mut b = rec_ld(num, &vec![fill; n]);
                    b.pop();
                    b
                }
            }, st)
        },
    );
    let n = r.by(1000usize, 4000);
    r.space(
        "growth: depth",
        0,
        &format!("every core record of every message type, {} times or as one long field, embedded 1 and 64 deep (decoding only)", n),
        |ch, st| {
            let (mi, tokens) = ch.of(&all);
            if *mi == REPF || *mi == BIG {
                return Ok(());
            }
            let t = ch.of(tokens);
            let inner = match ch.pick(4) {
                0 => t.repeat(n),
                // An undeclared field, a string, bytes.
                k if t == &tokens[0] => rec_ld([1000, 14, 15][k - 1], &vec![b'x'; 1000 * n]),
                _ => return Ok(()),
            };
            st.state(&(mi, &inner));
            st.outcome("depth");
            // The parts are the bytes of the outer payload.
            let (a, b) = (nested(*mi, inner.clone(), 1), nested(*mi, inner, 64));
            compare(c, *mi, (&a, n), (&b, n), false, st)
        },
    );
}
