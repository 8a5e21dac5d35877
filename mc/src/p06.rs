//! P06: options and literals keep their exact values.

use crate::engine::*;
use crate::ensure;
use crate::model::Kind;
use crate::p02::*;
use crate::schema::*;
use protofish::context::Constant;

const POSITIONS: usize = 8;

fn field(name: &str, n: i64, opts: Vec<Opt>) -> Field
{
    Field {
        lab: Lab::Single,
        ty: Ty::Scalar(Kind::Int32),
        name: name.to_string(),
        num: num(n),
        opts,
    }
}

fn raw_opt(o: &Opt) -> Raw
{
    let mut v = vec!["option".to_string()];
    v.extend(o.toks.iter().cloned());
    v.push("=".to_string());
    v.extend(o.lit.toks.iter().cloned());
    v.push(";".to_string());
    v
}

/// A schema that has the options in one position (the last: in all), and marks in the others.
fn holder(pos: usize, opts: &[Opt]) -> File
{
    let mark = |n: &str, v: i64| vec![opt(n, &v.to_string(), Constant::Integer(v))];
    let o = |p: usize| -> Vec<Opt> {
        if p == pos || pos == 7 {
            opts.to_vec()
        } else {
            match p {
                1 => mark("decoy", 41),
                4 => mark("(decoy)", 42),
                6 => mark("decoy", 43),
                _ => vec![],
            }
        }
    };
    let nothing = |n: &str, v: i64| raw_opt(&mark(n, v)[0]);
    let m = msg(
        "M",
        vec![
            Member::Raw(nothing("lost", 51)),
            Member::Field(field("before", 1, vec![])),
            Member::Field(field("at", 2, o(0))),
            Member::Field(field("after", 3, mark("decoy", 44))),
            Member::Oneof(Oneof {
                name: "o".to_string(),
                members: o(2)
                    .into_iter()
                    .map(OneofMember::Opt)
                    .chain(vec![
                        OneofMember::Field(field("in_before", 4, vec![])),
                        OneofMember::Field(field("in", 5, o(1))),
                    ])
                    .collect(),
            }),
            Member::Map(Map {
                key: Kind::Int32,
                value: Ty::Scalar(Kind::Str),
                name: "map_field".to_string(),
                num: num(6),
                opts: o(3),
            }),
            Member::Field(field("last", 7, vec![])),
        ],
    );
    let value = |name: &str, n: i64, opts: Vec<Opt>| EnumMember::Value {
        name: name.to_string(),
        num: num(n),
        opts,
    };
    let e = Enum {
        name: "E".to_string(),
        members: vec![
            EnumMember::Raw(nothing("lost", 52)),
            value("Z", 0, vec![]),
            value("AT", 1, o(4)),
            value("Y", 2, mark("decoy", 45)),
        ],
    };
    let mut s = vec![];
    s.extend(o(5).into_iter().map(SvcMember::Opt));
    s.push(SvcMember::Rpc(rpc("Plain", arg(false, "M", "M"), arg(false, "M", "M"))));
    let mut with = rpc("With", arg(true, "M", "M"), arg(false, "M", "M"));
    with.body = Some(o(6).into_iter().map(RpcMember::Opt).collect());
    s.push(SvcMember::Rpc(with));
    let mut other = rpc("Other", arg(false, "M", "M"), arg(false, "M", "M"));
    other.body = Some(mark("decoy", 46).into_iter().map(RpcMember::Opt).collect());
    s.push(SvcMember::Rpc(other));
    file(
        None,
        vec![
            Item::Raw(nothing("lost", 53)),
            Item::Msg(m),
            Item::Enum(e),
            Item::Svc(Svc {
                name: "S".to_string(),
                members: s,
            }),
            Item::Raw(nothing("lost", 54)),
        ],
    )
}

/// An option whose name and literal are written without further space.
fn written(name: &str, lit: &str, val: Constant) -> Opt
{
    Opt {
        name: name.to_string(),
        toks: vec![name.to_string()],
        lit: Lit {
            toks: vec![lit.to_string()],
            val,
        },
    }
}

fn with_literal(pos: usize, lit: &str, val: Constant, st: &mut St) -> R
{
    conform(&[holder(pos, &[written("x", lit, val)])], st)?;
    Ok(())
}

/// A literal that has no value must not get one.
fn without_value(pos: usize, lit: &str, st: &mut St) -> R
{
    let text = text_of(&holder(pos, &[written("x", lit, Constant::Integer(0))]));
    st.traces += 1;
    if let Ok(_) = parse(&[text.clone()])? {
        return fail(format!("{} has a value\n{}", lit, text));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Reference readers of literals

/// The digits of an integer literal as a number, if it is one (None: it is none; Some(None): too large).
fn read_digits(s: &str) -> Option<Option<u128>>
{
    let (digits, radix) = if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
        (h, 16)
    } else if s.starts_with('0') {
        (s, 8)
    } else {
        (s, 10)
    };
    if digits.is_empty() {
        return None;
    }
    let mut n: Option<u128> = Some(0);
    for c in digits.chars() {
        let d = c.to_digit(16).filter(|d| *d < radix)?;
        n = n
            .and_then(|n| n.checked_mul(radix as u128))
            .and_then(|n| n.checked_add(d as u128));
    }
    Some(n)
}

enum Read
{
    Value(Constant),
    TooLarge,
    Not,
}

fn all_digits(s: &str) -> bool
{
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit())
}

/// decimal*10^exp of a float literal, or inf or nan.
fn read_float(s: &str) -> Option<f64>
{
    if s == "inf" {
        return Some(f64::INFINITY);
    }
    if s == "nan" {
        return Some(f64::NAN);
    }
    let (mantissa, exponent) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let exp: i64 = match exponent {
        None => 0,
        Some(e) => {
            let (neg, d) = match e.as_bytes().first()? {
                b'-' => (true, &e[1..]),
                b'+' => (false, &e[1..]),
                _ => (false, e),
            };
            if !all_digits(d) {
                return None;
            }
            let v: i64 = d.parse().unwrap_or(i64::MAX / 4).min(1_000_000);
            if neg {
                -v
            } else {
                v
            }
        }
    };
    let (int, frac) = match mantissa.find('.') {
        Some(i) => (&mantissa[..i], &mantissa[i + 1..]),
        None => {
            if exponent.is_none() {
                return None;
            }
            (mantissa, "")
        }
    };
    if int.is_empty() && frac.is_empty() {
        return None;
    }
    if !(int.is_empty() || all_digits(int)) || !(frac.is_empty() || all_digits(frac)) {
        return None;
    }
    Some(nearest(&format!("{}{}", int, frac), exp - frac.len() as i64))
}

/// The double nearest to digits*10^exp (ties to even), by exact integer arithmetic.
pub fn nearest(digits: &str, exp: i64) -> f64
{
    let digits = digits.trim_start_matches('0');
    if digits.is_empty() {
        return 0.0;
    }
    // 10^(digits + exp) bounds the value.
    let top = digits.len() as i64 + exp;
    if top > 400 {
        return f64::INFINITY;
    }
    if top < -400 {
        return 0.0;
    }
    let mut n = Big::from_decimal(digits);
    let mut d = Big::one();
    if exp >= 0 {
        n.mul_pow(10, exp as u32);
    } else {
        d.mul_pow(10, (-exp) as u32);
    }
    // Scale so that the quotient has 54 or more bits, with the exponent of its lowest bit in `shift`.
    let mut shift: i64 = n.bits() as i64 - d.bits() as i64 - 56;
    if shift < -1074 - 2 {
        shift = -1074 - 2;
    }
    if shift >= 0 {
        d.shl(shift as u32);
    } else {
        n.shl((-shift) as u32);
    }
    // The quotient has at most 58 bits.
    let (mut q, mut rest) = n.div_small(&d);
    // Round to 53 bits (less for subnormal numbers).
    loop {
        let bits = 64 - q.leading_zeros() as i64;
        if bits > 54 || shift < -1074 - 1 {
            rest |= q & 1 == 1;
            q >>= 1;
            shift += 1;
        } else {
            break;
        }
    }
    // One bit more than the result has.
    let half = q & 1 == 1;
    q >>= 1;
    shift += 1;
    if half && (rest || q & 1 == 1) {
        q += 1;
    }
    if q == 0 {
        return 0.0;
    }
    if q == 1 << 53 {
        q >>= 1;
        shift += 1;
    }
    if q < 1 << 52 {
        // Subnormal.
        assert_eq!(shift, -1074);
        return f64::from_bits(q);
    }
    let e = shift + 52 + 1023;
    if e > 2046 {
        return f64::INFINITY;
    }
    assert!(e >= 1);
    f64::from_bits(((e as u64) << 52) | (q & ((1 << 52) - 1)))
}

/// Natural numbers, lowest limb first.
struct Big(Vec<u32>);

impl Big
{
    fn one() -> Big
    {
        Big(vec![1])
    }

    fn from_decimal(s: &str) -> Big
    {
        let mut b = Big(vec![]);
        for c in s.bytes() {
            b.mul_add(10, (c - b'0') as u32);
        }
        b
    }

    fn mul_add(&mut self, m: u32, a: u32)
    {
        let mut carry = a as u64;
        for x in &mut self.0 {
            let v = *x as u64 * m as u64 + carry;
            *x = v as u32;
            carry = v >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }

    fn mul_pow(&mut self, base: u32, n: u32)
    {
        for _ in 0..n {
            self.mul_add(base, 0);
        }
    }

    fn bits(&self) -> u32
    {
        match self.0.last() {
            Some(x) => self.0.len() as u32 * 32 - x.leading_zeros(),
            None => 0,
        }
    }

    fn shl(&mut self, n: u32)
    {
        for _ in 0..n % 32 {
            self.mul_add(2, 0);
        }
        let mut v = vec![0; (n / 32) as usize];
        v.append(&mut self.0);
        self.0 = v;
    }

    fn cmp(&self, o: &Big) -> std::cmp::Ordering
    {
        self.bits()
            .cmp(&o.bits())
            .then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }

    fn sub(&mut self, o: &Big)
    {
        let mut borrow = 0i64;
        for i in 0..self.0.len() {
            let v = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - borrow;
            borrow = (v < 0) as i64;
            self.0[i] = (v + (borrow << 32)) as u32;
        }
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }

    /// Quotient (below 2^64) and whether there is a rest.
    fn div_small(self, d: &Big) -> (u64, bool)
    {
        let mut q = 0u64;
        let mut n = self;
        for i in (0..62).rev() {
            let mut t = Big(d.0.clone());
            t.shl(i);
            if n.cmp(&t) != std::cmp::Ordering::Less {
                n.sub(&t);
                q |= 1 << i;
            }
        }
        (q, !n.0.is_empty())
    }
}

fn read_constant(s: &str) -> Read
{
    let (sign, rest) = match s.as_bytes().first() {
        Some(b'-') => (Some(true), &s[1..]),
        Some(b'+') => (Some(false), &s[1..]),
        _ => (None, s),
    };
    let neg = sign == Some(true);
    if let Some(n) = read_digits(rest) {
        let limit = i64::MAX as u128 + neg as u128;
        return match n {
            Some(n) if n <= limit => {
                let v = if neg { -(n as i128) } else { n as i128 };
                Read::Value(Constant::Integer(v as i64))
            }
            _ => Read::TooLarge,
        };
    }
    if let Some(f) = read_float(rest) {
        return Read::Value(Constant::Float(if neg { -f } else { f }));
    }
    if sign.is_some() {
        return Read::Not;
    }
    if s == "true" || s == "false" {
        return Read::Value(Constant::Bool(s == "true"));
    }
    let parts: Vec<&str> = s.split('.').collect();
    let word = |p: &&str| {
        p.bytes().next().map_or(false, |c| c.is_ascii_alphabetic())
            && p.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
    };
    if parts.iter().all(|p| word(&p)) {
        if parts.len() > 1 && ["true", "false", "inf", "nan"].contains(&parts[0]) {
            return Read::Not;
        }
        return Read::Value(Constant::Ident(s.to_string()));
    }
    Read::Not
}

/// The bytes of a string literal with its quotes.
fn read_string(s: &[char]) -> Option<Vec<u8>>
{
    let quote = *s.first()?;
    if (quote != '"' && quote != '\'') || s.len() < 2 {
        return None;
    }
    let mut out = vec![];
    let mut i = 1;
    loop {
        let c = *s.get(i)?;
        i += 1;
        if c == quote {
            return if i == s.len() { Some(out) } else { None };
        }
        if c == '\0' || c == '\n' {
            return None;
        }
        if c != '\\' {
            let mut buf = [0; 4];
            out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
            continue;
        }
        let e = *s.get(i)?;
        i += 1;
        match e {
            'x' | 'X' => {
                let a = s.get(i)?.to_digit(16)?;
                let b = s.get(i + 1)?.to_digit(16)?;
                i += 2;
                out.push((a * 16 + b) as u8);
            }
            '0'..='7' => {
                let mut n = e.to_digit(8).unwrap();
                for _ in 0..2 {
                    match s.get(i).and_then(|c| c.to_digit(8)) {
                        Some(d) => n = n * 8 + d,
                        None => break,
                    }
                    i += 1;
                }
                if n > 255 {
                    return None;
                }
                out.push(n as u8);
            }
            'a' => out.push(7),
            'b' => out.push(8),
            't' => out.push(9),
            'n' => out.push(10),
            'v' => out.push(11),
            'f' => out.push(12),
            'r' => out.push(13),
            '\\' | '\'' | '"' => out.push(e as u8),
            _ => return None,
        }
    }
}

fn string_case(pos: usize, text: &str, st: &mut St) -> R
{
    let chars: Vec<char> = text.chars().collect();
    if let Some(bytes) = read_string(&chars) {
        st.state(&bytes);
        st.outcome("string");
        st.sample(|| format!("{} is {:?}", text, bytes));
        with_literal(pos, text, Constant::String(bytes.into()), st)?;
    }
    Ok(())
}

fn constant_case(pos: usize, text: &str, st: &mut St) -> R
{
    match read_constant(text) {
        Read::Value(v) => {
            st.state(&format!("{:?}", v));
            st.outcome(match v {
                Constant::Integer(_) => "integer",
                Constant::Float(_) => "float",
                Constant::Bool(_) => "bool",
                Constant::Ident(_) => "identifier",
                _ => "other",
            });
            st.sample(|| format!("{} is {:?}", text, v));
            with_literal(pos, text, v, st)
        }
        Read::TooLarge => {
            st.outcome("too large an integer");
            without_value(pos, text, st)
        }
        Read::Not => Ok(()),
    }
}

// ---------------------------------------------------------------------------------------------

pub fn p06(r: &mut Runner)
{
    integers(r);
    floats(r);
    short_constants(r);
    idents(r);
    strings(r);
    option_names(r);
    lists(r);
    interleaved(r);
    numbers(r);
}

fn magnitudes() -> Vec<u128>
{
    let mut v = vec![];
    for i in 0..=20u128 {
        v.push(i);
    }
    for bits in 0..70 {
        let p = 1u128 << bits;
        v.extend([p - 1, p, p + 1]);
    }
    let mut p = 1u128;
    for _ in 0..25 {
        v.extend([p - 1, p, p + 1]);
        p *= 10;
    }
    let mut p = 1u128;
    for _ in 0..25 {
        v.extend([p - 1, p, p + 1]);
        p *= 8;
    }
    v.extend([
        0x0123_4567_89ab_cdef,
        0x7edc_ba98_7654_3210,
        0o12345670,
        1234567890123456789,
        9876543210,
        u128::MAX,
    ]);
    v.sort();
    v.dedup();
    v
}

fn write_int(m: u128, how: usize) -> String
{
    match how {
        0 => m.to_string(),
        1 => format!("0x{:x}", m),
        2 => format!("0X{:X}", m),
        3 => format!("0{:o}", m),
        4 => format!("0x{:X}", m),
        5 => format!("0X{:x}", m),
        6 => format!("0x000{:x}", m),
        7 => format!("000{:o}", m),
        8 => format!("0x{:040x}", m),
        _ => format!("0{:050o}", m),
    }
}

fn integers(r: &mut Runner)
{
    let mags = magnitudes();
    r.space(
        "integers",
        0,
        &format!(
            "{} magnitudes (neighbours of the powers of 2, 8 and 10 up to 2^70, beyond 64 bits), 3 signs (with and without space), 10 spellings in 3 radices, every option position",
            mags.len()
        ),
        |ch, st| {
            let m = *ch.of(&mags);
            let sign = *ch.of(&["", "-", "+", "- ", "+ "]);
            let how = ch.pick(10);
            let pos = ch.pick(POSITIONS);
            if m == 0 && how == 0 && sign.is_empty() {
                st.outcome("zero");
            }
            let digits = write_int(m, how);
            // "0" is octal
            match read_digits(&digits) {
                Some(x) if x.map_or(true, |x| x == m) => {}
                _ => panic!("reader of integers"),
            }
            let neg = sign.starts_with('-');
            let limit = i64::MAX as u128 + neg as u128;
            let text = format!("{}{}", sign, digits);
            st.state(&(m, neg));
            if m <= limit {
                let v = if neg { -(m as i128) } else { m as i128 } as i64;
                st.outcome("integer");
                st.sample(|| format!("{} is {}", text, v));
                with_literal(pos, &text, Constant::Integer(v), st)
            } else {
                st.outcome("too large an integer");
                without_value(pos, &text, st)
            }
        },
    );
}

fn floats(r: &mut Runner)
{
    let ints = ["", "0", "1", "9", "00", "10", "07", "08", "123456789", "9007199254740993", "179769313486231570"];
    let fracs = [None, Some(""), Some("0"), Some("5"), Some("1"), Some("25"), Some("001"), Some("12345678901234567890"), Some("0000000000000000000000000000000001")];
    let exps = [
        "", "e0", "E0", "e1", "E5", "e+3", "E+03", "e-3", "E-10", "e00", "e22", "e23", "e290", "e307", "e308", "e309",
        "e-305", "e-308", "e-323", "e-324", "e-325", "e-340", "e9999999999", "e-9999999999",
    ];
    r.space(
        "floats",
        0,
        "11 integer parts, 9 fractions (absent, empty, short, long), 24 exponents up to and beyond the range of double, signs with and without space, every option position; inf and nan",
        |ch, st| {
            let sign = *ch.of(&["", "-", "+", "- ", "+ "]);
            let kind = ch.pick(3);
            let body = match kind {
                0 => "inf".to_string(),
                1 => "nan".to_string(),
                _ => {
                    let i = *ch.of(&ints);
                    let f = *ch.of(&fracs);
                    let e = *ch.of(&exps);
                    match f {
                        Some(f) => format!("{}.{}{}", i, f, e),
                        None => format!("{}{}", i, e),
                    }
                }
            };
            let pos = ch.pick(POSITIONS);
            let v = match read_float(&body) {
                Some(v) => v,
                None => return Ok(()),
            };
            let v = if sign.starts_with('-') { -v } else { v };
            st.state(&v.to_bits());
            st.outcome(if v.is_nan() {
                "nan"
            } else if v.is_infinite() {
                "infinite"
            } else {
                "finite"
            });
            let text = format!("{}{}", sign, body);
            st.sample(|| format!("{} is {:e}", text, v));
            with_literal(pos, &text, Constant::Float(v), st)
        },
    );
}

fn short_constants(r: &mut Runner)
{
    let alphabet: Vec<char> = "0178.eE+-xXaf_".chars().collect();
    let len = r.by(4, 6);
    r.space(
        "short-constants",
        0,
        &format!(
            "every text of up to {} of the characters {} that reads as a number or a name",
            len,
            alphabet.iter().collect::<String>()
        ),
        |ch, st| {
            let n = 1 + ch.pick(len);
            let text: String = (0..n).map(|_| *ch.of(&alphabet)).collect();
            constant_case(0, &text, st)
        },
    );
}

fn idents(r: &mut Runner)
{
    let all = names();
    let some = ["a", "true", "inf", "nan", "falsey", "e1", "to", "option", "x0", "message"];
    r.space(
        "names",
        0,
        &format!("{} names as constants, alone and as any part of a name of two or three parts, every option position", all.len()),
        |ch, st| {
            let n = ch.of(&all);
            let text = match ch.pick(6) {
                0 => n.clone(),
                1 => format!("{}.{}", n, ch.of(&some)),
                2 => format!("{}.{}", ch.of(&some), n),
                3 => format!("{}.{}.{}", ch.of(&some), n, ch.of(&some)),
                4 => format!("{}.b.c", n),
                _ => format!("b.c.{}", n),
            };
            let pos = ch.pick(POSITIONS);
            constant_case(pos, &text, st)
        },
    );
}

fn strings(r: &mut Runner)
{
    // Single elements.
    let mut elements: Vec<String> = vec![];
    for b in 0..256u32 {
        for x in ['x', 'X'] {
            elements.push(format!("\\{}{:02x}", x, b));
            elements.push(format!("\\{}{:02X}", x, b));
        }
        elements.push(format!("\\{:o}", b));
        elements.push(format!("\\{:02o}", b));
        elements.push(format!("\\{:03o}", b));
    }
    for c in "abfnrtv\\'\"".chars() {
        elements.push(format!("\\{}", c));
    }
    for c in 1..0x180u32 {
        elements.push(char::from_u32(c).unwrap().to_string());
    }
    for c in ['\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{301}', '\u{2028}', '\u{85}'] {
        elements.push(c.to_string());
    }
    elements.sort();
    elements.dedup();
    r.space(
        "string-elements",
        0,
        &format!(
            "every escape (all bytes in hexadecimal and octal of 1 to 3 digits, all character escapes) and every character below U+0180 plus the corners of Unicode ({} elements), both quotes, every option position",
            elements.len()
        ),
        |ch, st| {
            let e = ch.of(&elements);
            let q = *ch.of(&['"', '\'']);
            let pos = ch.pick(POSITIONS);
            string_case(pos, &format!("{}{}{}", q, e, q), st)
        },
    );
    let followers: Vec<String> = if r.thorough() {
        elements.clone()
    } else {
        "0 7 8 9 a f g x X n \\\\ \\\" \\' \\n \\0 \\12 \\377 \\x41 \\xfF \u{e9} // /* */ ' \" ; \\\\n \\\\\\\\"
            .split(' ')
            .map(|x| x.to_string())
            .chain(std::iter::once(" ".to_string()))
            .collect()
    };
    r.space(
        "string-pairs",
        0,
        &format!(
            "every element followed by, and after, each of {} others, both quotes",
            followers.len()
        ),
        |ch, st| {
            let e = ch.of(&elements);
            let f = ch.of(&followers);
            let q = *ch.of(&['"', '\'']);
            let (a, b) = if ch.flag() { (f, e) } else { (e, f) };
            string_case(0, &format!("{}{}{}{}", q, a, b, q), st)
        },
    );
    let alphabet: Vec<char> = "\\xX0178abnfA'\"u\u{e9}\u{4e2d};{/* ".chars().collect();
    let len = r.by(4, 5);
    r.space(
        "string-texts",
        0,
        &format!(
            "every string of up to {} of the characters {}, both quotes",
            len,
            alphabet.iter().collect::<String>()
        ),
        |ch, st| {
            let n = ch.pick(len + 1);
            let text: String = (0..n).map(|_| *ch.of(&alphabet)).collect();
            let q = *ch.of(&['"', '\'']);
            string_case(0, &format!("{}{}{}", q, text, q), st)
        },
    );
    let lengths: Vec<usize> = (0..300).chain([1000, 4095, 4096, 4097, 65535, 65536, 100_000]).collect();
    r.space(
        "string-lengths",
        0,
        "strings of 0 to 299 and up to 100000 equal elements (plain, two-byte, escaped in three ways)",
        |ch, st| {
            let n = *ch.of(&lengths);
            let e = *ch.of(&["a", "\u{e9}", "\\n", "\\x41", "\\101"]);
            string_case(ch.pick(POSITIONS), &format!("\"{}\"", e.repeat(n)), st)
        },
    );
}

fn option_names(r: &mut Runner)
{
    let all = names();
    let some = ["b", "option", "true", "x1", "to"];
    r.space(
        "option-names",
        0,
        &format!("{} words in every place of 9 forms of option names, every option position", all.len()),
        |ch, st| {
            let n = ch.of(&all);
            let o = *ch.of(&some);
            let p = if o == "b" { "c" } else { "b" };
            let name = match ch.pick(13) {
                0 => n.clone(),
                1 => format!("({})", n),
                2 => format!("({}.{})", n, o),
                3 => format!("({}.{})", o, n),
                4 => format!("({}.{}.{})", o, n, p),
                5 => format!("({}).{}", n, o),
                6 => format!("({}).{}", o, n),
                7 => format!("({}.{}).{}.{}", n, p, o, p),
                8 => format!("({}.{}).{}.{}", p, o, n, p),
                9 => format!("({}.{}).{}.{}", p, o, p, n),
                10 => format!("{}.{}", n, o),
                11 => format!("{}.{}", o, n),
                _ => format!("{}.{}.{}.{}", o, p, n, p),
            };
            let pos = ch.pick(POSITIONS);
            st.state(&name);
            st.outcome("option name");
            st.sample(|| name.clone());
            // As one word and as separate tokens.
            let mut op = opt(&name, "7", Constant::Integer(7));
            if ch.flag() {
                op.toks = vec![name.clone()];
            }
            conform(&[holder(pos, &[op])], st)?;
            Ok(())
        },
    );
}

/// Options of every kind of constant; the last repeats a name.
fn choices() -> Vec<Opt>
{
    vec![
        opt("a", "1", Constant::Integer(1)),
        opt("(b.c)", "'two'", Constant::String(b"two"[..].into())),
        opt("d", "true", Constant::Bool(true)),
        opt("(e).f", "-.5", Constant::Float(-0.5)),
        opt("g", "h.i", ident("h.i")),
        opt("a", "false", Constant::Bool(false)),
    ]
}

fn lists(r: &mut Runner)
{
    let all = choices();
    let len = r.by(3, 5);
    r.space(
        "lists",
        0,
        &format!("every sequence of up to {} of 6 options, every option position", len),
        |ch, st| {
            let pos = ch.pick(POSITIONS);
            let n = ch.pick(len + 1);
            let opts: Vec<Opt> = (0..n).map(|_| ch.of(&all).clone()).collect();
            st.state(&(pos, opts.iter().map(|o| o.name.clone()).collect::<Vec<_>>()));
            st.outcome(if n == 0 { "no options" } else { "options" });
            let f = holder(pos, &opts);
            st.sample(|| text_of(&f));
            conform(&[f], st)?;
            Ok(())
        },
    );
    r.space(
        "long-lists",
        0,
        "lists of 0 to 70 and up to 1000 options, every option position",
        |ch, st| {
            let lengths: Vec<i64> = (0..=70).chain([100, 127, 128, 129, 255, 256, 257, 1000]).collect();
            let n = *ch.of(&lengths);
            let pos = ch.pick(POSITIONS);
            let opts: Vec<Opt> = (0..n)
                .map(|i| opt(&format!("o{}", i), &i.to_string(), Constant::Integer(i)))
                .collect();
            st.state(&(pos, n));
            st.outcome("options");
            conform(&[holder(pos, &opts)], st)?;
            Ok(())
        },
    );
}

/// Bodies in which options mix with other statements, and owners that follow each other.
fn interleaved(r: &mut Runner)
{
    let len = r.by(5, 7);
    r.space(
        "interleaved",
        0,
        &format!("every body of up to {} statements (options, members with and without options, empty statements) of oneofs, services, rpcs, enums and messages", len),
        |ch, st| {
            let what = ch.pick(5);
            let n = ch.pick(len + 1);
            let kinds: Vec<usize> = (0..n).map(|_| ch.pick(4)).collect();
            let o = |i: usize| opt(&format!("o{}", i), &format!("{}", 100 + i), Constant::Integer(100 + i as i64));
            let empty = || vec![";".to_string()];
            let items = match what {
                0 => {
                    let members = kinds
                        .iter()
                        .enumerate()
                        .map(|(i, k)| {
                            let f = |opts| OneofMember::Field(field(&format!("f{}", i), i as i64 + 1, opts));
                            match k {
                                0 => OneofMember::Opt(o(i)),
                                1 => f(vec![]),
                                2 => f(vec![o(i), o(i + 50)]),
                                _ => OneofMember::Raw(empty()),
                            }
                        })
                        .collect();
                    vec![Item::Msg(msg(
                        "M",
                        vec![
                            Member::Oneof(Oneof { name: "a".to_string(), members }),
                            Member::Oneof(Oneof { name: "b".to_string(), members: vec![OneofMember::Opt(o(99))] }),
                        ],
                    ))]
                }
                1 => {
                    let members = kinds
                        .iter()
                        .enumerate()
                        .map(|(i, k)| {
                            let f = |body| {
                                let mut r = rpc(&format!("R{}", i), arg(false, "M", "M"), arg(true, "M", "M"));
                                r.body = body;
                                SvcMember::Rpc(r)
                            };
                            match k {
                                0 => SvcMember::Opt(o(i)),
                                1 => f(None),
                                2 => f(Some(vec![RpcMember::Opt(o(i)), RpcMember::Opt(o(i + 50))])),
                                _ => SvcMember::Raw(empty()),
                            }
                        })
                        .collect();
                    vec![
                        Item::Msg(msg("M", vec![])),
                        Item::Svc(Svc { name: "S".to_string(), members }),
                        Item::Svc(Svc { name: "T".to_string(), members: vec![SvcMember::Opt(o(99))] }),
                    ]
                }
                2 => {
                    let body = kinds
                        .iter()
                        .enumerate()
                        .map(|(i, k)| match k {
                            0 => RpcMember::Opt(o(i)),
                            1 => RpcMember::Opt(opt("same", "'x'", Constant::String(b"x"[..].into()))),
                            2 => RpcMember::Opt(opt("(p.q).r", "nan", Constant::Float(f64::NAN))),
                            _ => RpcMember::Raw(empty()),
                        })
                        .collect();
                    let mut r1 = rpc("R1", arg(false, "M", "M"), arg(true, "M", "M"));
                    r1.body = Some(body);
                    let r2 = rpc("R2", arg(true, "M", "M"), arg(false, "M", "M"));
                    vec![
                        Item::Msg(msg("M", vec![])),
                        Item::Svc(Svc {
                            name: "S".to_string(),
                            members: vec![SvcMember::Opt(o(98)), SvcMember::Rpc(r1), SvcMember::Rpc(r2), SvcMember::Opt(o(99))],
                        }),
                    ]
                }
                3 => {
                    let members = kinds
                        .iter()
                        .enumerate()
                        .map(|(i, k)| {
                            let v = |opts| EnumMember::Value {
                                name: format!("V{}", i),
                                num: num(i as i64),
                                opts,
                            };
                            match k {
                                0 => EnumMember::Raw(raw_opt(&o(i))),
                                1 => v(vec![]),
                                2 => v(vec![o(i), o(i + 50)]),
                                _ => EnumMember::Raw(empty()),
                            }
                        })
                        .collect();
                    vec![Item::Enum(Enum { name: "E".to_string(), members })]
                }
                _ => {
                    let members = kinds
                        .iter()
                        .enumerate()
                        .map(|(i, k)| match k {
                            0 => Member::Raw(raw_opt(&o(i))),
                            1 => Member::Field(field(&format!("f{}", i), i as i64 + 1, vec![])),
                            2 => Member::Field(field(&format!("f{}", i), i as i64 + 1, vec![o(i), o(i + 50)])),
                            _ => Member::Map(Map {
                                key: Kind::Bool,
                                value: Ty::Scalar(Kind::Double),
                                name: format!("m{}", i),
                                num: num(i as i64 + 1),
                                opts: vec![o(i)],
                            }),
                        })
                        .collect();
                    vec![Item::Msg(msg("M", members))]
                }
            };
            let f = file(None, items);
            st.state(&(what, kinds));
            st.outcome("body");
            st.sample(|| text_of(&f));
            conform(&[f], st)?;
            Ok(())
        },
    );
}

/// Field numbers and enum values.
fn numbers(r: &mut Runner)
{
    let mags = magnitudes();
    r.space(
        "numbers",
        0,
        &format!(
            "{} magnitudes, signs with and without space, 10 spellings as the number of a field, a oneof field or a map field and as an enum value; numbers outside the range of the language are exact or rejected",
            mags.len()
        ),
        |ch, st| {
            let m = *ch.of(&mags);
            let sign = *ch.of(&["", "-", "+", "- ", "+ "]);
            let how = ch.pick(10);
            let what = ch.pick(4);
            let neg = sign.starts_with('-');
            if what < 3 && !sign.is_empty() {
                return Ok(());
            }
            let (exact, valid) = if what < 3 {
                (m > 0 && m <= i64::MAX as u128, m > 0 && m < 1 << 29)
            } else {
                let limit = i64::MAX as u128 + neg as u128;
                (m <= limit, m <= i32::MAX as u128 + neg as u128)
            };
            let valid = valid && !sign.starts_with('+');
            let v = if neg { (m as i128).wrapping_neg() } else { m as i128 } as i64;
            let n = Num {
                toks: vec![format!("{}{}", sign, write_int(m, how))],
                val: v,
            };
            let items = match what {
                0 => vec![Item::Msg(msg("M", vec![Member::Field(Field { num: n, ..field("f", 1, vec![]) })]))],
                1 => vec![Item::Msg(msg(
                    "M",
                    vec![Member::Oneof(Oneof {
                        name: "o".to_string(),
                        members: vec![OneofMember::Field(Field { num: n, ..field("f", 1, vec![]) })],
                    })],
                ))],
                2 => vec![Item::Msg(msg(
                    "M",
                    vec![Member::Map(Map {
                        key: Kind::Int32,
                        value: Ty::Scalar(Kind::Bytes),
                        name: "f".to_string(),
                        num: n,
                        opts: vec![],
                    })],
                ))],
                _ => vec![Item::Enum(Enum {
                    name: "E".to_string(),
                    members: vec![EnumMember::Value { name: "V".to_string(), num: n, opts: vec![] }],
                })],
            };
            let files = [file(None, items)];
            st.state(&(m, neg, what));
            if valid {
                st.outcome("valid number");
                conform(&files, st)?;
                return Ok(());
            }
            if what < 3 && m == 0 {
                // Not a number of a field; P01.
                return Ok(());
            }
            let text = text_of(&files[0]);
            st.traces += 1;
            match parse(&[text.clone()])? {
                Err(_) => {
                    st.outcome("rejected number");
                    Ok(())
                }
                Ok(ctx) => {
                    ensure!(exact || what < 3 && m <= u64::MAX as u128, "a number out of range is accepted\n{}", text);
                    st.outcome("number outside the language");
                    if !exact {
                        let msg = call("lookup", || {
                            ctx.get_message("M").map(|x| x.iter_fields().map(|f| f.number as u128).collect::<Vec<_>>())
                        })?;
                        ensure!(msg == Some(vec![m]), "the field has number {:?}\n{}", msg, text);
                        return Ok(());
                    }
                    check_view(&ctx, &View::of(&files)).map_err(|e| Viol {
                        msg: format!("{}\n{}", e.msg, text),
                        ..e
                    })
                }
            }
        },
    );
}
