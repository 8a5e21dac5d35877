//! P01: parsing always returns a result.

use crate::engine::*;
use crate::p04::{rich, small};
use crate::schema::*;
use protofish::context::ParseError;
use std::sync::atomic::{AtomicBool, Ordering};

/// Whether to compare with the recogniser of the language.
pub static SYNTAX: AtomicBool = AtomicBool::new(false);

pub const HEAD: &str = "syntax = \"proto3\";\n";

/// Parses the texts; a panic is a violation, and so are an abort or a hang (see the supervisor).
fn total(texts: &[String], st: &mut St) -> R
{
    st.traces += 1;
    if SYNTAX.load(Ordering::Relaxed) {
        return crate::p07::conforms(texts, st);
    }
    match parse(texts) {
        Err(e) => Err(Viol {
            msg: format!("{}\n{}", e.msg, shorten(texts)),
            ..e
        }),
        Ok(Ok(ctx)) => {
            st.outcome("context");
            call("dropping a context", || drop(ctx))
        }
        Ok(Err(e)) => {
            st.outcome(match e {
                ParseError::SyntaxError { .. } => "syntax error",
                ParseError::DuplicateType { .. } => "duplicate type",
                ParseError::TypeNotFound { .. } => "type not found",
                ParseError::InvalidTypeKind { .. } => "wrong kind of type",
                _ => "other error",
            });
            let report = || {
                let mut n = format!("{} {:?} {:#?}", e, e, e).len();
                let mut source = std::error::Error::source(&e);
                while let Some(s) = source {
                    n += format!("{} {:?}", s, s).len();
                    source = s.source();
                }
                n
            };
            match call("reporting an error", report) {
                Ok(_) => Ok(()),
                Err(x) => fail(format!("{}\n{}", x.msg, shorten(texts))),
            }
        }
    }
}

pub fn shorten(texts: &[String]) -> String
{
    let s = show(texts);
    if s.len() <= 2000 {
        return s;
    }
    let cut = |mut i: usize| {
        while !s.is_char_boundary(i) {
            i += 1;
        }
        i
    };
    format!("{}\n[...]\n{}", &s[..cut(1000)], &s[cut(s.len() - 800)..])
}

pub fn one(text: String, st: &mut St) -> R
{
    st.state(&text);
    st.sample(|| text.clone());
    total(&[text], st)
}

/// Contexts in which statements occur, with what comes before and after.
fn frames() -> Vec<(&'static str, String, &'static str)>
{
    let h = |s: &str| format!("{}{}", HEAD, s);
    vec![
        ("file", h(""), "\nmessage A {} enum B { C = 0; } service D {}\n"),
        ("message", h("message A { "), " } enum B { C = 0; } service D {}\n"),
        ("oneof", h("message A { oneof o { "), " } } enum B { C = 0; } service D {}\n"),
        ("enum", h("message A {} service D {} enum B { "), " C = 0; }\n"),
        ("service", h("message A {} enum B { C = 0; } service D { "), " }\n"),
        ("rpc", h("message A {} enum B { C = 0; } service D { rpc R (A) returns (A) { "), " } }\n"),
        ("rpc head", h("message A {} enum B { C = 0; } service D { rpc "), " ; }\n"),
        ("field options", h("message A { int32 a = 1 [ "), " ]; }\n"),
        ("field", h("message A { repeated "), " ; }\n"),
        ("map", h("message A { map "), " ; } enum B { C = 0; } service D {}\n"),
        ("reserved", h("message A { reserved "), " ; }\n"),
        ("option", h("message A {} option "), " ;\n"),
        ("option value", h("message A { oneof o { option (a.b).c = "), " ; } }\n"),
        ("enum value", h("enum B { C = "), " ; }\n"),
        ("package", h("package "), " ; message A {}\n"),
        ("import", h("import "), " ;\n"),
        ("start", String::new(), " message A {}\n"),
    ]
}

const TOKENS: &[&str] = &[
    "A", "B", "D", "a", ".", "..", ";", "{", "}", "[", "]", "(", ")", "<", ">", ",", "=", "-", "+", "0", "1", "-1", "08",
    "0x", "1e", "1.5", "18446744073709551616", "\"s\"", "'", "\"", "\\", "//", "/*", "*/", "\n", "message", "enum",
    "service", "option", "rpc", "returns", "stream", "oneof", "map", "reserved", "to", "max", "repeated", "optional",
    "int32", "string", "true", "inf", "import", "public", "package", "syntax", "\"proto3\"", "\u{e9}", "\0", "\u{feff}",
];

const CHARS: &[char] = &[
    '\0', '\t', '\n', '\r', ' ', '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/', '0', '1', '7',
    '8', '9', ':', ';', '<', '=', '>', '?', '@', 'A', 'E', 'X', 'Z', '[', '\\', ']', '^', '_', '`', 'a', 'b', 'e', 'f',
    'n', 'o', 'x', 'z', '{', '|', '}', '~', '\u{7f}', '\u{80}', '\u{e9}', '\u{4e2d}', '\u{feff}', '\u{1f600}', '\u{10ffff}',
];

pub fn p01(r: &mut Runner)
{
    let frames = frames();
    let len = r.by(3, 4);
    r.space(
        "tokens",
        0,
        &format!(
            "every sequence of up to {} of {} tokens in {} places of a file",
            len,
            TOKENS.len(),
            frames.len()
        ),
        |ch, st| {
            let (_, before, after) = ch.of(&frames);
            let n = ch.pick(len + 1);
            let mut t = before.clone();
            for _ in 0..n {
                t += ch.of(TOKENS);
                t.push(' ');
            }
            t += after;
            one(t, st)
        },
    );

    // The same with few tokens and greater depth.
    let few = [
        "A", ".", ";", "{", "}", "[", "]", "(", ")", ",", "=", "1", "\"s\"", "message", "option", "repeated", "int32",
    ];
    let len = r.by(4, 5);
    r.space(
        "more-tokens",
        0,
        &format!(
            "every sequence of {} of {} tokens in {} places of a file",
            len,
            few.len(),
            frames.len()
        ),
        |ch, st| {
            let (_, before, after) = ch.of(&frames);
            let mut t = before.clone();
            for _ in 0..len {
                t += ch.of(&few);
                t.push(' ');
            }
            t += after;
            one(t, st)
        },
    );

    // Edits of a file with every construct.
    let mut bases: Vec<Vec<String>> = vec![tokens_of(&rich()).v.iter().map(|t| t.text.clone()).collect()];
    for f in small() {
        bases.push(tokens_of(&f).v.iter().map(|t| t.text.clone()).collect());
    }
    let join = |t: &[String]| t.join(" ");
    r.space(
        "token-edits",
        0,
        &format!(
            "every token of 3 files ({} tokens) deleted, repeated, swapped with any of the next three, replaced by or preceded by each of {} tokens; every sequence of up to 12 tokens deleted or repeated",
            bases.iter().map(|b| b.len()).sum::<usize>(),
            TOKENS.len()
        ),
        |ch, st| {
            let b = ch.of(&bases);
            let i = ch.pick(b.len());
            let mut t = b.clone();
            match ch.pick(4) {
                0 => {
                    let j = (i + 1 + ch.pick(3)).min(b.len() - 1);
                    t.swap(i, j);
                }
                1 => t[i] = ch.of(TOKENS).to_string(),
                2 => t.insert(i, ch.of(TOKENS).to_string()),
                _ => {
                    let j = (i + 1 + ch.pick(12)).min(b.len());
                    if ch.flag() {
                        t.drain(i..j);
                    } else {
                        let part = b[i..j].to_vec();
                        t.splice(i..i, part);
                    }
                }
            }
            one(join(&t), st)
        },
    );
    let more = r.thorough();
    let near = r.by(6, 40);
    r.space(
        "token-edits-2",
        0,
        &format!(
            "two edits (deletion, replacement by {} tokens) at most {} tokens apart",
            r.by(11, TOKENS.len()),
            near
        ),
        |ch, st| {
            let with = if more {
                TOKENS
            } else {
                &["A", ".", ";", "{", "}", "(", ")", "=", "1", "\"s\"", "option"]
            };
            let b = ch.of(&bases);
            let i = ch.pick(b.len());
            let j = i + 1 + ch.pick(near);
            if j >= b.len() {
                return Ok(());
            }
            let mut t = b.clone();
            let mut edit = |k: usize| match ch.pick(with.len() + 1) {
                0 => t[k] = String::new(),
                c => t[k] = with[c - 1].to_string(),
            };
            edit(i);
            edit(j);
            one(join(&t), st)
        },
    );

    let texts: Vec<Vec<char>> = std::iter::once(rich())
        .chain(small())
        .map(|f| text_of(&f).chars().collect())
        .collect();
    r.space(
        "truncations",
        0,
        "3 files cut at every character, at the end and at the start, and every range of up to 40 characters cut out",
        |ch, st| {
            let t = ch.of(&texts);
            let i = ch.pick(t.len() + 1);
            let s: String = match ch.pick(3) {
                0 => t[..i].iter().collect(),
                1 => t[i..].iter().collect(),
                _ => {
                    let n = 1 + ch.pick(40);
                    if i + n > t.len() {
                        return Ok(());
                    }
                    t[..i].iter().chain(&t[i + n..]).collect()
                }
            };
            one(s, st)
        },
    );
    r.space(
        "characters",
        0,
        &format!(
            "every character of 3 files ({} characters) replaced by or preceded by each of {} characters (one or two of them)",
            texts.iter().map(|t| t.len()).sum::<usize>(),
            CHARS.len()
        ),
        |ch, st| {
            let t = ch.of(&texts);
            let i = ch.pick(t.len());
            let c = *ch.of(CHARS);
            let mut t = t.clone();
            match ch.pick(3) {
                0 => t[i] = c,
                1 => t.insert(i, c),
                _ => {
                    t.insert(i, c);
                    t.insert(i, c);
                }
            }
            one(t.into_iter().collect(), st)
        },
    );
    if r.thorough() {
        r.space(
            "characters-2",
            0,
            "every pair of adjacent characters of the 3 files replaced by each pair of characters",
            |ch, st| {
                let t = ch.of(&texts);
                let i = ch.pick(t.len() - 1);
                let mut t = t.clone();
                t[i] = *ch.of(CHARS);
                t[i + 1] = *ch.of(CHARS);
                one(t.into_iter().collect(), st)
            },
        );
    }
    let len = r.by(2, 3);
    r.space(
        "short",
        0,
        &format!("every text of up to {} of {} characters, alone and in {} places of a file", len, CHARS.len(), frames.len()),
        |ch, st| {
            let n = ch.pick(len + 1);
            let s: String = (0..n).map(|_| *ch.of(CHARS)).collect();
            let t = match ch.pick(frames.len() + 1) {
                0 => s,
                i => format!("{}{}{}", frames[i - 1].1, s, frames[i - 1].2),
            };
            one(t, st)
        },
    );

    escapes(r, more);
    numbers(r);
    nesting(r);
    references(r);
    surroundings(r, more);
    lists(r, more);
}

fn escapes(r: &mut Runner, more: bool)
{
    let places: Vec<(&str, &str)> = vec![
        ("import ", ";"),
        ("option x = ", ";"),
        ("message M { option x = ", "; }"),
        ("message M { int32 f = 1 [x = ", "]; }"),
        ("message M { oneof o { option x = ", "; } }"),
        ("message M { map<int32, int32> f = 1 [x = ", "]; }"),
        ("message M { reserved ", "; }"),
        ("enum E { A = 0 [x = ", "]; }"),
        ("service S { option x = ", "; }"),
        ("message M {} service S { rpc R (M) returns (M) { option x = ", "; } }"),
    ];
    let followers: &[char] = &['0', '7', '8', 'f', 'F', 'g', 'x', '\\', '"', '\'', ' ', '\n', '\u{e9}', 'u', '{'];
    r.space(
        "escapes",
        0,
        &format!(
            "a backslash and every character below U+0250, followed by up to {} of {} characters, in {} strings, both quotes",
            if more { 3 } else { 2 },
            followers.len(),
            places.len()
        ),
        |ch, st| {
            let c = char::from_u32(ch.pick(0x250) as u32).unwrap();
            let n = ch.pick(if more { 4 } else { 3 });
            let rest: String = (0..n).map(|_| *ch.of(followers)).collect();
            let (a, b) = *ch.of(&places);
            let q = *ch.of(&['"', '\'']);
            one(format!("{}{}{}\\{}{}{}{}\n", HEAD, a, q, c, rest, q, b), st)
        },
    );
    r.space(
        "digits",
        0,
        "every octal escape of up to 4 octal digits and every hexadecimal escape of up to 3 of 8 digits, twice in a string, in each kind of string",
        |ch, st| {
            let mut e = String::from("\\");
            if ch.flag() {
                for _ in 0..1 + ch.pick(4) {
                    e.push(*ch.of(&['0', '1', '2', '3', '4', '5', '6', '7']));
                }
            } else {
                e.push(*ch.of(&['x', 'X']));
                for _ in 0..ch.pick(4) {
                    e.push(*ch.of(&['0', '7', '8', '9', 'a', 'F', 'g', 'G']));
                }
            }
            let (a, b) = *ch.of(&places);
            one(format!("{}{}\"{}{}\"{}\n", HEAD, a, e, e, b), st)
        },
    );
}

fn numbers(r: &mut Runner)
{
    let places: Vec<(&str, &str)> = vec![
        ("message M { int32 f = ", "; }"),
        ("message M { repeated M f = ", " [packed = true]; }"),
        ("message M { oneof o { int32 f = ", "; } }"),
        ("message M { map<int32, M> f = ", "; }"),
        ("message M { reserved ", "; }"),
        ("message M { reserved 1 to ", "; }"),
        ("message M { reserved ", " to max, 7; }"),
        ("enum E { A = ", "; }"),
        ("enum E { A = 0; B = ", " [x = 1]; reserved 4; }"),
        ("enum E { A = 0; reserved ", "; }"),
        ("option x = ", ";"),
        ("message M { option x = ", "; }"),
        ("message M { int32 f = 1 [x = ", "]; }"),
        ("message M { oneof o { option x = ", "; } }"),
        ("enum E { A = 0 [x = ", "]; }"),
        ("enum E { option x = ", "; A = 0; }"),
        ("service S { option x = ", "; }"),
        ("message M {} service S { rpc R (M) returns (M) { option x = ", "; } }"),
    ];
    let digits = ["0", "1", "7", "8", "9", "f", "F"];
    let count = r.by(70, 400);
    r.space(
        "integers",
        0,
        &format!(
            "integers of 1 to {} equal digits and powers of ten, 3 radices, 4 signs, in {} places",
            count,
            places.len()
        ),
        |ch, st| {
            let n = 1 + ch.pick(count);
            let d = ch.pick(digits.len() + 2);
            let body = match d {
                7 => format!("1{}", "0".repeat(n - 1)),
                8 => format!("{}1", "0".repeat(n - 1)),
                d => digits[d].repeat(n),
            };
            let radix = *ch.of(&["", "0", "0x", "0X"]);
            let sign = *ch.of(&["", "-", "+", "--"]);
            let (a, b) = *ch.of(&places);
            one(format!("{}{}{}{}{}{}\n", HEAD, a, sign, radix, body, b), st)
        },
    );
    let parts = ["", "0", "1", "99999999999999999999999999", "123456789012345678901234567890"];
    let exps = [
        "", "e", "e+", "e-", "e0", "e1", "E400", "e-400", "e99999", "e-99999", "e2147483648", "e-2147483649", "e9223372036854775808",
        "e18446744073709551616", "e-99999999999999999999999999", "e99999999999999999999999999", "e1.5", "ee1", "e1e1", "x", "_", "inf", "f", "L",
    ];
    r.space(
        "floats",
        0,
        &format!("floats with 5 integer parts, 5 fractions, 24 exponents of any size (also malformed), 4 signs, in {} places", places.len()),
        |ch, st| {
            let sign = *ch.of(&["", "-", "+", "-+"]);
            let (a, b) = *ch.of(&places);
            let body = match ch.pick(3) {
                0 => ch.of(&["inf", "nan", "infinity", "NaN", "Inf", "inf.0", "nan.x", "infe1", "0inf", ".inf", "inf 1", "true.x", "false1"]).to_string(),
                1 => {
                    let n = *ch.of(&[1usize, 2, 17, 100, 400, 1000, 5000]);
                    let d = *ch.of(&["0", "9", "5"]);
                    match ch.pick(4) {
                        0 => format!("{}.", d.repeat(n)),
                        1 => format!("0.{}", d.repeat(n)),
                        2 => format!(".{}e{}", d.repeat(n), n),
                        _ => format!("{}e-{}", d.repeat(n), n),
                    }
                }
                _ => {
                    let i = *ch.of(&parts);
                    let f = *ch.of(&parts);
                    let e = *ch.of(&exps);
                    if ch.flag() {
                        format!("{}.{}{}", i, f, e)
                    } else {
                        format!("{}{}{}", i, f, e)
                    }
                }
            };
            one(format!("{}{}{}{}{}\n", HEAD, a, sign, body, b), st)
        },
    );
}

/// Repetition and nesting of every bracketing construct, closed and not.
fn nesting(r: &mut Runner)
{
    // before, opening, middle, closing, after
    let shapes: Vec<(&str, &str, &str, &str, &str, &str)> = vec![
        ("messages", "", "message M { ", "", "} ", ""),
        ("messages with fields", "", "message M { int32 a = 1; ", "int32 b = 2;", "M m = 2; } ", ""),
        ("messages in messages", "message A { enum E { X = 0; } ", "message M { oneof o { E a = 1; } ", "", "map<int32, E> b = 3; } ", "}"),
        ("missing type", "", "message M { ", "Missing f = 1;", "} ", ""),
        ("deep reference", "", "message M { ", "M.M f = 1; .M.M g = 2;", "} ", ""),
        ("braces", "", "{ ", "", "} ", ""),
        ("braces in a message", "message M { ", "{ ", "", "} ", "}"),
        ("oneofs", "message M { ", "oneof o { ", "int32 a = 1;", "} ", "}"),
        ("enums", "", "enum E { ", "A = 0;", "} ", ""),
        ("services", "", "service S { ", "", "} ", ""),
        ("rpc bodies", "message M {} service S { rpc R (M) returns (M) ", "{ ", "", "} ", "}"),
        ("parentheses", "option ", "(", "a", ")", " = 1;"),
        ("parentheses of rpcs", "message M {} service S { rpc R ", "(", "M", ")", " returns (M); }"),
        ("brackets", "message M { int32 a = 1 ", "[ ", "x = 1", "] ", "; }"),
        ("bracket groups", "enum E { A = 0 ", "[x = 1] ", "", "", "; }"),
        ("angles", "message M { map ", "<", "int32, int32", ">", " a = 1; }"),
        ("maps", "message M { ", "map<int32, ", "int32", "> ", " a = 1; }"),
        ("comments", "", "/* ", "", "*/ ", ""),
        ("line comments", "", "// ", "", "\n", ""),
        ("slashes", "", "/", "", "*", ""),
        ("dotted package", "package ", "a.", "a", "", ";"),
        ("dotted type", "message M { ", "M.", "M", "", " f = 1; }"),
        ("dotted type from root", "message M { .", "M.", "M", "", " f = 1; }"),
        ("dots", "message M { ", ".", "M", "", " f = 1; }"),
        ("dotted option", "option ", "a.", "a", "", " = 1;"),
        ("dotted extension", "option (", "a.", "a", "", ").b = 1;"),
        ("dotted constant", "option a = ", "b.", "b", "", ";"),
        ("signs", "option a = ", "-", "1", "", ";"),
        ("long name", "message ", "M", "", "", " {}"),
        ("long field name", "message M { int32 ", "f", "", "", " = 1; }"),
        ("long map name", "message M { map<int32, int32> ", "f_", "", "", " = 1; }"),
        ("underscores", "message M { map<int32, int32> f", "_", "", "", " = 1; }"),
        ("long type name", "message M { ", "T", "", "", " f = 1; }"),
        ("string", "option a = \"", "x", "", "", "\";"),
        ("escapes", "option a = \"", "\\n", "", "", "\";"),
        ("octal escapes", "option a = \"", "\\777", "", "", "\";"),
        ("backslashes", "option a = \"", "\\", "", "", "\";"),
        ("quotes", "option a = ", "\"", "", "", ";"),
        ("strings", "option a = ", "\"\"", "", "", ";"),
        ("digits", "option a = ", "1", "", "", ";"),
        ("zeroes", "option a = 0", "0", "", "", ";"),
        ("fraction", "option a = 0.", "0", "1", "", ";"),
        ("exponent", "option a = 1e", "9", "", "", ";"),
        ("empty statements", "", ";", "", "", ""),
        ("empty statements in a message", "message M {", ";", "", "", "}"),
        ("empty statements in an rpc", "message M {} service S { rpc R (M) returns (M) {", ";", "", "", "} }"),
        ("white space", "", " ", "", "", ""),
        ("lines", "message M {", "\r\n", "", "", "}"),
        ("imports", "", "import \"a\";", "", "", ""),
        ("packages", "", "package a;", "", "", ""),
        ("options", "", "option a = 1;", "", "", ""),
        ("option list", "message M { int32 a = 1 [a = 1", ", a = 1", "", "", "]; }"),
        ("reserved ranges", "message M { reserved 1", ", 5 to 7", "", "", "; }"),
        ("reserved names", "message M { reserved \"a\"", ", \"b\"", "", "", "; }"),
        ("fields", "message M { ", "int32 a = 1;", "", "", "}"),
        ("fields of a type", "message M { ", "M a = 1;", "", "", "}"),
        ("oneof fields", "message M { oneof o { ", "int32 a = 1;", "", "", "} }"),
        ("map fields", "message M { ", "map<int32, int32> a = 1;", "", "", "}"),
        ("oneof list", "message M { ", "oneof o { M a = 1; }", "", "", "}"),
        ("enum values", "enum E { ", "A = 0;", "", "", "}"),
        ("rpcs", "message M {} service S { ", "rpc R (M) returns (M);", "", "", "}"),
        ("message list", "", "message M {}", "", "", ""),
        ("enum list", "message M { ", "enum E { A = 0; }", "", "", "}"),
        ("service list", "", "service S {}", "", "", ""),
        ("labels", "message M { ", "repeated ", "int32 a = 1;", "", "}"),
        ("streams", "message M {} service S { rpc R (", "stream ", "M", "", ") returns (M); }"),
        ("byte order marks", "", "\u{feff}", "", "", ""),
    ];
    let mut counts: Vec<usize> = (0..=130).collect();
    counts.extend([150, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000, 3000, 5000, 10000]);
    if r.thorough() {
        counts.extend([20_000, 50_000, 65_535, 65_536, 100_000]);
        counts.extend(131..255);
    }
    r.space(
        "repetition",
        0,
        &format!(
            "{} constructs nested or repeated 0 to 130 and up to {} times; all closed, one missing, one too many, none closed",
            shapes.len(),
            counts.iter().max().unwrap()
        ),
        |ch, st| {
            let (_, before, open, middle, close, after) = *ch.of(&shapes);
            let n = *ch.of(&counts);
            let closing = match ch.pick(if close.is_empty() { 1 } else { 4 }) {
                0 => n,
                1 if n > 0 => n - 1,
                2 => n + 1,
                _ => 0,
            };
            let text = format!(
                "{}{}{}{}{}{}\n",
                HEAD,
                before,
                open.repeat(n),
                middle,
                close.repeat(closing),
                after
            );
            st.state(&(before, open, middle, n, closing));
            st.sample(|| format!("{}({})x{}{}({})x{}{}", before, open, n, middle, close, closing, after));
            total(&[text], st)
        },
    );
}

/// References from every place to every kind of thing, in one or two files.
fn references(r: &mut Runner)
{
    let uses: Vec<(&str, &str)> = vec![
        ("message U { ", " f = 1; }"),
        ("message U { repeated ", " f = 1 [packed = true]; }"),
        ("message U { optional ", " f = 1; }"),
        ("message U { oneof u { int32 i = 2; ", " f = 1; } }"),
        ("message U { map<string, ", "> f = 1; }"),
        ("message U { message V { ", " f = 1; } }"),
        ("message M { message N { message V { ", " f = 1; } } }"),
        ("service U { rpc R (", ") returns (U); } message U {}"),
        ("message U {} service V { rpc R (U) returns (stream ", "); }"),
    ];
    let things = "message M { message N { enum NE { NV = 0; } } enum ME { MV = 0; } int32 fld = 1; oneof oo { int32 of = 2; } map<int32, int32> mp = 3; } enum E { EV = 0; } service S { rpc R (M) returns (M); }";
    let names: Vec<String> = [
        "M", "M.N", "M.N.NE", "M.ME", "E", "S", "S.R", "E.EV", "EV", "M.fld", "fld", "M.oo", "oo", "M.of", "M.mp", "MpEntry",
        "M.MpEntry", "M.MpEntry.key", "R", "p", "p.q", "p.M", "q.M", "p.q.M", "p.q", "p.q.S", "p.q.S.R", "p.q.E", "p.q.E.EV", "U",
        "V", "U.V", "f", "u", "X", "M.X", "X.M", "M.M", "M.N.N", "m", "key", "M.N.NE.NV", "p.p", "p.q.q", "p.q.p.q.M", "int33", "strings",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    let packages = ["", "package p;", "package p.q;", "package q;", "package M;", "package E;", "package S.R;"];
    r.space(
        "references",
        0,
        &format!(
            "{} places that refer to {} names (messages, enums, services, rpcs, fields, oneofs, values, packages, map entries, nothing), with and without leading dot, in the file of the things or another, 7 packages each",
            uses.len(),
            names.len()
        ),
        |ch, st| {
            let (a, b) = *ch.of(&uses);
            let n = ch.of(&names);
            let dot = *ch.of(&["", "."]);
            let pk = *ch.of(&packages);
            let used = format!("{}{}{}{}", a, dot, n, b);
            let texts = match ch.pick(3) {
                0 => vec![format!("{}{}{}\n{}\n", HEAD, pk, things, used)],
                1 => vec![
                    format!("{}{}{}\n", HEAD, pk, things),
                    format!("{}{}{}\n", HEAD, ch.of(&packages), used),
                ],
                _ => vec![
                    format!("{}{}{}\n", HEAD, ch.of(&packages), used),
                    format!("{}{}{}\n", HEAD, pk, things),
                ],
            };
            st.state(&texts);
            st.sample(|| show(&texts));
            total(&texts, st)
        },
    );
    // Invalid schemas that pass the grammar.
    let members = [
        "int32 a = 1;", "int32 a = 2;", "int32 b = 1;", "string b = 0;", "M a = 1;", "N n = 5;", "repeated E a = 2;", "oneof o { int32 a = 1; int32 a = 1; }",
        "oneof o { string b = 1; N c = 2; }", "oneof p { int32 a = 3; }", "oneof o { }", "map<int32, N> a = 1;", "map<string, E> b = 2;", "message N { }", "enum N { X = 0; }",
        "enum E { Z = 0; Z = 1; Y = 0; }", "message E { E e = 1; }", "message AEntry { }", "option a = 1;", "int32 c = 18446744073709551615;",
        "int32 d = 9223372036854775808;", "oneof o { int32 q = 18446744073709551615; }",
    ];
    let len = r.by(3, 4);
    r.space(
        "invalid-messages",
        0,
        &format!("every sequence of up to {} of {} members (duplicate names and numbers, clashing types, missing types, extreme numbers)", len, members.len()),
        |ch, st| {
            let n = ch.pick(len + 1);
            let body: String = (0..n).map(|_| *ch.of(&members)).collect();
            one(format!("{}message M {{ {} }} enum E {{ A = 0; }}\n", HEAD, body), st)
        },
    );
}

/// Errors in lines that hold other things: reports quote the text around the error.
fn surroundings(r: &mut Runner, more: bool)
{
    let errors = [
        "A = 99999999999999999999;", "A = -99999999999999999999;", "A = 0x1ffffffffffffffff;", "A = 1", "= 1;",
        "option a = 18446744073709551616;", "A = 1 [a = -0x8000000000000001];", "reserved ;", "}", "\"", "/*", "",
        "} message M { int32 f = 18446744073709551616;", "} message M { N f = 1;", "} message F {", "} message M { F f = 1; } service S { rpc R (F) returns (M);",
        "} message M { map<M, M> f = 1;", "A = 1 [a = '\\400'", "A = \u{e9}", "\u{1f600}", "\0",
    ];
    let fill = ["x", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{301}", "\t", "\r", "\u{2028}", "\u{feff}"];
    let lens: Vec<usize> = match more {
        true => (0..=260).collect(),
        false => (0..=40).chain([45, 50, 60, 61, 62, 63, 64, 65, 70, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 98, 99, 100, 101, 120, 127, 128, 129, 200, 255, 256, 257]).collect(),
    };
    r.space(
        "surroundings",
        0,
        &format!("{} errors in an enum x a comment or string before or after in the line, or lines before or after x {} lengths x 9 characters of 1 to 4 bytes, once or many times", errors.len(), lens.len()),
        |ch, st| {
            let e = *ch.of(&errors);
            let f = *ch.of(&fill);
            let place = ch.pick(8);
            let many = *ch.of(&[1usize, 50]);
            for n in &lens {
                let text = format!("{}{}", "x".repeat(*n), f.repeat(many));
                let (a, b) = match place {
                    0 => (format!("/*{}*/", text), String::new()),
                    1 => (format!("A = 1 [a = \"{}\"];", text), String::new()),
                    2 => (format!("//{}\n", text), String::new()),
                    3 => (String::new(), format!("/*{}*/", text)),
                    4 => (String::new(), format!("B = 2 [a = \"{}\"];", text)),
                    5 => (String::new(), format!("//{}\n", text)),
                    6 => (String::new(), format!("\n{}", text)),
                    _ => (format!("/*{}*/", text), format!("/*{}*/ //{}\n", text, text)),
                };
                one(format!("{}enum F {{ Z = 0; {}{}{} }}\n", HEAD, a, e, b), st)?;
            }
            Ok(())
        },
    );
}

/// Lists of files.
fn lists(r: &mut Runner, more: bool)
{
    let texts: Vec<String> = [
        "", " ", "syntax", "syntax = \"proto2\";", "syntax = 'proto3';", "syntax = \"proto3'", ";",
        "syntax = \"proto3\"; message A {}", "syntax = \"proto3\"; enum A { X = 0; }", "syntax = \"proto3\"; service A {}",
        "syntax = \"proto3\"; package A; message B {}", "syntax = \"proto3\"; package A; enum B { X = 0; }", "syntax = \"proto3\"; package A; service B {}",
        "syntax = \"proto3\"; package A.B; message C { A a = 1; }", "syntax = \"proto3\"; message A { message B { B b = 1; } }",
        "syntax = \"proto3\"; message C { A.B b = 1; }", "syntax = \"proto3\"; service C { rpc R (A) returns (A.B); }", "syntax = \"proto3\"; message A { map<int32, A> b = 1; message BEntry {} }",
        "syntax = \"proto3\"; message D { A a = 1; C c = 2; }", "\u{feff}syntax = \"proto3\";", "\u{feff}", "not proto", "syntax = \"proto3\"; message A {", "syntax = \"proto3\"; package A; package B; message A {}",
        "syntax = \"proto3\"; package P; message A { .P.A a = 1; }",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    let len = if more { 4 } else { 3 };
    r.space(
        "file-lists",
        0,
        &format!("every list of up to {} of {} texts (valid, invalid, clashing, referring to each other)", len, texts.len()),
        |ch, st| {
            let n = ch.pick(len + 1);
            let list: Vec<String> = (0..n).map(|_| ch.of(&texts).clone()).collect();
            st.state(&list);
            st.sample(|| show(&list));
            total(&list, st)
        },
    );
}
