//! P04: layout does not change meaning.

use crate::engine::*;
use crate::ensure;
use crate::model::Kind;
use crate::p02::{enum_of, file, ident, msg, spelled, val};
use crate::schema::*;
use protofish::context::{Constant, Context};

fn s(b: &'static [u8]) -> Constant
{
    Constant::String(b.into())
}

fn f(lab: Lab, ty: Ty, name: &str, n: i64, opts: Vec<Opt>) -> Field
{
    Field {
        lab,
        ty,
        name: name.to_string(),
        num: num(n),
        opts,
    }
}

/// A file with every construct of the language.
pub fn rich() -> File
{
    let other = ("P.Q.Other", false);
    let m = msg(
        "M",
        vec![
            Member::Raw(raw("option deprecated = true;")),
            Member::Field(f(
                Lab::Single,
                Ty::Scalar(Kind::Int32),
                "a",
                1,
                vec![
                    opt("(x.y).z.w", "-12", Constant::Integer(-12)),
                    opt("json_name", "\"a b\"", s(b"a b")),
                    opt("k", "1.5e-3", Constant::Float(1.5e-3)),
                ],
            )),
            Member::Field(f(
                Lab::Repeated,
                Ty::Scalar(Kind::UInt64),
                "b",
                2,
                vec![opt("packed", "false", Constant::Bool(false))],
            )),
            Member::Field(f(
                Lab::Optional,
                to_ref(".P.Q.Other.Inner", "P.Q.Other.Inner", false),
                "c",
                300,
                vec![],
            )),
            Member::Field(f(Lab::Repeated, to_ref("Q.Other", other.0, other.1), "d", 4, vec![])),
            Member::Field(f(Lab::Single, to_ref("E", "P.Q.E", true), "e", 5, vec![opt("x", "y.z.w", ident("y.z.w"))])),
            Member::Oneof(Oneof {
                name: "o".to_string(),
                members: vec![
                    OneofMember::Opt(opt("oo", "'it'", s(b"it"))),
                    OneofMember::Field(f(Lab::Single, Ty::Scalar(Kind::Str), "g", 6, vec![])),
                    OneofMember::Field(f(
                        Lab::Single,
                        to_ref("Other.Inner", "P.Q.Other.Inner", false),
                        "h",
                        7,
                        vec![opt("l", "0", Constant::Integer(0))],
                    )),
                ],
            }),
            Member::Map(Map {
                key: Kind::Str,
                value: to_ref("Q.Other", other.0, other.1),
                name: "mm".to_string(),
                num: num(8),
                opts: vec![opt("dep", "true", Constant::Bool(true))],
            }),
            Member::Raw(raw("reserved 10 to 12, 15, 100 to max;")),
            Member::Raw(raw("reserved \"foo\", 'bar';")),
            Member::Msg(msg(
                "N",
                vec![Member::Enum(enum_of("NE", &[("NZ", 0), ("NM", -1)]))],
            )),
        ],
    );
    let e = Enum {
        name: "E".to_string(),
        members: vec![
            EnumMember::Raw(raw("option allow_alias = true;")),
            val("Z", 0),
            EnumMember::Value {
                name: "Y".to_string(),
                num: num(-7),
                opts: vec![opt("(c)", "- 3", Constant::Integer(-3)), opt("d", "-.5", Constant::Float(-0.5))],
            },
            EnumMember::Raw(raw("reserved 77 to 80;")),
        ],
    };
    let svc = Svc {
        name: "S".to_string(),
        members: vec![
            SvcMember::Opt(opt("(svc.opt)", "\"x\"", s(b"x"))),
            SvcMember::Rpc(Rpc {
                name: "R".to_string(),
                input: arg(true, ".P.Q.M", "P.Q.M"),
                output: arg(false, "Other.Inner", "P.Q.Other.Inner"),
                body: Some(vec![RpcMember::Opt(opt("(a.b).c", "-inf", Constant::Float(f64::NEG_INFINITY)))]),
            }),
            SvcMember::Rpc(Rpc {
                name: "T".to_string(),
                input: arg(false, "M.N", "P.Q.M.N"),
                output: arg(true, "Other", "P.Q.Other"),
                body: None,
            }),
        ],
    };
    File {
        package: Some("P.Q".to_string()),
        package_at: 1,
        items: vec![
            Item::Raw(raw("import public \"x.proto\";")),
            Item::Raw(raw("option (file.opt).x = 5;")),
            Item::Msg(m),
            Item::Enum(e),
            Item::Svc(svc),
            Item::Msg(msg("Other", vec![Member::Msg(msg("Inner", vec![]))])),
        ],
    }
}

/// Smaller files for combinations.
pub fn small() -> Vec<File>
{
    vec![
        file(
            Some("P.Q"),
            vec![
                Item::Msg(msg(
                    "M",
                    vec![
                        Member::Field(f(
                            Lab::Repeated,
                            to_ref("Q.M", "P.Q.M", false),
                            "a",
                            1,
                            vec![opt("(x.y).z", "-2", Constant::Integer(-2))],
                        )),
                        Member::Map(Map {
                            key: Kind::Int32,
                            value: to_ref(".P.Q.M", "P.Q.M", false),
                            name: "m".to_string(),
                            num: num(2),
                            opts: vec![],
                        }),
                        Member::Raw(raw("reserved 5 to max;")),
                    ],
                )),
            ],
        ),
        file(
            None,
            vec![
                Item::Raw(raw("import weak 'y';")),
                Item::Enum(Enum {
                    name: "E".to_string(),
                    members: vec![
                        val("A", 0),
                        EnumMember::Value {
                            name: "B".to_string(),
                            num: num(-1),
                            opts: vec![opt("o", "\"s\"", s(b"s"))],
                        },
                    ],
                }),
                Item::Svc(Svc {
                    name: "S".to_string(),
                    members: vec![SvcMember::Rpc(Rpc {
                        name: "R".to_string(),
                        input: arg(true, ".M.N", "M.N"),
                        output: arg(false, "M", "M"),
                        body: Some(vec![RpcMember::Opt(opt("x", "1.25", Constant::Float(1.25)))]),
                    })],
                }),
                Item::Msg(msg(
                    "M",
                    vec![
                        Member::Oneof(Oneof {
                            name: "o".to_string(),
                            members: vec![OneofMember::Field(f(
                                Lab::Single,
                                Ty::Scalar(Kind::Bool),
                                "b",
                                3,
                                vec![],
                            ))],
                        }),
                        Member::Field(f(Lab::Optional, to_ref("E", "E", true), "e", 4, vec![])),
                        Member::Msg(msg("N", vec![])),
                    ],
                )),
            ],
        ),
    ]
}

const SEPS: &[&str] = &[
    " ",
    "\n",
    "/**/",
    "// \n",
    "\t",
    "\r\n",
    "\r",
    "   \n\n\t ",
    "/* x */",
    " /* ; } ] \" ' // */ ",
    "//\n",
    "//;\"'{/*\n",
    "/***/",
    "/*/*/",
    "/* /* */",
    "/** doc\n * comment\n **/",
    "// \u{e9}\u{1f600}\u{feff}\r\n",
    "/*\u{e9}\u{2028}*/",
    "/* a *//* b */",
    "// a\n// b\n",
    "//\\\n",
    "/*\\*/",
    "/* message X { } */",
    "// message X {\n",
    "\n/*\n*/\n",
];

/// What comments are made of.
const COMMENT_CHARS: &[&str] = &[
    "x", " ", "\r", "\n", "\"", "'", "*", "/", "\\", ";", "{", "}", "\t", "\0", "\x0b", "\x0c",
    "\u{85}", "\u{2028}", "\u{feff}", "\u{1f600}", "=", "[", "\x1a", "?",
];

/// Whether a comment can have this text.
fn comment_text(text: &str, line: bool) -> bool
{
    match line {
        true => !text.contains('\n'),
        false => !text.contains("*/"),
    }
}

fn comment(text: &str, line: bool) -> String
{
    match line {
        true => format!("//{}\n", text),
        false => format!("/*{}*/", text),
    }
}

fn wordlike(c: char) -> bool
{
    c.is_ascii_alphanumeric() || c == '_'
}

/// Whether two tokens stay apart without anything between them.
fn apart(a: &str, b: &str) -> bool
{
    let (x, y) = (a.chars().last().unwrap(), b.chars().next().unwrap());
    !(wordlike(x) && wordlike(y))
        && !(x.is_ascii_digit() && y == '.')
        && !(x == '.' && y.is_ascii_digit())
        && !(x == '/' || y == '/')
        // Adjacent strings would be one value.
        && !((x == '"' || x == '\'') && (y == '"' || y == '\''))
}

struct Base
{
    toks: Toks,
    ctx: Context,
    gaps: Vec<String>,
}

fn base(fl: &File) -> Result<Base, Viol>
{
    let toks = tokens_of(fl);
    let text = toks.text();
    let ctx = conform_text(&[text], &View::of(std::slice::from_ref(fl)))?;
    let gaps = toks
        .v
        .iter()
        .enumerate()
        .map(|(i, t)| {
            if i == 0 || t.tight {
                String::new()
            } else {
                " ".to_string()
            }
        })
        .chain(["\n".to_string()])
        .collect();
    Ok(Base { toks, ctx, gaps })
}

fn assemble(toks: &[Tok], gaps: &[String]) -> String
{
    let mut o = String::new();
    for (t, g) in toks.iter().zip(gaps) {
        o += g;
        o += &t.text;
    }
    o += gaps.last().unwrap();
    o
}

fn same(b: &Base, text: String, st: &mut St) -> R
{
    st.traces += 1;
    st.steps += b.toks.v.len() as u64;
    st.sample(|| text.clone());
    let text = [text];
    match parse(&text)? {
        Err(e) => fail(format!(
            "the layout is rejected: {}\n{}\nwhile this is accepted:\n{}",
            e,
            text[0],
            b.toks.text()
        )),
        Ok(ctx) => {
            st.outcome("equal");
            ensure!(
                ctx == b.ctx,
                "the layout changes the result:\n{}\ncompared with\n{}",
                text[0],
                b.toks.text()
            );
            Ok(())
        }
    }
}

pub fn p04(r: &mut Runner)
{
    let big = match r.setup("rich schema", || base(&rich())) {
        Some(b) => b,
        None => return,
    };
    let smalls = match r.setup("small schemas", || {
        small().iter().map(base).collect::<Result<Vec<_>, _>>()
    }) {
        Some(b) => b,
        None => return,
    };

    let all: Vec<&Base> = std::iter::once(&big).chain(&smalls).collect();
    r.space(
        "gap",
        0,
        &format!("every gap between two tokens (and the ends) of 3 schemas x {} separators, added to or in place of the usual one, or nothing where tokens stay apart", SEPS.len()),
        |ch, st| {
            let b = *ch.of(&all);
            let i = ch.pick(b.gaps.len());
            let mut gaps = b.gaps.clone();
            match ch.pick(2 + SEPS.len()) {
                0 => {
                    if i > 0 && i < b.toks.v.len() && !apart(&b.toks.v[i - 1].text, &b.toks.v[i].text) {
                        return Ok(());
                    }
                    gaps[i] = String::new();
                }
                1 => gaps[i] = format!("{}/*a*/ // b\n{}", gaps[i], gaps[i]),
                k => gaps[i] = SEPS[k - 2].to_string(),
            }
            st.state(&(b.gaps.len(), i));
            same(b, assemble(&b.toks.v, &gaps), st)
        },
    );
    r.space(
        "uniform",
        0,
        "one separator in all gaps of 3 schemas, or in all gaps that need none, or nothing in these",
        |ch, st| {
            let b = *ch.of(&all);
            let sep = *ch.of(SEPS);
            let mode = ch.pick(3);
            let mut gaps = b.gaps.clone();
            for i in 0..gaps.len() {
                let free = i == 0
                    || i == b.toks.v.len()
                    || apart(&b.toks.v[i - 1].text, &b.toks.v[i].text);
                gaps[i] = match (mode, free) {
                    (0, _) | (2, false) => sep.to_string(),
                    (1, true) => sep.to_string(),
                    (1, false) => " ".to_string(),
                    _ => String::new(),
                };
            }
            st.state(&(b.gaps.len(), sep, mode));
            same(b, assemble(&b.toks.v, &gaps), st)
        },
    );
    let pair_seps: &[&str] = r.by(
        &["/**/", "\n", "// x\n", ""][..],
        &["/**/", "\n", "// x\n", "", "\t", "/* \" */", "// '\n", "\r\n", "/*/*/"][..],
    );
    r.space(
        "two-gaps",
        0,
        &format!("every pair of gaps of 2 smaller schemas x {} separators each", pair_seps.len()),
        |ch, st| {
            let b = ch.of(&smalls);
            let n = b.gaps.len();
            let i = ch.pick(n - 1);
            let j = i + 1 + ch.pick(n - 1 - i);
            let mut gaps = b.gaps.clone();
            for k in [i, j] {
                let sep = *ch.of(pair_seps);
                if sep.is_empty()
                    && k > 0
                    && k < b.toks.v.len()
                    && !apart(&b.toks.v[k - 1].text, &b.toks.v[k].text)
                {
                    return Ok(());
                }
                gaps[k] = sep.to_string();
            }
            st.state(&(n, i, j));
            same(b, assemble(&b.toks.v, &gaps), st)
        },
    );
    let long = r.by(3000, 70000);
    r.space(
        "long",
        0,
        &format!("spaces, newlines and comments of up to {} characters in every gap of 2 smaller schemas", long),
        |ch, st| {
            let b = ch.of(&smalls);
            let i = ch.pick(b.gaps.len());
            let n = *ch.of(&[63usize, 64, 255, 256, 1000, long]);
            let mut gaps = b.gaps.clone();
            gaps[i] = match ch.pick(5) {
                0 => " ".repeat(n),
                1 => "\n".repeat(n),
                2 => format!("/*{}*/", "*".repeat(n)),
                3 => format!("//{}\n", "/".repeat(n)),
                _ => "/**/".repeat(n / 4),
            };
            st.state(&(b.gaps.len(), i, n));
            same(b, assemble(&b.toks.v, &gaps), st)
        },
    );
    r.space(
        "start",
        0,
        "every combination of byte order mark, leading separators and final separators (a comment may end the file)",
        |ch, st| {
            let b = *ch.of(&all);
            let bom = ch.flag();
            let lead = ch.pick(SEPS.len() + 1);
            let tail_choices = ["", " ", "// end", "//", "/* end */", "\n\n", "\r\n", "// \u{e9}"];
            let tail = *ch.of(&tail_choices);
            let mut gaps = b.gaps.clone();
            gaps[0] = format!(
                "{}{}",
                if bom { "\u{feff}" } else { "" },
                if lead == 0 { "" } else { SEPS[lead - 1] }
            );
            *gaps.last_mut().unwrap() = tail.to_string();
            st.state(&(bom, lead, tail));
            same(b, assemble(&b.toks.v, &gaps), st)
        },
    );

    let deep = r.by(3, 4);
    r.space(
        "comment-text",
        0,
        &format!(
            "line and block comments of up to {} out of {} characters in 4 gaps, and of up to 2 of them in every gap, of a small schema",
            deep,
            COMMENT_CHARS.len()
        ),
        |ch, st| {
            let b = &smalls[0];
            let n = b.gaps.len();
            let some = [0, n / 3, n / 2, n - 1];
            let (i, max) = match ch.flag() {
                false => (ch.pick(n), 2),
                true => (*ch.of(&some), deep),
            };
            let line = ch.flag();
            let mut text = String::new();
            for _ in 0..ch.pick(max + 1) {
                text += ch.of(COMMENT_CHARS);
            }
            if !comment_text(&text, line) {
                return Ok(());
            }
            st.state(&(i, line, &text));
            let mut gaps = b.gaps.clone();
            gaps[i] = comment(&text, line);
            same(b, assemble(&b.toks.v, &gaps), st)
        },
    );
    let last = r.by(0x2fff, 0x10ffff);
    r.space(
        "comment-characters",
        0,
        &format!("every character up to U+{:X} in a line comment and in a block comment", last),
        |ch, st| {
            let b = &smalls[0];
            let c = match char::from_u32(ch.pick(last as usize + 1) as u32) {
                Some(c) => c,
                None => return Ok(()),
            };
            let line = ch.flag();
            let text = format!(" {} x", c);
            if !comment_text(&text, line) {
                return Ok(());
            }
            st.state(&(c, line));
            let mut gaps = b.gaps.clone();
            let i = gaps.len() / 2;
            gaps[i] = comment(&text, line);
            same(b, assemble(&b.toks.v, &gaps), st)
        },
    );

    let n_empties = r.by(2, 3);
    r.space(
        "empty-statements",
        0,
        &format!("one to three empty statements at every place, and at every pair of places, up to {} places", n_empties),
        |ch, st| {
            let b = if n_empties > 2 && ch.flag() { &big } else { *ch.of(&all) };
            let places = &b.toks.empties;
            let n = 1 + ch.pick(if b.gaps.len() > 200 { 2 } else { n_empties });
            let mut from = 0;
            let mut v: Vec<Tok> = vec![];
            let mut done = 0;
            let mut at = vec![];
            for _ in 0..n {
                if from >= places.len() {
                    break;
                }
                let i = from + ch.pick(places.len() - from);
                from = i + 1;
                at.push(places[i]);
                v.extend_from_slice(&b.toks.v[done..places[i]]);
                done = places[i];
                let count = if n > 1 { 1 } else { 1 + ch.pick(3) };
                for _ in 0..count {
                    v.push(Tok {
                        text: ";".to_string(),
                        kind: TokKind::Other,
                        tight: true,
                    });
                }
            }
            v.extend_from_slice(&b.toks.v[done..]);
            st.state(&(b.gaps.len(), at));
            let t = Toks { v, empties: vec![] };
            same(b, t.text(), st)
        },
    );

    // Quotes and integers.
    r.space(
        "quotes",
        0,
        "every subset of the string literals (and the syntax statement) with the other quote",
        |ch, st| {
            let b = *ch.of(&all);
            let mut t = b.toks.clone();
            let mut which = vec![];
            for tok in &mut t.v {
                let first = tok.text.chars().next().unwrap();
                if (first == '"' || first == '\'') && ch.flag() {
                    let inner = &tok.text[1..tok.text.len() - 1];
                    let q = if first == '"' { '\'' } else { '"' };
                    which.push(tok.text.clone());
                    tok.text = format!("{}{}{}", q, inner, q);
                }
            }
            st.state(&which);
            same(b, t.text(), st)
        },
    );
    let n = r.by(4, 6);
    r.space(
        "quote-text",
        0,
        &format!("strings of up to {} of the characters a, ', \", \\, #, e acute and line feed, each in both quotes with every choice of escaping the quote that needs none", n),
        |ch, st| {
            let chars = ['a', '\'', '"', '\\', '#', '\u{e9}', '\n'];
            let n = ch.pick(n + 1);
            let text: Vec<char> = (0..n).map(|_| *ch.of(&chars)).collect();
            let all: String = text.iter().collect();
            let mut opts = vec![];
            for (k, q) in ['"', '\''].iter().enumerate() {
                let mut lit = q.to_string();
                for c in &text {
                    match c {
                        '\n' => lit += "\\n",
                        '\\' => lit += "\\\\",
                        c if c == q => {
                            lit.push('\\');
                            lit.push(*c);
                        }
                        '\'' | '"' => {
                            if ch.flag() {
                                lit.push('\\');
                            }
                            lit.push(*c);
                        }
                        c => lit.push(*c),
                    }
                }
                lit.push(*q);
                opts.push(Opt {
                    name: ["x", "y"][k].to_string(),
                    toks: vec![["x", "y"][k].to_string()],
                    lit: Lit { toks: vec![lit], val: Constant::String(all.clone().into()) },
                });
            }
            let fl = [file(
                None,
                vec![
                    Item::Msg(msg("M", vec![Member::Field(f(Lab::Single, Ty::Scalar(Kind::Int32), "f", 1, opts))])),
                    Item::Msg(msg("N", vec![])),
                ],
            )];
            st.state(&all);
            st.outcome("text in both quotes");
            st.sample(|| text_of(&fl[0]));
            conform(&fl, st)?;
            Ok(())
        },
    );
    let budget = r.by(2, 3);
    r.space(
        "radix",
        budget,
        &format!("up to {} integer literals of 3 schemas written in 5 other ways (hexadecimal and octal, with leading zeroes)", budget),
        |ch, st| {
            let b = *ch.of(&all);
            let mut t = b.toks.clone();
            for tok in &mut t.v {
                if tok.kind == TokKind::Int {
                    let how = ch.dev(6);
                    let v: i64 = tok.text.parse().unwrap();
                    tok.text = spelled(v, how).toks[0].clone();
                }
            }
            let text = t.text();
            st.state(&text);
            same(b, text, st)
        },
    );

    // Text in strings.
    let contents: Vec<(String, Vec<u8>)> = [
        "//", "/*", "*/", "/* x */", "// x", ";", "}", "{", "]", "[", ")", "(", "=", "'", "message X {}",
        "option", "syntax = \\\"proto2\\\";", "a//b", "http://x.y/z", "/*/", "*", "/", " ", "  a  ",
        "\t", "import", "map<int32,int32>", "\u{e9}", "\u{1f600}", "\u{feff}", "0x10", "-5", "true",
        "", "\\\\", "\\\"", "\\'", "\\n//", "//\\n", "reserved 5;", "\r", "a\\\\", "\\\\\\\"",
    ]
    .iter()
    .map(|x| {
        let mut bytes = vec![];
        let mut esc = false;
        for c in x.chars() {
            let mut buf = [0; 4];
            if esc {
                esc = false;
                if c == 'n' {
                    bytes.push(10);
                } else {
                    bytes.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                }
            } else if c == '\\' {
                esc = true;
            } else {
                bytes.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
            }
        }
        (x.to_string(), bytes)
    })
    .collect();
    r.space(
        "strings",
        0,
        "comment-like, keyword-like and quote-like text in the strings of every kind of statement, alone and in pairs",
        |ch, st| {
            let (x, xv) = ch.of(&contents);
            let (y, yv) = ch.of(&contents);
            let place = ch.pick(7);
            let quote = *ch.of(&['"', '\'']);
            let lit = |x: &str| -> Option<String> {
                if x.contains(quote) && !x.contains(&format!("\\{}", quote)) {
                    return None;
                }
                if quote == '\'' && x.replace("\\'", "").contains('\'') {
                    return None;
                }
                Some(format!("{}{}{}", quote, x, quote))
            };
            let (a, b) = match (lit(x), lit(y)) {
                (Some(a), Some(b)) => (a, b),
                _ => return Ok(()),
            };
            let o = |name: &str, text: &str, v: &[u8]| Opt {
                name: name.to_string(),
                toks: vec![name.to_string()],
                lit: Lit {
                    toks: vec![text.to_string()],
                    val: Constant::String(v.to_vec().into()),
                },
            };
            let (o1, o2) = (o("first", &a, xv), o("second", &b, yv));
            let raw_opt = |name: &str, v: &str| -> Raw {
                vec!["option".to_string(), name.to_string(), "=".to_string(), v.to_string(), ";".to_string()]
            };
            let m = |members: Vec<Member>| Item::Msg(msg("M", members));
            let field = |opts: Vec<Opt>, n: i64| {
                Member::Field(f(Lab::Single, Ty::Scalar(Kind::Int32), &format!("f{}", n), n, opts))
            };
            let items = match place {
                0 => vec![
                    Item::Raw(vec!["import".into(), a, ";".into()]),
                    m(vec![field(vec![], 1)]),
                    Item::Raw(raw_opt("x", &b)),
                    Item::Enum(enum_of("E", &[("Z", 0)])),
                ],
                1 => vec![m(vec![field(vec![o1, o2], 1), field(vec![], 2)])],
                2 => vec![m(vec![field(vec![o1], 1), field(vec![o2], 2), field(vec![], 3)])],
                3 => vec![m(vec![
                    Member::Raw(raw_opt("x", &a)),
                    field(vec![], 1),
                    Member::Raw(vec!["reserved".into(), a.clone(), ",".into(), b, ";".into()]),
                    field(vec![], 2),
                ])],
                4 => vec![
                    Item::Enum(Enum {
                        name: "E".to_string(),
                        members: vec![
                            EnumMember::Raw(raw_opt("x", &a)),
                            EnumMember::Value {
                                name: "Z".to_string(),
                                num: num(0),
                                opts: vec![o1],
                            },
                            EnumMember::Value {
                                name: "Y".to_string(),
                                num: num(1),
                                opts: vec![o2],
                            },
                        ],
                    }),
                ],
                5 => vec![m(vec![Member::Oneof(Oneof {
                    name: "o".to_string(),
                    members: vec![
                        OneofMember::Opt(o1),
                        OneofMember::Field(f(Lab::Single, Ty::Scalar(Kind::Int32), "f", 1, vec![o2])),
                    ],
                })])],
                _ => vec![
                    m(vec![]),
                    Item::Svc(Svc {
                        name: "S".to_string(),
                        members: vec![
                            SvcMember::Opt(o1.clone()),
                            SvcMember::Rpc(Rpc {
                                name: "R".to_string(),
                                input: arg(false, "M", "M"),
                                output: arg(true, "M", "M"),
                                body: Some(vec![RpcMember::Opt(o2), RpcMember::Opt(o1)]),
                            }),
                        ],
                    }),
                ],
            };
            let fl = [file(None, items)];
            st.state(&(x, y, place));
            st.outcome("text in strings");
            st.sample(|| text_of(&fl[0]));
            conform(&fl, st)?;
            Ok(())
        },
    );
}
