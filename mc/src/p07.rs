//! P07: text that is not proto3 is reported, and text that is proto3 is no syntax error.

use crate::engine::*;
use crate::p01::{one, p01, shorten, HEAD, SYNTAX};
use crate::schema::*;
use crate::syntax::*;
use protofish::context::ParseError;
use std::sync::atomic::Ordering;

/// Compares the parser with the recogniser.
pub fn conforms(texts: &[String], st: &mut St) -> R
{
    let v: Vec<Verdict> = texts.iter().map(|t| verdict(t)).collect();
    let want = if v.contains(&Verdict::Invalid) {
        Verdict::Invalid
    } else if v.contains(&Verdict::Open) {
        Verdict::Open
    } else {
        Verdict::Valid
    };
    st.steps += texts.iter().map(|t| t.len() as u64).sum::<u64>();
    let got = parse(texts).map_err(|e| Viol {
        msg: format!("{}\n{}", e.msg, shorten(texts)),
        ..e
    })?;
    st.outcome(match (want, got.is_ok()) {
        (Verdict::Valid, true) => "valid and accepted",
        (Verdict::Valid, false) => "valid, with an error of another kind",
        (Verdict::Invalid, true) => "invalid but accepted",
        (Verdict::Invalid, false) => "invalid and reported",
        (Verdict::Open, true) => "open, accepted",
        (Verdict::Open, false) => "open, rejected",
    });
    match (want, got) {
        (Verdict::Invalid, Ok(_)) => fail(format!("text that is not proto3 is accepted\n{}", shorten(texts))),
        (Verdict::Invalid, Err(ParseError::SyntaxError { .. })) => Ok(()),
        // The files are read before anything else is looked at.
        (Verdict::Invalid, Err(e)) => fail(format!("a syntax error is reported as {:?}\n{}", e, shorten(texts))),
        (Verdict::Valid, Err(ParseError::SyntaxError { source })) => fail(format!(
            "text that is proto3 is reported as a syntax error: {}\n{}",
            source,
            shorten(texts)
        )),
        _ => Ok(()),
    }
}

/// A place in a file: its name, the text before, endings and the tokens.
struct Place
{
    name: &'static str,
    before: &'static str,
    after: &'static [&'static str],
    tokens: &'static [&'static str],
}

const PLACES: &[Place] = &[
    Place {
        name: "start of file",
        before: "",
        after: &["", "message M {}"],
        tokens: &["syntax", "=", "\"proto3\"", "'proto3'", "\"proto2\"", ";", "\u{feff}", "message", "M", "{", "}", "edition", "\"\"", "/*", "*/"],
    },
    Place {
        name: "file",
        before: "syntax = \"proto3\";",
        after: &["", "}"],
        tokens: &[
            "message", "enum", "service", "package", "import", "option", "weak", "public", "a", ".", "=", "1", "\"s\"", ";", "{", "}",
            "(", ")", "rpc", "messagea", "enuma", "packagea", "importpublic",
        ],
    },
    Place {
        name: "message",
        before: "syntax = \"proto3\"; message M {",
        after: &["}", "; }", "= 1; }"],
        tokens: &[
            "int32", "a", ".", "=", "1", ";", "repeated", "optional", "required", "oneof", "map", "<", ">", ",", "{", "}", "option",
            "reserved", "message", "enum", "[", "]", "\"s\"", "enuma", "messagea", "oneofa", "stringa", "repeateda",
        ],
    },
    Place {
        name: "field",
        before: "syntax = \"proto3\"; message M { int32",
        after: &["; }", "}"],
        tokens: &["a", ".", "=", "1", "-", "+", "0x1", "1.5", "[", "]", "(", ")", ",", ";", "\"s\"", "true", "1a", "="],
    },
    Place {
        name: "number",
        before: "syntax = \"proto3\"; message M { int32 a =",
        after: &["; }", "}"],
        tokens: &["1", "-", "+", "0x1", "07", "08", "0x", "1.5", ".5", "1e1", "inf", "a", "[", "]", "x", "=", "\"s\"", "1a", "1 2", ","],
    },
    Place {
        name: "field options",
        before: "syntax = \"proto3\"; message M { int32 a = 1 [",
        after: &["]; }", "; }"],
        tokens: &["a", ".", "=", "1", "-", "(", ")", ",", "[", "]", "\"s\"", "true", "inf", "1.5", "a.b"],
    },
    Place {
        name: "constant",
        before: "syntax = \"proto3\"; option o =",
        after: &[";"],
        tokens: &[
            "1", "-", "+", "1.5", ".5", "1.", "1e5", "0x1", "07", "08", "inf", "nan", "true", "false", "a", ".", "\"s\"", "'s'", "\"\\q\"",
            "\"\n\"", "(", ")", "infx", "truex", "1x",
        ],
    },
    Place {
        name: "oneof",
        before: "syntax = \"proto3\"; message M { oneof o {",
        after: &["}}", "; }}", "= 1; }}"],
        tokens: &["int32", "a", ".", "=", "1", ";", "repeated", "optional", "map", "<", ">", ",", "option", "message", "{", "}", "[", "]", "reserved"],
    },
    Place {
        name: "oneof head",
        before: "syntax = \"proto3\"; message M { oneof",
        after: &["}", "}}"],
        tokens: &["a", ".", "{", "}", "int32 b = 1;", "option x = 1;", ";", "=", "1", "repeated", "map<int32, int32> m = 1;", "message N {}", "reserved 1;"],
    },
    Place {
        name: "map",
        before: "syntax = \"proto3\"; message M { map",
        after: &["m = 1; }", "= 1; }", "; }", "}"],
        tokens: &[
            "<", ">", ",", "int32", "string", "float", "double", "bytes", "a", ".", "repeated", "m", "=", "1", "[", "]", "int32a", ", a >",
            ", map<int32, int32> >", "uint32", "int64", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool",
        ],
    },
    Place {
        name: "reserved",
        before: "syntax = \"proto3\"; message M { reserved",
        after: &["; }", "}"],
        tokens: &["1", "2", "to", "max", ",", "\"s\"", "'s'", "-", "a", ".", "=", ";", "1.5", "to2", "tomax", "1to"],
    },
    Place {
        name: "enum reserved",
        before: "syntax = \"proto3\"; enum E { A = 0; reserved",
        after: &["; }", "}"],
        tokens: &["1", "2", "to", "max", ",", "\"s\"", "-", "+", "a", "=", ";", "to2", "tomax", "[", "]"],
    },
    Place {
        name: "enum",
        before: "syntax = \"proto3\"; enum E {",
        after: &["}", "; }", "B = 0; }"],
        tokens: &["A", "=", "0", "-", "+", ";", "[", "]", ",", "option", "reserved", "\"s\"", "(", ")", ".", "{", "}", "1.5", "optional"],
    },
    Place {
        name: "enum value",
        before: "syntax = \"proto3\"; enum E { A = 0",
        after: &["; }", "}"],
        tokens: &["[", "]", "a", "=", "1", ",", ".", "(", ")", ";", "\"s\"", "-", "{", "}", "[a = 1]", "b"],
    },
    Place {
        name: "service",
        before: "syntax = \"proto3\"; message M {} service S {",
        after: &["}", "; }", "(M) returns (M); }"],
        tokens: &["rpc", "a", "(M)", "returns", "stream", ";", "option", "=", "1", "{", "}", "message", "rpca", "optiona", "int32"],
    },
    Place {
        name: "rpc",
        before: "syntax = \"proto3\"; message M {} service S { rpc R",
        after: &["; }", "}", "{} }"],
        tokens: &["(", ")", "M", ".", "stream", "returns", "{", "}", ";", ",", "option o = 1;", "(M)", "streamM", "returnsx"],
    },
    Place {
        name: "rpc body",
        before: "syntax = \"proto3\"; message M {} service S { rpc R (M) returns (M)",
        after: &["}", "; }", "} }"],
        tokens: &["{", "}", ";", "option", "a", "=", "1", "(", ")", ".", "\"s\"", "rpc", "[", "]"],
    },
    Place {
        name: "option name",
        before: "syntax = \"proto3\"; option",
        after: &["= 1;", ";"],
        tokens: &["a", ".", "(", ")", "=", "1", ";", ",", "\"s\"", "-", "a.b", "[", "]"],
    },
    Place {
        name: "package",
        before: "syntax = \"proto3\"; package",
        after: &[";", ""],
        tokens: &["a", ".", "a.b", ";", "=", "1", "\"s\"", "-", "package", "message", "(", ")"],
    },
    Place {
        name: "import",
        before: "syntax = \"proto3\"; import",
        after: &[";", ""],
        tokens: &["\"s\"", "'s'", "weak", "public", "a", ";", ",", ".", "=", "\"", "'", "weak\"s\""],
    },
];

/// Files with every construct, to be edited.
const FILES: &[&str] = &[
    "syntax = \"proto3\" ; package a . b ; import \"x\" ; import public 'y' ; option o = \"s\" ; ;",
    "syntax = 'proto3' ; message M { int32 a = 1 ; repeated . a . B b = 0x2 [ p = true ] ; optional string c = 3 ; }",
    "syntax = \"proto3\" ; message M { oneof o { option x = 1 ; bool b = 1 ; a . B c = 2 [ d = - 1.5 , ( e . f ) . g = h . i ] ; } }",
    "syntax = \"proto3\" ; message M { map < string , a . B > m = 1 [ x = 1 ] ; message N { enum E { A = 0 ; } } ; }",
    "syntax = \"proto3\" ; message M { reserved 1 , 2 to 3 , 4 to max ; reserved \"a\" , 'b' ; option deprecated = true ; }",
    "syntax = \"proto3\" ; enum E { option allow_alias = true ; A = 0 ; B = - 1 [ x = inf , y = - nan ] ; reserved 2 to max ; reserved \"C\" ; }",
    "syntax = \"proto3\" ; message M { } service S { option x = 1 ; rpc R ( M ) returns ( stream M ) ; rpc T ( stream . M ) returns ( M ) { option y = z ; ; } ; }",
];

const WITH: &[&str] = &[
    ";", "{", "}", "[", "]", "(", ")", "<", ">", ",", "=", "-", "+", ".", "1", "1.5", "\"s\"", "a", "message", "enum", "service", "rpc",
    "returns", "stream", "oneof", "map", "reserved", "to", "max", "repeated", "optional", "required", "option", "package", "import",
    "public", "weak", "syntax", "int32", "true", "inf", "extend", "extensions", "group", "@", "\"", "'", "/*", "*/", "//", "\u{feff}",
    "\u{a0}", "\0", "#", "..", ":", "=1", "float", "double", "bytes", "bool", "int64", "stringa", "[]", "()", "{}", "1 to", "a.", ".a",
    "/**/", "\"\"", "\"\\q\"", "-1", "0x", "09", "E", "M",
];

pub fn p07(r: &mut Runner)
{
    SYNTAX.store(true, Ordering::SeqCst);
    let len = r.by(4, 5);
    for p in PLACES {
        r.space(
            &format!("place: {}", p.name),
            0,
            &format!(
                "every sequence of up to {} of the tokens {:?} after `{}`, with {} endings, separated by spaces or not",
                len,
                p.tokens,
                p.before,
                p.after.len()
            ),
            |ch, st| {
                let sep = if ch.flag() { "" } else { " " };
                let after = ch.of(p.after);
                let n = ch.pick(len + 1);
                let mut t = p.before.to_string();
                for _ in 0..n {
                    t += sep;
                    t += ch.of(p.tokens);
                }
                t += sep;
                t += after;
                one(t, st)
            },
        );
    }
    let files: Vec<Vec<&str>> = FILES.iter().map(|f| f.split(' ').collect()).collect();
    r.space(
        "glue",
        0,
        &format!("{} files ({} tokens) with the space between any two pairs of tokens left out, or replaced by a comment", FILES.len(), files.iter().map(|f| f.len()).sum::<usize>()),
        |ch, st| {
            let f = ch.of(&files);
            let i = ch.pick(f.len());
            let j = ch.pick(f.len());
            let with = ["", "/**/", "//\n", "/*"];
            let (x, y) = (*ch.of(&with), *ch.of(&with));
            let mut t = String::new();
            for (k, w) in f.iter().enumerate() {
                t += w;
                t += if k == i {
                    x
                } else if k == j {
                    y
                } else {
                    " "
                };
            }
            one(t, st)
        },
    );
    let with: &[&str] = r.by(
        &[";", "{", "}", "]", "(", ",", "=", "-", ".", "1", "\"s\"", "a", "message", "option", "repeated", "to"],
        WITH,
    );
    r.space(
        "edits",
        0,
        &format!(
            "{} files: any token left out, repeated, swapped with another, replaced or preceded by each of {} tokens; and any two of leaving out, replacing or preceding with {} tokens",
            FILES.len(),
            WITH.len(),
            with.len()
        ),
        |ch, st| {
            let f = ch.of(&files);
            let i = ch.pick(f.len());
            let mut t: Vec<String> = f.iter().map(|t| t.to_string()).collect();
            match ch.pick(6) {
                0 => t.swap(i, ch.pick(f.len())),
                1 => t[i] = ch.of(WITH).to_string(),
                2 => t.insert(i, ch.of(WITH).to_string()),
                3 => {
                    t.remove(i);
                }
                4 => {
                    let x = t[i].clone();
                    t.insert(i, x);
                }
                _ => {
                    let j = ch.pick(i + 1);
                    for k in [i, j] {
                        match ch.pick(2 * with.len() + 1) {
                            0 => t[k] = String::new(),
                            c if c % 2 == 0 => t[k] = with[c / 2 - 1].to_string(),
                            c => t[k] = format!("{} {}", with[c / 2], t[k]),
                        }
                    }
                }
            }
            one(t.join(" "), st)
        },
    );
    r.space(
        "cuts",
        0,
        &format!("{} files in every layout of single or no spaces: every range of characters left out, every text from or up to a character", FILES.len()),
        |ch, st| {
            let f = ch.of(FILES);
            let t: Vec<char> = f.chars().collect();
            let i = ch.pick(t.len() + 1);
            let j = i + ch.pick(t.len() + 1 - i);
            let s: String = match ch.pick(2) {
                0 => t[..i].iter().chain(&t[j..]).collect(),
                _ => format!("{}{}", HEAD, t[i..j].iter().collect::<String>()),
            };
            one(s, st)
        },
    );
    p01(r);
}
