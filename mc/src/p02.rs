//! P02: valid schemas are accepted and represented faithfully.

use crate::engine::*;
use crate::model::{Kind, SCALARS};
use crate::schema::*;
use protofish::context::Constant;

pub const KEYWORDS: &[&str] = &[
    "message", "enum", "service", "option", "rpc", "reserved", "map", "oneof", "repeated",
    "optional", "stream", "returns", "to", "max", "import", "package", "syntax", "proto3", "true",
    "false", "inf", "nan", "weak", "public", "extend", "extensions", "group", "required", "double",
    "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
    "sfixed32", "sfixed64", "bool", "string", "bytes", "packed", "key", "value",
];

pub const PLAIN: &[&str] = &[
    "a", "A", "z", "Z", "a0", "A9z", "a_b", "a__b", "x_", "aB_c_D_", "A_1_B", "O0", "e1", "x0",
    "E", "e", "nullx", "Entry", "FEntry",
];

/// Names that only start (or end) like keywords.
pub fn names() -> Vec<String>
{
    let mut v: Vec<String> = PLAIN.iter().map(|s| s.to_string()).collect();
    for k in KEYWORDS {
        v.push(k.to_string());
        v.push(format!("{}x", k));
        v.push(format!("{}_", k));
        v.push(format!("{}1", k));
        v.push(format!("{}Name", k));
        v.push(format!("x{}", k));
        let mut up = k.to_string();
        up[..1].make_ascii_uppercase();
        v.push(up);
        v.push(k.to_ascii_uppercase());
        v.push(k[..k.len() - 1].to_string());
    }
    v.push("n".repeat(100));
    v.push("N_".repeat(150));
    v.sort();
    v.dedup();
    v
}

fn is_scalar(s: &str) -> bool
{
    SCALARS.iter().any(|k| k.keyword() == s)
}

/// First words that the language reads as something else than a type in a field statement.
pub fn reads_as_statement(s: &str) -> bool
{
    is_scalar(s)
        || matches!(
            s,
            "message"
                | "enum"
                | "option"
                | "reserved"
                | "map"
                | "oneof"
                | "repeated"
                | "optional"
                | "extend"
                | "extensions"
                | "group"
                | "required"
        )
}

pub fn msg(name: &str, members: Vec<Member>) -> Msg
{
    Msg {
        name: name.to_string(),
        members,
    }
}

pub fn enum_of(name: &str, values: &[(&str, i64)]) -> Enum
{
    Enum {
        name: name.to_string(),
        members: values.iter().map(|(n, v)| val(n, *v)).collect(),
    }
}

pub fn val(name: &str, v: i64) -> EnumMember
{
    EnumMember::Value {
        name: name.to_string(),
        num: num(v),
        opts: vec![],
    }
}

pub fn rpc(name: &str, input: Arg, output: Arg) -> Rpc
{
    Rpc {
        name: name.to_string(),
        input,
        output,
        body: None,
    }
}

pub fn file(package: Option<&str>, items: Vec<Item>) -> File
{
    File {
        package: package.map(|s| s.to_string()),
        package_at: 0,
        items,
    }
}

pub fn ident(s: &str) -> Constant
{
    Constant::Ident(s.to_string())
}

pub fn some_opts(ch: &mut Ch) -> Vec<Opt>
{
    match ch.pick(7) {
        0 => vec![],
        1 => vec![opt("deprecated", "true", Constant::Bool(true))],
        2 => vec![opt("packed", "false", Constant::Bool(false))],
        3 => vec![opt("packed", "true", Constant::Bool(true))],
        4 => vec![
            opt("json_name", "\"x\"", Constant::String(b"x"[..].into())),
            opt("packed", "false", Constant::Bool(false)),
        ],
        5 => vec![
            opt("(my.opt).packed", "true", Constant::Bool(true)),
            opt("(p)", "-5", Constant::Integer(-5)),
            opt("lazy", "some.ident", ident("some.ident")),
        ],
        _ => vec![opt("ctype", "1.5", Constant::Float(1.5))],
    }
}

/// Spellings of an integer.
pub fn spelled(v: i64, how: usize) -> Num
{
    let a = v.unsigned_abs();
    let text = match how {
        0 => a.to_string(),
        1 => format!("0x{:x}", a),
        2 => format!("0X{:X}", a),
        3 => format!("0{:o}", a),
        4 => format!("0x00{:X}", a),
        _ => format!("000{:o}", a),
    };
    let mut toks = vec![];
    if v < 0 {
        toks.push("-".to_string());
    }
    toks.push(text);
    Num { toks, val: v }
}

fn with_names(r: &mut Runner)
{
    let all = names();
    let small: Vec<String> = all
        .iter()
        .filter(|n| KEYWORDS.contains(&n.as_str()) || n.ends_with("x"))
        .cloned()
        .collect();
    let positions = 16;
    let pairs = r.thorough();
    let budget = if pairs { 2 } else { 1 };
    // One file in which every kind of name occurs, and is referred to where names can be.
    let build = |n: &dyn Fn(usize, &'static str) -> String| -> Vec<File> {
        let p1 = n(0, "P");
        let p2 = n(1, "Q");
        let pkg = format!("{}.{}", p1, p2);
        let top = n(2, "Top");
        let nested = n(3, "Nested");
        let en = n(4, "En");
        let nen = n(5, "NestedEn");
        let full = |s: &str| format!("{}.{}", pkg, s);
        let top_full = full(&top);
        let nested_full = format!("{}.{}", top_full, nested);
        let en_full = full(&en);
        let nen_full = format!("{}.{}", top_full, nen);
        let ty = |spelled: &str, full: &str, e: bool| {
            let first = spelled.split('.').next().unwrap();
            if reads_as_statement(first) {
                to_ref(&format!(".{}", full), full, e)
            } else {
                to_ref(spelled, full, e)
            }
        };
        let f = |lab: Lab, ty: Ty, name: &str, n: i64| {
            Member::Field(Field {
                lab,
                ty,
                name: name.to_string(),
                num: num(n),
                opts: vec![],
            })
        };
        let members = vec![
            Member::Msg(msg(&nested, vec![])),
            Member::Enum(enum_of(&nen, &[("NV", 0)])),
            f(Lab::Single, Ty::Scalar(Kind::Int32), &n(6, "single"), 1),
            f(Lab::Optional, Ty::Scalar(Kind::Str), &n(7, "opt_f"), 2),
            f(Lab::Repeated, ty(&nested, &nested_full, false), &n(8, "rep_f"), 3),
            f(
                Lab::Single,
                ty(&format!("{}.{}", top, nen), &nen_full, true),
                "by_parent",
                4,
            ),
            f(
                Lab::Repeated,
                to_ref(&format!(".{}", en_full), &en_full, true),
                "absolute",
                5,
            ),
            f(Lab::Optional, ty(&en, &en_full, true), "bare", 6),
            Member::Oneof(Oneof {
                name: n(9, "choice"),
                members: vec![
                    OneofMember::Field(scalar(Kind::Bool, &n(10, "in_oneof"), 8)),
                    OneofMember::Field(Field {
                        lab: Lab::Single,
                        ty: ty(&nen, &nen_full, true),
                        name: "other".to_string(),
                        num: num(9),
                        opts: vec![],
                    }),
                ],
            }),
            Member::Map(Map {
                key: Kind::Str,
                value: ty(&nested, &nested_full, false),
                name: n(11, "map_f"),
                num: num(10),
                opts: vec![opt(&n(12, "opt_name"), &n(13, "some_ident"), ident(&n(13, "some_ident")))],
            }),
        ];
        let stream_ok = |s: &str| s != "stream";
        let top_arg = |st: bool| {
            if stream_ok(&top) {
                arg(st, &top, &top_full)
            } else {
                arg(st, &format!(".{}", top_full), &top_full)
            }
        };
        vec![file(
            Some(&pkg),
            vec![
                Item::Msg(msg(&top, members)),
                Item::Enum(enum_of(&en, &[(&n(14, "VALUE"), 0), ("OTHER_VALUE", 1)])),
                Item::Svc(Svc {
                    name: n(15, "Svc"),
                    members: vec![
                        SvcMember::Rpc(rpc(&n(16, "Call"), top_arg(false), top_arg(true))),
                        SvcMember::Rpc(rpc(
                            "Second",
                            if stream_ok(&top) {
                                arg(true, &format!("{}.{}", top, nested), &nested_full)
                            } else {
                                arg(true, &format!(".{}", nested_full), &nested_full)
                            },
                            top_arg(false),
                        )),
                    ],
                }),
            ],
        )]
    };
    r.space(
        "names",
        budget,
        if pairs {
            "every pair of 17 name positions filled with every pair of keywords and names that start like keywords, every position with every name of the list"
        } else {
            "every one of 17 name positions filled with every name of the list (keywords, prefixed keywords, case variants, long names)"
        },
        |ch, st| {
            let mut chosen: Vec<Option<String>> = vec![];
            for _ in 0..=positions {
                let list = if pairs { &small } else { &all };
                let i = ch.dev(list.len() + 1);
                chosen.push(if i == 0 { None } else { Some(list[i - 1].clone()) });
            }
            let n = |i: usize, default: &'static str| {
                chosen[i].clone().unwrap_or_else(|| default.to_string())
            };
            names_case(&n, &build, st)
        },
    );
    if pairs {
        r.space(
            "names-all",
            1,
            "every one of 17 name positions filled with every name of the list",
            |ch, st| {
                let mut chosen: Vec<Option<String>> = vec![];
                for _ in 0..=positions {
                    let i = ch.dev(all.len() + 1);
                    chosen.push(if i == 0 { None } else { Some(all[i - 1].clone()) });
                }
                let n = |i: usize, default: &'static str| {
                    chosen[i].clone().unwrap_or_else(|| default.to_string())
                };
                names_case(&n, &build, st)
            },
        );
    }
}

fn names_case(
    n: &dyn Fn(usize, &'static str) -> String,
    build: &dyn Fn(&dyn Fn(usize, &'static str) -> String) -> Vec<File>,
    st: &mut St,
) -> R
{
    // Combinations that are not valid (or not in the language) are left out.
    let en_value = n(14, "VALUE");
    let constant = n(13, "some_ident");
    if en_value == "option"
        || en_value == "reserved"
        || matches!(constant.as_str(), "true" | "false" | "inf" | "nan")
    {
        st.outcome("outside");
        return Ok(());
    }
    let files = build(n);
    let f = &files[0];
    let pkg = f.package.clone().unwrap();
    let (p1, p2) = pkg.split_once('.').unwrap();
    let (top, nested, en, nen, svc) = (n(2, "Top"), n(3, "Nested"), n(4, "En"), n(5, "NestedEn"), n(15, "Svc"));
    let entry = entry_name(&n(11, "map_f"));
    let fields = [
        n(6, "single"),
        n(7, "opt_f"),
        n(8, "rep_f"),
        "by_parent".into(),
        "absolute".into(),
        "bare".into(),
        n(10, "in_oneof"),
        "other".into(),
        n(11, "map_f"),
        n(9, "choice"),
    ];
    let distinct = |v: &[&String]| (1..v.len()).all(|i| !v[..i].contains(&v[i]));
    let field_refs: Vec<&String> = fields.iter().collect();
    let valid = distinct(&[&top, &en, &svc])
        && distinct(&[&nested, &nen, &entry])
        && distinct(&field_refs)
        // Symbols of a message share a scope.
        && !fields.iter().any(|f| *f == nested || *f == nen || *f == entry)
        // Enum values are symbols of the enclosing scope.
        && ![&top, &en, &svc].iter().any(|x| **x == en_value)
        && nested != "NV" && nen != "NV" && !fields.iter().any(|f| f == "NV")
        && en_value != "OTHER_VALUE"
        && n(16, "Call") != "Second"
        // Names that would be found in an inner scope.
        && ![&nested, &nen, &entry].iter().any(|x| **x == top || **x == en || **x == p1 || **x == p2)
        && ![&top, &en, &svc].iter().any(|x| **x == p1 || **x == p2)
        && p1 != p2;
    if !valid {
        st.outcome("outside");
        return Ok(());
    }
    st.outcome("schema");
    st.state(&text_of(f));
    st.sample(|| text_of(f));
    conform(&files, st)?;
    Ok(())
}

/// The types a field may have in the fixed surroundings of `around`.
fn field_types() -> Vec<Ty>
{
    let mut v: Vec<Ty> = SCALARS.iter().map(|k| Ty::Scalar(*k)).collect();
    for s in ["Other", "P.Q.Other", "Q.Other", ".P.Q.Other"] {
        v.push(to_ref(s, "P.Q.Other", false));
    }
    for s in ["E", "P.Q.E", "Q.E", ".P.Q.E"] {
        v.push(to_ref(s, "P.Q.E", true));
    }
    for s in ["Other.Inner", "Q.Other.Inner", ".P.Q.Other.Inner"] {
        v.push(to_ref(s, "P.Q.Other.Inner", false));
    }
    v.push(to_ref("Other.IE", "P.Q.Other.IE", true));
    v.push(to_ref("M", "P.Q.M", false));
    v
}

fn around(mut items: Vec<Item>) -> Vec<File>
{
    items.push(Item::Msg(msg(
        "Other",
        vec![
            Member::Msg(msg("Inner", vec![])),
            Member::Enum(enum_of("IE", &[("IV", 0)])),
        ],
    )));
    items.push(Item::Enum(enum_of("E", &[("V", 0), ("W", 1)])));
    vec![file(Some("P.Q"), items)]
}

fn fields(r: &mut Runner)
{
    let types = field_types();
    let numbers: Vec<i64> = vec![
        1,
        2,
        7,
        8,
        9,
        15,
        16,
        127,
        128,
        255,
        2047,
        2048,
        18999,
        20000,
        (1 << 28) - 1,
        1 << 28,
        (1 << 29) - 1,
    ];
    r.space(
        "fields",
        0,
        "28 type spellings x 3 labels x 17 numbers x 6 radix spellings x 7 option lists, in a message, a nested message and a oneof",
        |ch, st| {
            let place = ch.pick(3);
            let lab = if place == 2 {
                Lab::Single
            } else {
                *ch.of(&[Lab::Single, Lab::Optional, Lab::Repeated])
            };
            let ty = ch.of(&types).clone();
            let n = *ch.of(&numbers);
            let how = ch.pick(6);
            let opts = some_opts(ch);
            let f = Field {
                lab,
                ty,
                name: "f".to_string(),
                num: spelled(n, how),
                opts,
            };
            let items = match place {
                0 => vec![Item::Msg(msg("M", vec![Member::Field(f)]))],
                1 => vec![Item::Msg(msg(
                    "M",
                    vec![
                        Member::Msg(msg("N", vec![Member::Field(f)])),
                        Member::Field(scalar(Kind::Bool, "after", 3)),
                    ],
                ))],
                _ => vec![Item::Msg(msg(
                    "M",
                    vec![
                        Member::Oneof(Oneof {
                            name: "o".to_string(),
                            members: vec![
                                OneofMember::Field(scalar(Kind::Bool, "before", 3)),
                                OneofMember::Field(f),
                            ],
                        }),
                        Member::Field(scalar(Kind::Bool, "after", 4)),
                    ],
                ))],
            };
            let files = around(items);
            st.state(&(place, lab, how, n));
            st.outcome("schema");
            st.sample(|| text_of(&files[0]));
            conform(&files, st)?;
            Ok(())
        },
    );
}

const KEY_KINDS: [Kind; 12] = [
    Kind::Int32,
    Kind::Int64,
    Kind::UInt32,
    Kind::UInt64,
    Kind::SInt32,
    Kind::SInt64,
    Kind::Fixed32,
    Kind::Fixed64,
    Kind::SFixed32,
    Kind::SFixed64,
    Kind::Bool,
    Kind::Str,
];

fn maps(r: &mut Runner)
{
    let types = field_types();
    let map_names = [
        "f", "F", "map_f", "aB", "a_b_c", "a__b", "x_", "map", "string", "mapping", "f1", "f_1", "_x",
    ];
    r.space(
        "maps",
        0,
        "12 key types x 28 value type spellings x 12 names x 3 positions x option lists",
        |ch, st| {
            let key = *ch.of(&KEY_KINDS);
            let value = ch.of(&types).clone();
            let name = *ch.of(&map_names[..12]);
            let place = ch.pick(3);
            let opts = if ch.flag() {
                vec![opt("deprecated", "true", Constant::Bool(true))]
            } else {
                vec![]
            };
            let m = Member::Map(Map {
                key,
                value,
                name: name.to_string(),
                num: num(5),
                opts,
            });
            let items = match place {
                0 => vec![Item::Msg(msg("M", vec![m]))],
                1 => vec![Item::Msg(msg(
                    "M",
                    vec![
                        Member::Msg(msg("N", vec![m.clone()])),
                        m,
                        Member::Field(scalar(Kind::Bool, "after", 6)),
                    ],
                ))],
                _ => vec![Item::Msg(msg(
                    "M",
                    vec![
                        Member::Field(scalar(Kind::Bool, "before", 9)),
                        m,
                        Member::Map(Map {
                            key: Kind::Int32,
                            value: Ty::Scalar(Kind::Str),
                            name: "second_map".to_string(),
                            num: num(4),
                            opts: vec![],
                        }),
                    ],
                ))],
            };
            let files = around(items);
            st.state(&(key, name, place));
            st.outcome("schema");
            st.sample(|| text_of(&files[0]));
            conform(&files, st)?;
            Ok(())
        },
    );
}

/// Kinds of message members. Names and numbers are made unique by the index.
fn member(kind: usize, i: usize) -> Member
{
    let n = 2 * i as i64 + 1;
    let f = |lab: Lab, ty: Ty, num_: i64, opts: Vec<Opt>| Field {
        lab,
        ty,
        name: format!("f{}", num_),
        num: num(num_),
        opts,
    };
    match kind {
        0 => Member::Field(f(Lab::Single, Ty::Scalar(Kind::Int32), n, vec![])),
        1 => Member::Field(f(
            Lab::Repeated,
            Ty::Scalar(Kind::UInt64),
            n,
            vec![opt("packed", "false", Constant::Bool(false))],
        )),
        2 => Member::Field(f(Lab::Optional, to_ref("M", "M", false), n, vec![])),
        3 => Member::Oneof(Oneof {
            name: format!("o{}", i),
            members: vec![
                OneofMember::Field(f(Lab::Single, Ty::Scalar(Kind::Str), n, vec![])),
                OneofMember::Field(f(Lab::Single, Ty::Scalar(Kind::Double), n + 1, vec![])),
            ],
        }),
        4 => Member::Map(Map {
            key: Kind::Str,
            value: Ty::Scalar(Kind::Bytes),
            name: format!("m{}", i),
            num: num(n),
            opts: vec![],
        }),
        5 => Member::Msg(msg(
            &format!("N{}", i),
            vec![Member::Field(scalar(Kind::Bool, "inner", 1))],
        )),
        6 => Member::Enum(enum_of(&format!("E{}", i), &[("A", 0), ("B", 5)])),
        7 => Member::Raw(raw(["reserved 100 to 200, 205, 1000 to max;", "reserved 300;"][i % 2])),
        8 => Member::Raw(raw(["reserved \"foo\", 'bar';", "reserved \"x\";"][i % 2])),
        9 => Member::Raw(raw(
            [
                "option deprecated = true;",
                "option (my.option).value = \"text\";",
                "option foo = 1;",
            ][i % 3],
        )),
        10 => Member::Raw(raw(";")),
        11 => Member::Oneof(Oneof {
            name: format!("o{}", i),
            members: vec![
                OneofMember::Opt(opt("x", "1", Constant::Integer(1))),
                OneofMember::Raw(raw(";")),
                OneofMember::Field(f(Lab::Single, Ty::Scalar(Kind::Bytes), n + 1, vec![])),
                OneofMember::Opt(opt("(y).z", "false", Constant::Bool(false))),
                OneofMember::Field(f(Lab::Single, to_ref("M", "M", false), n, vec![])),
            ],
        }),
        12 => Member::Field(f(
            Lab::Single,
            to_ref(".M", "M", false),
            n,
            vec![opt("a", "b", ident("b")), opt("c", "'d'", Constant::String(b"d"[..].into()))],
        )),
        _ => unreachable!(),
    }
}
const MEMBERS: usize = 13;

fn sequences(r: &mut Runner)
{
    let n = r.by(3, 4);
    r.space(
        "members",
        0,
        &format!("every sequence of up to {} of 13 kinds of message members, in a top-level and in a nested message", n),
        |ch, st| {
            let nested = ch.flag();
            let len = ch.pick(n + 1);
            let mut members = vec![];
            let mut kinds = vec![];
            for i in 0..len {
                let k = ch.pick(MEMBERS);
                kinds.push(k);
                members.push(member(k, i));
            }
            let files = if nested {
                vec![file(
                    None,
                    vec![Item::Msg(msg(
                        "M",
                        vec![
                            Member::Field(scalar(Kind::Int32, "x", 2)),
                            Member::Msg(msg("Deep", members)),
                            Member::Field(scalar(Kind::Int32, "y", 1)),
                        ],
                    ))],
                )]
            } else {
                vec![file(None, vec![Item::Msg(msg("M", members))])]
            };
            st.state(&(nested, kinds));
            st.outcome("schema");
            st.sample(|| text_of(&files[0]));
            conform(&files, st)?;
            Ok(())
        },
    );

    let n = r.by(3, 5);
    r.space(
        "items",
        0,
        &format!("every sequence of up to {} of 10 kinds of top-level statements x every position of the package statement", n),
        |ch, st| {
            let pkg = *ch.of(&[None, Some("P"), Some("P.Q.R")]);
            let len = ch.pick(n + 1);
            let at = if pkg.is_some() { ch.pick(len + 1) } else { 0 };
            let full = |s: &str| match pkg {
                Some(p) => format!("{}.{}", p, s),
                None => s.to_string(),
            };
            let mut items = vec![];
            let mut kinds = vec![];
            let mut base = None;
            for i in 0..len {
                let k = ch.pick(10);
                kinds.push(k);
                let name = format!("X{}", i);
                items.push(match k {
                    0 => {
                        base = Some(name.clone());
                        Item::Msg(msg(&name, vec![]))
                    }
                    1 => {
                        let target = base.clone().unwrap_or_else(|| name.clone());
                        base = Some(name.clone());
                        Item::Msg(msg(
                            &name,
                            vec![
                                Member::Field(Field {
                                    lab: Lab::Repeated,
                                    ty: to_ref(&target, &full(&target), false),
                                    name: "link".to_string(),
                                    num: num(1),
                                    opts: vec![],
                                }),
                                Member::Msg(msg("In", vec![])),
                            ],
                        ))
                    }
                    2 => Item::Enum(enum_of(&name, &[("A", 0), ("B", -1)])),
                    3 => Item::Svc(Svc {
                        name,
                        members: vec![],
                    }),
                    4 => Item::Raw(raw("import \"some/file.proto\";")),
                    5 => Item::Raw(raw("import public 'other.proto';")),
                    6 => Item::Raw(raw("import weak \"a\";")),
                    7 => Item::Raw(raw("option java_package = \"com.example\";")),
                    8 => Item::Raw(raw("option (custom.file).opt = -1;")),
                    _ => Item::Raw(raw(";")),
                });
            }
            if let Some(b) = base {
                items.push(Item::Svc(Svc {
                    name: "Last".to_string(),
                    members: vec![SvcMember::Rpc(rpc(
                        "R",
                        arg(false, &b, &full(&b)),
                        arg(true, &b, &full(&b)),
                    ))],
                }));
            }
            let files = vec![File {
                package: pkg.map(|s| s.to_string()),
                package_at: at,
                items,
            }];
            st.state(&(pkg, at, kinds));
            st.outcome("schema");
            st.sample(|| text_of(&files[0]));
            conform(&files, st)?;
            Ok(())
        },
    );

    let n = r.by(3, 4);
    r.space(
        "enum-bodies",
        0,
        &format!("every sequence of up to {} of 13 kinds of enum members after the zero value, in a top-level and in a nested enum", n),
        |ch, st| {
            let nested = ch.flag();
            let len = ch.pick(n + 1);
            let mut members = vec![val("ZERO", 0)];
            let mut kinds = vec![];
            for i in 0..len {
                let k = ch.pick(13);
                kinds.push(k);
                let name = format!("V{}", i);
                let mk = |num: Num, opts: Vec<Opt>| EnumMember::Value {
                    name: name.clone(),
                    num,
                    opts,
                };
                let plain = 3 * i as i64 + 1;
                members.push(match k {
                    0 => mk(num(plain), vec![]),
                    1 => mk(num(-plain), vec![]),
                    2 => mk(spelled(plain + 9, 1), vec![]),
                    3 => mk(spelled(-plain - 9, 3), vec![]),
                    4 => mk(num(i32::MAX as i64 - i as i64), vec![]),
                    5 => mk(num(i32::MIN as i64 + i as i64), vec![]),
                    6 => mk(num(0), vec![]),
                    7 => mk(num(plain), vec![opt("deprecated", "true", Constant::Bool(true))]),
                    8 => mk(
                        num(plain),
                        vec![
                            opt("(a.b).c", "\"s\"", Constant::String(b"s"[..].into())),
                            opt("d", "0x10", Constant::Integer(16)),
                        ],
                    ),
                    9 => EnumMember::Raw(raw("option allow_alias = true;")),
                    10 => EnumMember::Raw(raw("reserved -5 to -2, 500, 1000 to max;")),
                    11 => EnumMember::Raw(raw("reserved \"FOO\", \"BAR\";")),
                    _ => EnumMember::Raw(raw(";")),
                });
            }
            let e = Enum {
                name: "E".to_string(),
                members,
            };
            let items = if nested {
                vec![Item::Msg(msg("M", vec![Member::Enum(e)]))]
            } else {
                vec![Item::Enum(e)]
            };
            let files = vec![file(None, items)];
            st.state(&(nested, kinds));
            st.outcome("schema");
            st.sample(|| text_of(&files[0]));
            conform(&files, st)?;
            Ok(())
        },
    );

    let n = r.by(3, 4);
    r.space(
        "ignored-statements",
        0,
        &format!("every list of up to {} of {} reserved ranges or of {} reserved names in a message, a nested message and an enum; every pair of imports and every pair of file options at every place", n, RANGES.len(), RESERVED_NAMES.len()),
        |ch, st| {
            let (a, b) = (Member::Field(scalar(Kind::Bool, "a", 1)), Member::Field(scalar(Kind::Bool, "b", 2)));
            let place = ch.pick(5);
            let text = match place {
                0..=2 => {
                    let items: &[&str] = match ch.pick(2) {
                        0 if place == 2 => RANGES,
                        0 => &RANGES[..POSITIVE_RANGES],
                        _ => RESERVED_NAMES,
                    };
                    let k = 1 + ch.pick(n);
                    let v: Vec<&str> = (0..k).map(|_| *ch.of(items)).collect();
                    format!("reserved {};", v.join(", "))
                }
                3 => {
                    let word = *ch.of(&["", "public ", "weak "]);
                    let name = *ch.of(&["\"a.proto\"", "'a.proto'", "\"\"", "\"x/y-z;{.proto\"", "'//'", "\"\\x41\""]);
                    format!("import {}{};", word, name)
                }
                _ => {
                    let name = *ch.of(&["o", "(o)", "(a.b).c", "java_package", "option", "(a.b).c.d"]);
                    let value = *ch.of(&["1", "-1", "\"x\"", "true", "a.b", "-1.5e3", "'a;b'", "inf", "- inf", "0x1F"]);
                    format!("option {} = {};", name, value)
                }
            };
            st.state(&(place, &text));
            let r = || raw(&text);
            let other = raw("import public 'other.proto';");
            let items = match place {
                0 => {
                    let mut v = vec![a, b];
                    v.insert(ch.pick(3), Member::Raw(r()));
                    vec![Item::Msg(msg("M", v))]
                }
                1 => vec![Item::Msg(msg("M", vec![Member::Msg(msg("N", vec![a, Member::Raw(r())])), b]))],
                2 => {
                    let mut v = vec![val("X", 0), val("Y", 1)];
                    v.insert(ch.pick(3), EnumMember::Raw(r()));
                    vec![Item::Enum(Enum { name: "E".to_string(), members: v })]
                }
                _ => {
                    let mut v = vec![Item::Msg(msg("M", vec![a]))];
                    v.insert(ch.pick(2), Item::Raw(r()));
                    let at = ch.pick(v.len() + 1);
                    if ch.flag() {
                        v.insert(at, Item::Raw(other));
                    }
                    v
                }
            };
            let package_at = ch.pick(items.len() + 1);
            let files = vec![File {
                package: Some("p.q".to_string()),
                package_at,
                items,
            }];
            st.outcome("schema");
            st.sample(|| text_of(&files[0]));
            conform(&files, st)?;
            Ok(())
        },
    );

    let n = r.by(2, 3);
    r.space(
        "services",
        0,
        &format!("every sequence of up to {} service members: options, empty statements and rpcs with every streaming combination, reference spelling and body", n),
        |ch, st| {
            let len = ch.pick(n + 1);
            let mut members = vec![];
            let mut kinds = vec![];
            for i in 0..len {
                let k = ch.pick(3);
                kinds.push(k);
                members.push(match k {
                    0 => {
                        let spellings = ["A", "P.A", ".P.A", "A.In", "streamed", ".P.streamed"];
                        let (ins, outs) = if i == 0 {
                            (ch.pick(6), ch.pick(6))
                        } else {
                            (ch.pick(2) * 4, 1)
                        };
                        let (is, os) = (ch.flag(), ch.flag());
                        let target = |i: usize| match i {
                            0..=2 => "P.A",
                            3 => "P.A.In",
                            _ => "P.streamed",
                        };
                        let body = match ch.pick(5) {
                            0 => None,
                            1 => Some(vec![]),
                            2 => Some(vec![RpcMember::Raw(raw(";"))]),
                            3 => Some(vec![RpcMember::Opt(opt("deprecated", "true", Constant::Bool(true)))]),
                            _ => Some(vec![
                                RpcMember::Opt(opt("(google.api.http).get", "\"/v1\"", Constant::String(b"/v1"[..].into()))),
                                RpcMember::Raw(raw(";")),
                                RpcMember::Opt(opt("idempotency_level", "NO_SIDE_EFFECTS", ident("NO_SIDE_EFFECTS"))),
                            ]),
                        };
                        SvcMember::Rpc(Rpc {
                            name: format!("R{}", i),
                            input: arg(is, spellings[ins], target(ins)),
                            output: arg(os, spellings[outs], target(outs)),
                            body,
                        })
                    }
                    1 => SvcMember::Raw(raw(";")),
                    _ => SvcMember::Opt(opt("deprecated", "false", Constant::Bool(false))),
                });
            }
            let files = vec![file(
                Some("P"),
                vec![
                    Item::Svc(Svc {
                        name: "S".to_string(),
                        members,
                    }),
                    Item::Msg(msg("A", vec![Member::Msg(msg("In", vec![]))])),
                    Item::Msg(msg("streamed", vec![])),
                ],
            )];
            st.state(&text_of(&files[0]));
            st.outcome("schema");
            st.sample(|| text_of(&files[0]));
            conform(&files, st)?;
            Ok(())
        },
    );
}

/// All forests with n nodes as parent vectors.
fn trees(r: &mut Runner)
{
    let n = r.by(4, 5);
    r.space(
        "trees",
        0,
        &format!("every ordered nesting of up to {} messages and enums x a reference from every message to every type by every dotted spelling that reaches it", n),
        |ch, st| {
            let count = 1 + ch.pick(n);
            let mut parent: Vec<Option<usize>> = vec![];
            let mut is_enum = vec![];
            let mut depth = vec![];
            // Preorder: the parent of a node lies on the path to the node before it.
            for i in 0..count {
                let mut options: Vec<Option<usize>> = vec![None];
                if i > 0 {
                    let mut p = Some(i - 1);
                    if is_enum[i - 1] {
                        p = parent[i - 1];
                    }
                    while let Some(x) = p {
                        options.push(Some(x));
                        p = parent[x];
                    }
                }
                let p = *ch.of(&options);
                parent.push(p);
                depth.push(p.map_or(0, |p: usize| depth[p] + 1));
                is_enum.push(ch.flag());
            }
            let simple: Vec<String> = (0..count).map(|i| format!("T{}", i)).collect();
            let full: Vec<String> = (0..count)
                .map(|i| {
                    let mut s = simple[i].clone();
                    let mut p = parent[i];
                    while let Some(x) = p {
                        s = format!("{}.{}", simple[x], s);
                        p = parent[x];
                    }
                    s
                })
                .collect();
            let msgs: Vec<usize> = (0..count).filter(|i| !is_enum[*i]).collect();
            let mut refs: Vec<(usize, Ty)> = vec![];
            if !msgs.is_empty() {
                let from = *ch.of(&msgs);
                let to = ch.pick(count);
                // Spellings: the full name, and the name relative to every scope around both.
                let mut spell = vec![full[to].clone(), format!(".{}", full[to])];
                let mut scope = Some(from);
                while let Some(s) = scope {
                    if let Some(rest) = full[to].strip_prefix(&format!("{}.", full[s])) {
                        spell.push(rest.to_string());
                    }
                    scope = parent[s];
                }
                spell.dedup();
                let s = ch.of(&spell).clone();
                refs.push((from, to_ref(&s, &full[to], is_enum[to])));
            }
            fn build(
                i: usize,
                parent: &[Option<usize>],
                is_enum: &[bool],
                simple: &[String],
                refs: &[(usize, Ty)],
            ) -> Msg
            {
                let mut members = vec![];
                for (k, (from, ty)) in refs.iter().enumerate() {
                    if *from == i {
                        members.push(Member::Field(Field {
                            lab: Lab::Single,
                            ty: ty.clone(),
                            name: format!("r{}", k),
                            num: num(k as i64 + 1),
                            opts: vec![],
                        }));
                    }
                }
                for c in 0..parent.len() {
                    if parent[c] == Some(i) {
                        members.push(if is_enum[c] {
                            Member::Enum(enum_of(&simple[c], &[(&format!("V{}", c), 0)]))
                        } else {
                            Member::Msg(build(c, parent, is_enum, simple, refs))
                        });
                    }
                }
                msg(&simple[i], members)
            }
            let mut items = vec![];
            for i in 0..count {
                if parent[i].is_none() {
                    items.push(if is_enum[i] {
                        Item::Enum(enum_of(&simple[i], &[(&format!("V{}", i), 0)]))
                    } else {
                        Item::Msg(build(i, &parent, &is_enum, &simple, &refs))
                    });
                }
            }
            let files = vec![file(None, items)];
            st.state(&(&parent, &is_enum));
            st.outcome("schema");
            st.sample(|| text_of(&files[0]));
            conform(&files, st)?;
            Ok(())
        },
    );
}

fn sizes(r: &mut Runner)
{
    let n = r.by(70, 300);
    let depth = r.by(60, 99);
    r.space(
        "sizes",
        0,
        &format!("1 to {} of each: messages, enums, fields, oneofs, oneof members, maps, nested types, enum values, services, rpcs, options, reserved items, imports, package parts, name lengths; nesting to {}", n, depth),
        |ch, st| {
            let what = ch.pick(20);
            let n = 1 + ch.pick(if what == 19 { depth } else { n });
            let nn = n as i64;
            let m = |members: Vec<Member>| vec![file(None, vec![Item::Msg(msg("M", members))])];
            let files = match what {
                0 => vec![file(
                    Some("P"),
                    (0..n)
                        .map(|i| {
                            Item::Msg(msg(
                                &format!("M{}", i),
                                vec![Member::Field(Field {
                                    lab: Lab::Single,
                                    ty: to_ref(
                                        &format!("M{}", n - 1 - i),
                                        &format!("P.M{}", n - 1 - i),
                                        false,
                                    ),
                                    name: "f".to_string(),
                                    num: num(1),
                                    opts: vec![],
                                })],
                            ))
                        })
                        .collect(),
                )],
                1 => vec![file(
                    Some("P"),
                    (0..n)
                        .map(|i| Item::Enum(enum_of(&format!("E{}", i), &[(&format!("V{}", i), 0)])))
                        .collect(),
                )],
                2 => m((0..nn).map(|i| Member::Field(scalar(Kind::Int32, &format!("f{}", i), i + 1))).collect()),
                3 => m((0..nn).map(|i| Member::Field(scalar(Kind::Str, &format!("f{}", i), nn - i))).collect()),
                4 => m((0..nn)
                    .map(|i| {
                        Member::Oneof(Oneof {
                            name: format!("o{}", i),
                            members: vec![OneofMember::Field(scalar(Kind::Bool, &format!("f{}", i), i + 1))],
                        })
                    })
                    .collect()),
                5 => m(vec![Member::Oneof(Oneof {
                    name: "o".to_string(),
                    members: (0..nn)
                        .map(|i| OneofMember::Field(scalar(Kind::Bool, &format!("f{}", i), (i * 7) % 331 + 1)))
                        .collect(),
                })]),
                6 => m((0..nn)
                    .map(|i| {
                        Member::Map(Map {
                            key: Kind::Str,
                            value: Ty::Scalar(Kind::Bool),
                            name: format!("m{}", i),
                            num: num(i + 1),
                            opts: vec![],
                        })
                    })
                    .collect()),
                7 => m((0..n).map(|i| Member::Msg(msg(&format!("N{}", i), vec![]))).collect()),
                8 => m((0..n)
                    .map(|i| Member::Enum(enum_of(&format!("N{}", i), &[(&format!("V{}", i), 0)])))
                    .collect()),
                9 => vec![file(
                    None,
                    vec![Item::Enum(Enum {
                        name: "E".to_string(),
                        members: (0..nn).map(|i| val(&format!("V{}", i), i)).collect(),
                    })],
                )],
                10 => vec![file(
                    None,
                    (0..n)
                        .map(|i| {
                            Item::Svc(Svc {
                                name: format!("S{}", i),
                                members: vec![],
                            })
                        })
                        .collect(),
                )],
                11 => vec![file(
                    None,
                    vec![
                        Item::Msg(msg("A", vec![])),
                        Item::Msg(msg("B", vec![])),
                        Item::Svc(Svc {
                            name: "S".to_string(),
                            members: (0..n)
                                .map(|i| {
                                    SvcMember::Rpc(rpc(
                                        &format!("R{}", i),
                                        arg(i % 2 == 1, "A", "A"),
                                        arg(i % 3 == 1, "B", "B"),
                                    ))
                                })
                                .collect(),
                        }),
                    ],
                )],
                12 => m(vec![Member::Field(Field {
                    lab: Lab::Single,
                    ty: Ty::Scalar(Kind::Int32),
                    name: "f".to_string(),
                    num: num(1),
                    opts: (0..nn)
                        .map(|i| opt(&format!("o{}", i), &i.to_string(), Constant::Integer(i)))
                        .collect(),
                })]),
                13 => m(vec![
                    Member::Raw(raw(&format!(
                        "reserved {};",
                        (0..n).map(|i| format!("{}", 1000 + i)).collect::<Vec<_>>().join(", ")
                    ))),
                    Member::Raw(raw(&format!(
                        "reserved {};",
                        (0..n).map(|i| format!("\"r{}\"", i)).collect::<Vec<_>>().join(", ")
                    ))),
                    Member::Field(scalar(Kind::Int32, "f", 1)),
                ]),
                14 => vec![file(
                    None,
                    (0..n)
                        .map(|i| Item::Raw(raw(&format!("import \"f{}.proto\";", i))))
                        .chain([Item::Msg(msg("M", vec![]))])
                        .collect(),
                )],
                15 => vec![file(
                    Some(&(0..n).map(|i| format!("p{}", i)).collect::<Vec<_>>().join(".")),
                    vec![
                        Item::Msg(msg("M", vec![])),
                        Item::Svc(Svc {
                            name: "S".to_string(),
                            members: vec![],
                        }),
                    ],
                )],
                16 => {
                    let name = "m".repeat(n);
                    vec![file(
                        None,
                        vec![Item::Msg(msg(
                            &name,
                            vec![Member::Field(Field {
                                lab: Lab::Repeated,
                                ty: to_ref(&name, &name, false),
                                name: "g".repeat(n),
                                num: num(1),
                                opts: vec![],
                            })],
                        ))],
                    )]
                }
                17 => (0..n)
                    .map(|i| {
                        file(
                            Some(&format!("P{}", i % 5)),
                            vec![Item::Msg(msg(&format!("M{}", i), vec![]))],
                        )
                    })
                    .collect(),
                18 => m(std::iter::repeat(Member::Raw(raw(";")))
                    .take(n)
                    .chain([Member::Field(scalar(Kind::Int32, "f", 1))])
                    .collect()),
                _ => {
                    let mut inner = msg(&format!("D{}", n), vec![Member::Field(scalar(Kind::Int32, "f", 1))]);
                    for i in (0..n).rev() {
                        inner = msg(
                            &format!("D{}", i),
                            vec![
                                Member::Msg(inner),
                                Member::Field(Field {
                                    lab: Lab::Single,
                                    ty: to_ref(
                                        &format!("D{}", i + 1),
                                        &(0..=i + 1).map(|k| format!("D{}", k)).collect::<Vec<_>>().join("."),
                                        false,
                                    ),
                                    name: "x".to_string(),
                                    num: num(2),
                                    opts: vec![],
                                }),
                            ],
                        );
                    }
                    vec![file(None, vec![Item::Msg(inner)])]
                }
            };
            st.state(&(what, n));
            st.outcome("schema");
            conform(&files, st)?;
            Ok(())
        },
    );
}

/// A small schema with up to `budget` features beyond the default.
fn features(r: &mut Runner)
{
    let budget = r.by(2, 3);
    let types = field_types();
    r.space(
        "features",
        budget,
        &format!("every combination of up to {} departures from a small schema at 30 choice points", budget),
        |ch, st| {
            let files = feature_schema(ch, &types);
            st.state(&text_of(&files[0]));
            st.outcome("schema");
            st.sample(|| text_of(&files[0]));
            conform(&files, st)?;
            Ok(())
        },
    );
}

fn feature_field(ch: &mut Ch, types: &[Ty], name: &str, n: i64, oneof: bool) -> Field
{
    let lab = if oneof {
        Lab::Single
    } else {
        *ch.dev_of(&[Lab::Single, Lab::Optional, Lab::Repeated])
    };
    let ty = ch.dev_of(types).clone();
    let names = [name, "message", "optional", "int32", "stringy", "option_x", "map"];
    let i = ch.dev(names.len());
    let name = if i == 0 { name.to_string() } else { format!("{}{}", names[i], n) };
    let how = ch.dev(4);
    let opts = match ch.dev(6) {
        0 => vec![],
        1 => vec![opt("deprecated", "true", Constant::Bool(true))],
        2 => vec![opt("packed", "false", Constant::Bool(false))],
        3 => vec![opt("packed", "true", Constant::Bool(true))],
        4 => vec![opt("(a.b)", "\"]\"", Constant::String(b"]"[..].into()))],
        _ => vec![
            opt("x", "-1", Constant::Integer(-1)),
            opt("y.z", "a.b", ident("a.b")),
        ],
    };
    Field {
        lab,
        ty,
        name,
        num: spelled(n, how),
        opts,
    }
}

fn feature_schema(ch: &mut Ch, types: &[Ty]) -> Vec<File>
{
    let mut items = vec![];
    match ch.dev(6) {
        0 => {}
        1 => items.push(Item::Raw(raw("import \"x.proto\";"))),
        2 => items.push(Item::Raw(raw("import public \"x.proto\";"))),
        3 => items.push(Item::Raw(raw("option optimize_for = SPEED;"))),
        4 => items.push(Item::Raw(raw("option (p).q = \"// /* {\";"))),
        _ => items.push(Item::Raw(raw(";"))),
    }
    let mut members = vec![];
    members.push(Member::Field(feature_field(ch, types, "one", 1, false)));
    let extra = ch.dev(MEMBERS + 1);
    if extra > 0 && extra - 1 != 2 && extra - 1 != 11 && extra - 1 != 12 {
        members.push(member(extra - 1, 10));
    }
    members.push(Member::Field(feature_field(ch, types, "two", 2, false)));
    let mut oneof = vec![
        OneofMember::Field(feature_field(ch, types, "three", 3, true)),
        OneofMember::Field(feature_field(ch, types, "four", 4, true)),
    ];
    match ch.dev(5) {
        0 => {}
        1 => oneof.insert(0, OneofMember::Opt(opt("o", "1", Constant::Integer(1)))),
        2 => oneof.insert(1, OneofMember::Opt(opt("(o).p", "2", Constant::Integer(2)))),
        3 => oneof.push(OneofMember::Raw(raw(";"))),
        _ => {
            oneof.pop();
        }
    }
    members.push(Member::Oneof(Oneof {
        name: ch.dev_of(&["choice", "oneof", "one_of", "oneofs", "reserved"]).to_string(),
        members: oneof,
    }));
    // A nested message.
    let mut nested = vec![Member::Field(feature_field(ch, types, "five", 5, false))];
    let extra = ch.dev(MEMBERS + 1);
    if extra > 0 && extra - 1 != 2 && extra - 1 != 11 && extra - 1 != 12 {
        nested.push(member(extra - 1, 11));
    }
    members.push(Member::Msg(msg(
        ch.dev_of(&["Nest", "message", "enumeration", "rpc", "Inner"]),
        nested,
    )));
    let map_value = ch.dev_of(types).clone();
    let map = Member::Map(Map {
        key: *ch.dev_of(&KEY_KINDS),
        value: map_value,
        name: ch.dev_of(&["some_map", "m", "mapX", "aMap_"]).to_string(),
        num: num(8),
        opts: vec![],
    });
    match ch.dev(3) {
        0 => members.push(map),
        1 => members.insert(0, map),
        _ => {}
    }
    let at = ch.dev(3);
    if at > 0 {
        members.rotate_left(at);
    }
    items.push(Item::Msg(msg("M", members)));
    let mut e = vec![val("A", 0)];
    match ch.dev(7) {
        0 => {}
        1 => e.push(val("B", -1)),
        2 => e.push(EnumMember::Raw(raw("option allow_alias = true;"))),
        3 => e.push(EnumMember::Raw(raw("reserved 3;"))),
        4 => e.push(EnumMember::Value {
            name: "optionB".to_string(),
            num: spelled(17, 1),
            opts: vec![opt("x", "1", Constant::Integer(1))],
        }),
        5 => e.insert(0, EnumMember::Raw(raw(";"))),
        _ => e.push(val("reservedB", 2)),
    }
    items.push(Item::Enum(Enum {
        name: ch.dev_of(&["F", "enum", "enumeration"]).to_string(),
        members: e,
    }));
    let a = |ch: &mut Ch| {
        let (s, t) = *ch.dev_of(&[
            ("M", "P.Q.M"),
            (".P.Q.M", "P.Q.M"),
            ("Q.Other", "P.Q.Other"),
            ("Other.Inner", "P.Q.Other.Inner"),
        ]);
        arg(ch.dev(2) == 1, s, t)
    };
    let (i, o) = (a(ch), a(ch));
    let mut svc = vec![SvcMember::Rpc(Rpc {
        name: ch.dev_of(&["Call", "rpc", "returns", "stream"]).to_string(),
        input: i,
        output: o,
        body: match ch.dev(4) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![RpcMember::Opt(opt("x", "'}'", Constant::String(b"}"[..].into())))]),
            _ => Some(vec![RpcMember::Raw(raw(";"))]),
        },
    })];
    match ch.dev(4) {
        0 => {}
        1 => svc.push(SvcMember::Raw(raw(";"))),
        2 => svc.insert(0, SvcMember::Opt(opt("so", "inf", Constant::Float(f64::INFINITY)))),
        _ => svc.push(SvcMember::Rpc(rpc(
            "Second",
            arg(true, "M", "P.Q.M"),
            arg(true, "M", "P.Q.M"),
        ))),
    }
    items.push(Item::Svc(Svc {
        name: ch.dev_of(&["S", "service", "services"]).to_string(),
        members: svc,
    }));
    let at = ch.dev(3);
    if at > 0 {
        items.rotate_left(at);
    }
    let mut files = around(items);
    files[0].package_at = ch.dev(4);
    files
}

/// Reserved ranges. The first ones suit messages, all of them suit enums.
const RANGES: &[&str] = &[
    "7",
    "0x1F",
    "017",
    "20 to 30",
    "0x40 to 0x4f",
    "50 to 50",
    "1000 to max",
    "19000 to 536870911",
    "536870911",
    "-7",
    "- 8",
    "-30 to -20",
    "-5 to 5",
    "-0x10 to max",
    "-2147483648 to -100",
    "0",
];
const POSITIVE_RANGES: usize = 9;
const RESERVED_NAMES: &[&str] = &["\"foo\"", "'bar'", "\"max\"", "\"to\"", "'a\"b'", "\"x\\ty\"", "\"\""];


pub fn p02(r: &mut Runner)
{
    with_names(r);
    fields(r);
    maps(r);
    sequences(r);
    trees(r);
    sizes(r);
    features(r);
}
