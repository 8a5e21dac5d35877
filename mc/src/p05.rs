//! P05: a set of files is one schema.

use crate::engine::*;
use crate::ensure;
use crate::model::Kind;
use crate::p02::{enum_of, file, msg, rpc};
use crate::schema::*;
use protofish::context::{Constant, ParseError};
use std::collections::BTreeMap;

fn link(name: &str, n: i64, lab: Lab, spelled: &str, full: &str, e: bool) -> Member
{
    Member::Field(Field {
        lab,
        ty: to_ref(spelled, full, e),
        name: name.to_string(),
        num: num(n),
        opts: vec![],
    })
}

/// Definitions that refer to each other, in the given packages.
fn defs(pk: [Option<&'static str>; 3]) -> Vec<(Option<&'static str>, Item)>
{
    let full = |p: Option<&str>, n: &str| match p {
        Some(p) => format!("{}.{}", p, n),
        None => n.to_string(),
    };
    let (a, b, e) = (full(pk[0], "A"), full(pk[1], "B"), full(pk[2], "E"));
    let bn = format!("{}.N", b);
    let be = format!("{}.BE", b);
    // Relative references within the package, absolute ones elsewhere.
    let sp = |from: Option<&str>, to: Option<&str>, name: &str, full: &str| {
        if from == to {
            name.to_string()
        } else {
            format!(".{}", full)
        }
    };
    vec![
        (
            pk[0],
            Item::Msg(msg(
                "A",
                vec![
                    link("b", 1, Lab::Single, &sp(pk[0], pk[1], "B", &b), &b, false),
                    link("e", 2, Lab::Repeated, &sp(pk[0], pk[2], "E", &e), &e, true),
                    link("be", 3, Lab::Optional, &sp(pk[0], pk[1], "B.BE", &be), &be, true),
                ],
            )),
        ),
        (
            pk[1],
            Item::Msg(msg(
                "B",
                vec![
                    Member::Msg(msg(
                        "N",
                        vec![link("a", 1, Lab::Repeated, &sp(pk[1], pk[0], "A", &a), &a, false)],
                    )),
                    Member::Enum(enum_of("BE", &[("Z", 0), ("Y", 2)])),
                    Member::Map(Map {
                        key: Kind::Str,
                        value: to_ref(&sp(pk[1], pk[0], "A", &a), &a, false),
                        name: "am".to_string(),
                        num: num(2),
                        opts: vec![],
                    }),
                    Member::Oneof(Oneof {
                        name: "o".to_string(),
                        members: vec![OneofMember::Field(Field {
                            lab: Lab::Single,
                            ty: to_ref("N", &bn, false),
                            name: "n".to_string(),
                            num: num(3),
                            opts: vec![opt("x", "1", Constant::Integer(1))],
                        })],
                    }),
                ],
            )),
        ),
        (pk[2], Item::Enum(enum_of("E", &[("EZ", 0), ("EY", -4)]))),
        (
            pk[1],
            Item::Svc(Svc {
                name: "S".to_string(),
                members: vec![
                    SvcMember::Rpc(rpc(
                        "R",
                        arg(false, &sp(pk[1], pk[0], "A", &a), &a),
                        arg(true, "B.N", &bn),
                    )),
                    SvcMember::Opt(opt("so", "true", Constant::Bool(true))),
                ],
            }),
        ),
        (
            pk[2],
            Item::Svc(Svc {
                name: "T".to_string(),
                members: vec![SvcMember::Rpc(rpc(
                    "R",
                    arg(true, &sp(pk[2], pk[1], "B", &b), &b),
                    arg(false, &sp(pk[2], pk[0], "A", &a), &a),
                ))],
            }),
        ),
        (
            pk[0],
            Item::Msg(msg(
                "C",
                vec![
                    link("c", 1, Lab::Single, "C", &full(pk[0], "C"), false),
                    Member::Msg(msg(
                        "E",
                        vec![link("own", 1, Lab::Single, "E", &full(pk[0], "C.E"), false)],
                    )),
                    link("own", 2, Lab::Single, "E", &full(pk[0], "C.E"), false),
                ],
            )),
        ),
    ]
}

pub fn p05(r: &mut Runner)
{
    let configs: &[[Option<&'static str>; 3]] = &[
        [None, None, None],
        [Some("P"), Some("P"), Some("P")],
        [Some("P"), Some("P"), Some("Q")],
        [Some("P"), Some("P.Q"), Some("P")],
        [None, Some("P"), Some("P.Q")],
        [Some("Q"), Some("P"), None],
    ];
    let n = r.by(4, 6);
    let slots = 2;
    r.space(
        "distributions",
        0,
        &format!("{} definitions that refer to each other (messages, nested types, maps, oneofs, enums, services) in 6 assignments of packages x every order x every distribution over two files per package (adjacent or apart) x reversed files", n),
        |ch, st| {
            let pk = *ch.of(configs);
            let mut pool = defs(pk);
            if n == 4 {
                // Two selections of four that are closed under references.
                if ch.flag() {
                    pool.truncate(4);
                } else {
                    pool = vec![pool[0].clone(), pool[1].clone(), pool[2].clone(), pool[4].clone()];
                }
            }
            // A permutation.
            let mut order = vec![];
            while !pool.is_empty() {
                let i = ch.pick(pool.len());
                order.push(pool.remove(i));
            }
            // Files, in the order in which they are first used.
            let mut files: Vec<(usize, File)> = vec![];
            for (p, item) in order {
                let slot = ch.pick(slots);
                let at = files
                    .iter()
                    .position(|(s, f)| *s == slot && f.package.as_deref() == p);
                let at = match at {
                    Some(i) => i,
                    None => {
                        files.push((slot, file(p, vec![])));
                        files.len() - 1
                    }
                };
                files[at].1.items.push(item);
            }
            let mut files: Vec<File> = files.into_iter().map(|(_, f)| f).collect();
            if files.len() > 1 && ch.flag() {
                files.reverse();
            }
            let layout: Vec<_> = files
                .iter()
                .map(|f| (f.package.clone(), f.items.len()))
                .collect();
            st.state(&(pk, layout));
            st.outcome("schema");
            st.sample(|| show(&files.iter().map(text_of).collect::<Vec<_>>()));
            conform(&files, st)?;
            Ok(())
        },
    );

    // Files without definitions between the others.
    r.space(
        "empty-files",
        0,
        "every sequence of up to 4 files that are empty, only have a package, only imports, or hold one of two definitions",
        |ch, st| {
            let n = ch.pick(5);
            let mut files = vec![];
            let mut has = [false; 3];
            let mut kinds = vec![];
            for _ in 0..n {
                let k = ch.pick(7);
                kinds.push(k);
                files.push(match k {
                    0 => file(None, vec![]),
                    1 => file(Some("P"), vec![]),
                    2 => file(Some("P"), vec![Item::Raw(raw("import \"x\";")), Item::Raw(raw(";"))]),
                    3 => file(Some("P.Q"), vec![]),
                    4 if !has[0] => {
                        has[0] = true;
                        file(Some("P"), vec![Item::Msg(msg("A", vec![]))])
                    }
                    5 if !has[1] => {
                        has[1] = true;
                        file(
                            Some("P"),
                            vec![Item::Svc(Svc {
                                name: "S".to_string(),
                                members: vec![],
                            })],
                        )
                    }
                    6 if !has[2] => {
                        has[2] = true;
                        file(None, vec![Item::Enum(enum_of("A", &[("Z", 0)]))])
                    }
                    _ => return Ok(()),
                });
            }
            st.state(&kinds);
            st.outcome("schema");
            conform(&files, st)?;
            Ok(())
        },
    );

    // Clashes and near misses.
    let n = r.by(2, 3);
    r.space(
        "clashes",
        0,
        &format!("up to {} messages, enums and services named A or B, at top level or inside message M, in up to 3 files of packages root, P, P.M, Q (with or without a message M that is otherwise empty)", n),
        |ch, st| {
            let pkgs = [None, Some("P"), Some("P.M"), Some("Q")];
            let nf = 1 + ch.pick(3);
            let files: Vec<Option<&'static str>> = (0..nf).map(|_| *ch.of(&pkgs)).collect();
            let count = 1 + ch.pick(n);
            let mut items: Vec<(usize, bool, &'static str, usize)> = vec![];
            for _ in 0..count {
                let fi = ch.pick(nf);
                let nested = ch.flag();
                let name = *ch.of(&["A", "B"]);
                let kind = ch.pick(if nested { 2 } else { 3 });
                items.push((fi, nested, name, kind));
            }
            let mut out = vec![];
            let mut names: BTreeMap<String, usize> = BTreeMap::new();
            for (fi, p) in files.iter().enumerate() {
                let full = |n: &str| match p {
                    Some(p) => format!("{}.{}", p, n),
                    None => n.to_string(),
                };
                let mut list = vec![];
                let mut inner = vec![];
                let mut at = 0;
                for (f, nested, name, kind) in &items {
                    if *f != fi {
                        continue;
                    }
                    let zero = format!("Z{}", names.values().sum::<usize>());
                    let e = enum_of(name, &[(&zero, 0)]);
                    if *nested {
                        if inner.is_empty() {
                            at = list.len();
                        }
                        *names.entry(full(&format!("M.{}", name))).or_insert(0) += 1;
                        inner.push(match kind {
                            0 => Member::Msg(msg(name, vec![])),
                            _ => Member::Enum(e),
                        });
                    } else {
                        *names.entry(full(name)).or_insert(0) += 1;
                        list.push(match kind {
                            0 => Item::Msg(msg(name, vec![])),
                            1 => Item::Enum(e),
                            _ => Item::Svc(Svc {
                                name: name.to_string(),
                                members: vec![],
                            }),
                        });
                    }
                }
                if !inner.is_empty() {
                    *names.entry(full("M")).or_insert(0) += 1;
                    list.insert(at, Item::Msg(msg("M", inner)));
                }
                out.push(file(*p, list));
            }
            judge(&out, &names, &files, st)
        },
    );

    // Clashes with the entry messages of maps.
    r.space(
        "map-clashes",
        0,
        "a map field next to every other kind of nested item or map with the same or a similar entry name, in both orders, or in the package that has the name of the message",
        |ch, st| {
            let map_name = *ch.of(&["a", "a_b", "aB"]);
            let entry = entry_name(map_name);
            let map = |name: &str, n: i64| {
                Member::Map(Map {
                    key: Kind::Int32,
                    value: Ty::Scalar(Kind::Int32),
                    name: name.to_string(),
                    num: num(n),
                    opts: vec![],
                })
            };
            let mut names: BTreeMap<String, usize> = BTreeMap::new();
            let mut add = |n: String| *names.entry(n).or_insert(0) += 1;
            add("P.M".to_string());
            add(format!("P.M.{}", entry));
            let variants = [entry.clone(), format!("{}x", entry), entry.to_lowercase(), "Entry".to_string()];
            let mut members = vec![map(map_name, 1)];
            let mut packages = vec![Some("P")];
            let mut extra = None;
            match ch.pick(4) {
                0 => {
                    let n = ch.of(&variants);
                    add(format!("P.M.{}", n));
                    members.push(Member::Msg(msg(n, vec![])));
                }
                1 => {
                    let n = ch.of(&variants);
                    add(format!("P.M.{}", n));
                    members.push(Member::Enum(enum_of(n, &[("Z", 0)])));
                }
                2 => {
                    let other = *ch.of(&["aB", "a_b", "AB", "A_B", "A", "b"]);
                    if other == map_name {
                        return Ok(());
                    }
                    add(format!("P.M.{}", entry_name(other)));
                    members.push(map(other, 2));
                }
                _ => {
                    let n = ch.of(&variants);
                    add(format!("P.M.{}", n));
                    packages.push(Some("P.M"));
                    extra = Some(file(
                        Some("P.M"),
                        vec![match ch.pick(3) {
                            0 => Item::Msg(msg(n, vec![])),
                            1 => Item::Enum(enum_of(n, &[("Z", 0)])),
                            _ => Item::Svc(Svc {
                                name: n.to_string(),
                                members: vec![],
                            }),
                        }],
                    ));
                }
            }
            if ch.flag() {
                members.reverse();
            }
            let mut out = vec![file(Some("P"), vec![Item::Msg(msg("M", members))])];
            out.extend(extra);
            if ch.flag() {
                out.reverse();
            }
            judge(&out, &names, &packages, st)
        },
    );

    // Many files.
    let sizes: Vec<usize> = if r.thorough() { (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect() } else { (1..=12).chain([16, 17, 31, 32, 33, 64, 65, 100, 256, 257]).collect() };
    r.space(
        "many-files",
        0,
        &format!("{} numbers of files up to 257 with a message, an enum and now and then a service each, in 5 patterns of packages, each message with a field of the types of the file 0, 1, 2 or half of all files further; without a clash, or one file more that repeats the name of an item of another file, in front of or behind them all", sizes.len()),
        |ch, st| {
            let n = *ch.of(&sizes);
            let pattern = ch.pick(5);
            let step = *ch.of(&[0usize, 1, 2, n / 2]);
            let package = |i: usize| -> Option<String> {
                match pattern {
                    0 => None,
                    1 => Some("P".to_string()),
                    2 => [None, Some("P".to_string()), Some("Q".to_string())][i % 3].clone(),
                    3 => Some(format!("P{}", i)),
                    _ => Some(vec!["P"; 1 + i % 7].join(".Q")),
                }
            };
            let full = |i: usize, name: &str| match package(i) {
                Some(p) => format!("{}.{}", p, name),
                None => name.to_string(),
            };
            let mut names: BTreeMap<String, usize> = BTreeMap::new();
            let mut out: Vec<File> = vec![];
            for i in 0..n {
                let j = (i + step) % n;
                let (x, e) = (full(j, &format!("X{}", j)), full(j, &format!("E{}", j)));
                let mut items = vec![
                    Item::Msg(msg(
                        &format!("X{}", i),
                        vec![
                            link("x", 1, Lab::Single, &format!(".{}", x), &x, false),
                            link("e", 2, Lab::Repeated, &format!(".{}", e), &e, true),
                        ],
                    )),
                    Item::Enum(enum_of(&format!("E{}", i), &[(&format!("V{}", i), 0)])),
                ];
                *names.entry(full(i, &format!("X{}", i))).or_insert(0) += 1;
                *names.entry(full(i, &format!("E{}", i))).or_insert(0) += 1;
                if i % 3 == 1 {
                    items.push(Item::Svc(Svc {
                        name: format!("S{}", i),
                        members: vec![SvcMember::Rpc(rpc("R", arg(false, &format!(".{}", x), &x), arg(true, &format!(".{}", x), &x)))],
                    }));
                    *names.entry(full(i, &format!("S{}", i))).or_insert(0) += 1;
                }
                out.push(file(package(i).as_deref(), items));
            }
            let clash = ch.pick(5);
            if clash > 0 {
                let at = *ch.of(&[0, 1 % n, n / 2, n - 1]);
                let name = format!("{}{}", ["X", "E", "S"][clash % 3], at);
                let item = match clash {
                    1 => Item::Svc(Svc {
                        name: name.clone(),
                        members: vec![],
                    }),
                    2 | 3 => Item::Msg(msg(&name, vec![])),
                    _ => Item::Enum(enum_of(&name, &[("Z", 0)])),
                };
                *names.entry(full(at, &name)).or_insert(0) += 1;
                let more = file(package(at).as_deref(), vec![item]);
                if ch.flag() {
                    out.push(more);
                } else {
                    out.insert(0, more);
                }
            }
            judge(&out, &names, &[], st)
        },
    );

    // One clash among many items.
    let big = r.by(12, 40);
    r.space(
        "clash-among-many",
        0,
        &format!("{} distinct items in one to three files, and one more with the name of any one of them, of any kind, at any position", big),
        |ch, st| {
            let clash = ch.pick(big + 1);
            let pos = ch.pick(big + 1);
            let kind = ch.pick(3);
            let nf = 1 + ch.pick(3);
            let mut names: BTreeMap<String, usize> = BTreeMap::new();
            let mut list: Vec<Item> = vec![];
            let mk = |name: &str, kind: usize, tag: usize| match kind {
                0 => Item::Msg(msg(name, vec![])),
                1 => Item::Enum(enum_of(name, &[(&format!("V{}", tag), 0)])),
                _ => Item::Svc(Svc {
                    name: name.to_string(),
                    members: vec![],
                }),
            };
            for i in 0..big {
                let name = format!("X{}", i);
                list.push(mk(&name, i % 3, i));
                *names.entry(format!("P.{}", name)).or_insert(0) += 1;
            }
            let extra = if clash < big { format!("X{}", clash) } else { "X".to_string() };
            *names.entry(format!("P.{}", extra)).or_insert(0) += 1;
            list.insert(pos, mk(&extra, kind, 1000));
            let per = list.len().div_ceil(nf);
            let out: Vec<File> = list
                .chunks(per)
                .map(|c| file(Some("P"), c.to_vec()))
                .collect();
            judge(&out, &names, &[Some("P")], st)
        },
    );
}

fn judge(
    files: &[File],
    names: &BTreeMap<String, usize>,
    packages: &[Option<&str>],
    st: &mut St,
) -> R
{
    let dups: Vec<&String> = names.iter().filter(|x| *x.1 > 1).map(|x| x.0).collect();
    let texts: Vec<String> = files.iter().map(text_of).collect();
    st.state(&texts);
    st.sample(|| show(&texts));
    st.steps += names.len() as u64;
    if dups.is_empty() {
        // An item with the name of a package is another matter.
        let clash = packages.iter().flatten().any(|p| {
            names
                .keys()
                .any(|n| p == n || p.starts_with(&format!("{}.", n)))
        });
        if clash {
            st.outcome("outside");
            return Ok(());
        }
        st.outcome("accepted");
        conform(files, st)?;
        return Ok(());
    }
    st.outcome("duplicate");
    st.traces += 1;
    match parse(&texts)? {
        Ok(_) => fail(format!(
            "the duplicates {:?} are accepted\n{}",
            dups,
            show(&texts)
        )),
        Err(ParseError::DuplicateType { name }) => {
            ensure!(
                dups.iter().any(|d| **d == name),
                "{:?} is reported as duplicate, not {:?}\n{}",
                name,
                dups,
                show(&texts)
            );
            Ok(())
        }
        Err(e) => fail(format!(
            "the duplicates {:?} are reported as {:?}\n{}",
            dups,
            e,
            show(&texts)
        )),
    }
}
