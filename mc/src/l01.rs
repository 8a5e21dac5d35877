//! L01: a lookup finds the item that was declared under exactly that key, and nothing under any
//! other key.

use crate::engine::*;
use crate::ensure;
use crate::model::Kind;
use crate::schema::*;
use protofish::context as pf;
use protofish::context::{Constant, Context, EnumField, EnumInfo, MessageField, MessageInfo, MessageRef, Package, TypeInfo, TypeParent, ValueType};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// Items by name

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum What
{
    Message,
    Enum,
    Service,
    /// A map field, which declares a message.
    Map,
}

/// An item: what it is, its name and the item that contains it.
#[derive(Clone, Debug)]
struct Decl
{
    what: What,
    name: &'static str,
    parent: Option<usize>,
}

/// Full names of the items.
fn full_names(pkg: Option<&str>, decls: &[Decl]) -> Vec<String>
{
    let mut out: Vec<String> = vec![];
    for d in decls {
        let scope = match d.parent {
            Some(p) => out[p].clone(),
            None => pkg.unwrap_or("").to_string(),
        };
        let name = match d.what {
            What::Map => entry_name(d.name),
            _ => d.name.to_string(),
        };
        out.push(join(&scope, &name));
    }
    out
}

fn msg_of(decls: &[Decl], at: usize) -> Msg
{
    let mut m = Msg {
        name: decls[at].name.to_string(),
        members: vec![],
    };
    for (i, d) in decls.iter().enumerate().filter(|(_, d)| d.parent == Some(at)) {
        m.members.push(match d.what {
            What::Message => Member::Msg(msg_of(decls, i)),
            What::Enum => Member::Enum(enum_of(d, i)),
            _ => Member::Map(Map {
                key: Kind::Int32,
                value: Ty::Scalar(Kind::Str),
                name: d.name.to_string(),
                num: num(i as i64 + 1),
                opts: vec![],
            }),
        });
    }
    m
}

fn enum_of(d: &Decl, i: usize) -> Enum
{
    Enum {
        name: d.name.to_string(),
        members: vec![EnumMember::Value {
            name: format!("Z{}", i),
            num: num(0),
            opts: vec![],
        }],
    }
}

fn file_of(pkg: Option<&str>, decls: &[Decl]) -> File
{
    let mut f = File {
        package: pkg.map(|p| p.to_string()),
        ..Default::default()
    };
    for (i, d) in decls.iter().enumerate().filter(|(_, d)| d.parent.is_none()) {
        f.items.push(match d.what {
            What::Enum => Item::Enum(enum_of(d, i)),
            What::Service => Item::Svc(Svc {
                name: d.name.to_string(),
                members: vec![],
            }),
            _ => Item::Msg(msg_of(decls, i)),
        });
    }
    f
}

/// Everything one edit away from a name, and more that might be taken for it.
fn near(name: &str, out: &mut BTreeSet<String>)
{
    let c: Vec<char> = name.chars().collect();
    out.insert(name.to_string());
    for i in 0..=c.len() {
        let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
        // Prefixes and suffixes.
        out.insert(a.clone());
        out.insert(b.clone());
        for x in [".", "..", "::", "/", " ", "\t", "\n", "\0", "_", "a", "A", "*", "?", "\u{200b}"] {
            out.insert(format!("{}{}{}", a, x, b));
        }
        if i < c.len() {
            let rest: String = c[i + 1..].iter().collect();
            out.insert(format!("{}{}", a, rest));
            for x in [
                c[i].to_ascii_lowercase(),
                c[i].to_ascii_uppercase(),
                '_',
                '.',
                '/',
                ' ',
                'é',
            ] {
                out.insert(format!("{}{}{}", a, x, rest));
            }
            if i + 1 < c.len() {
                let rest: String = c[i + 2..].iter().collect();
                out.insert(format!("{}{}{}{}", a, c[i + 1], c[i], rest));
            }
        }
    }
    out.insert(name.to_uppercase());
    out.insert(name.to_lowercase());
    out.insert(name.repeat(2));
    out.insert(format!("{0}.{0}", name));
    out.insert(format!("\"{}\"", name));
    out.insert(format!("type.googleapis.com/{}", name));
    out.insert(format!("{}Entry", name));
    out.insert(name.replace('.', "_"));
    out.insert(name.replace('_', "."));
    out.insert(name.replace('_', ""));
    out.insert(name.replace('.', ""));
    out.insert(name.replace('.', "::"));
    out.insert(name.split('.').rev().collect::<Vec<_>>().join("."));
}

const WORDS: [&str; 6] = ["a", "A", "b", "ab", "a_b", "A1"];

/// All names of up to three words.
fn universe() -> BTreeSet<String>
{
    let mut out = BTreeSet::new();
    let words = ["a", "A", "b", "ab", "a_b", "A1", "AEntry", "ABEntry", ""];
    for a in words {
        out.insert(a.to_string());
        for b in words {
            out.insert(format!("{}.{}", a, b));
            for c in words {
                out.insert(format!("{}.{}.{}", a, b, c));
            }
        }
    }
    out
}

/// Looks up every key by every function.
fn probe_items(ctx: &Context, items: &BTreeMap<String, What>, keys: &BTreeSet<String>) -> R
{
    for k in keys {
        let want = items.get(k).copied();
        let got = call("get_type", || ctx.get_type(k))?;
        let message = call("get_message", || ctx.get_message(k))?;
        let service = call("get_service", || ctx.get_service(k))?;
        let kind = match got {
            Some(TypeInfo::Message(_)) => Some(What::Message),
            Some(TypeInfo::Enum(_)) => Some(What::Enum),
            None => None,
        };
        let (want_type, want_msg, want_svc) = match want {
            Some(What::Message) | Some(What::Map) => (Some(What::Message), true, false),
            Some(What::Enum) => (Some(What::Enum), false, false),
            Some(What::Service) => (None, false, true),
            None => (None, false, false),
        };
        ensure!(
            kind == want_type,
            "get_type({:?}) finds {:?} ({:?}) instead of {:?}",
            k,
            kind,
            got.map(|t| t.full_name()),
            want_type
        );
        ensure!(
            message.is_some() == want_msg,
            "get_message({:?}) finds {:?}, but the name is of {:?}",
            k,
            message.map(|m| &m.full_name),
            want
        );
        ensure!(
            service.is_some() == want_svc,
            "get_service({:?}) finds {:?}, but the name is of {:?}",
            k,
            service.map(|s| &s.full_name),
            want
        );
        if let Some(t) = got {
            ensure!(t.full_name() == k, "get_type({:?}) finds {:?}", k, t.full_name());
            let same = match t {
                TypeInfo::Message(m) => {
                    let r = call("resolve_message", || ctx.resolve_message(m.self_ref))?;
                    std::ptr::eq(m, r) && message.map_or(false, |x| std::ptr::eq(m, x))
                }
                TypeInfo::Enum(e) => {
                    let r = call("resolve_enum", || ctx.resolve_enum(e.self_ref))?;
                    std::ptr::eq(e, r)
                }
            };
            ensure!(same, "{:?} and its reference lead to different items", k);
        }
        if let Some(s) = service {
            ensure!(s.full_name == *k, "get_service({:?}) finds {:?}", k, s.full_name);
        }
    }
    Ok(())
}

fn pick_decls(ch: &mut Ch, n: usize, services: bool, words: &[&'static str]) -> Vec<Decl>
{
    let mut decls: Vec<Decl> = vec![];
    for _ in 0..n {
        let parents: Vec<usize> = (0..decls.len()).filter(|i| decls[*i].what == What::Message).collect();
        let parent = match ch.pick(parents.len() + 1) {
            0 => None,
            p => Some(parents[p - 1]),
        };
        let what = match (parent.is_some(), services) {
            (true, true) => *ch.of(&[What::Message, What::Enum, What::Map]),
            (false, true) => *ch.of(&[What::Message, What::Enum, What::Service]),
            (_, false) => *ch.of(&[What::Message, What::Enum]),
        };
        decls.push(Decl {
            what,
            name: *ch.of(words),
            parent,
        });
    }
    decls
}

/// Whether no two items share a name, counting the fields of maps.
fn distinct(decls: &[Decl], full: &[String]) -> bool
{
    let mut seen = BTreeSet::new();
    decls.iter().zip(full).all(|(d, f)| {
        let other = match (d.what, d.parent) {
            (What::Map, Some(p)) => seen.insert(join(&full[p], d.name)),
            _ => true,
        };
        seen.insert(f.clone()) && other
    })
}

fn build(pkgs: &[(Option<&str>, &[Decl])], each: &mut dyn FnMut(&Context, usize, usize) -> R) -> Result<Context, Viol>
{
    let mut ctx = Context::new();
    for (pi, (pkg, decls)) in pkgs.iter().enumerate() {
        let pkg = match ctx.insert_package(Package::new(pkg.map(|p| p.to_string()))) {
            Ok(p) => p,
            Err(_) => return fail("a package that is not there cannot be inserted"),
        };
        let mut refs: Vec<Option<MessageRef>> = vec![];
        for (i, d) in decls.iter().enumerate() {
            let parent = match d.parent {
                None => TypeParent::Package(pkg),
                Some(p) => TypeParent::Message(refs[p].expect("a message")),
            };
            let r = match d.what {
                What::Message => call("insert_message", || {
                    ctx.insert_message(MessageInfo::new(d.name.to_string(), parent)).map(Some)
                })?,
                _ => call("insert_enum", || {
                    ctx.insert_enum(EnumInfo::new(d.name.to_string(), parent)).map(|_| None)
                })?,
            };
            match r {
                Ok(r) => refs.push(r),
                Err(e) => return fail(format!("{} cannot be inserted: {:?}", d.name, e)),
            }
            each(&ctx, pi, i)?;
        }
    }
    Ok(ctx)
}

fn items_by_name(r: &mut Runner)
{
    let packages = [None, Some("a"), Some("a.b"), Some("A")];
    let all = universe();
    let n = r.by(3, 4);
    let words: &[&'static str] = r.by(&WORDS[1..5], &WORDS[..4]);
    r.space(
        "parsed-items",
        0,
        &format!("every set of up to {} messages, enums, services and maps, at the top or nested, named {:?}, in 4 packages x {} names and everything one edit away from the declared ones", n, words, all.len()),
        |ch, st| {
            let pkg = *ch.of(&packages);
            let n = ch.pick(n + 1);
            let decls = pick_decls(ch, n, true, words);
            let full = full_names(pkg, &decls);
            if !distinct(&decls, &full) {
                return Ok(());
            }
            let items: BTreeMap<String, What> = full.iter().cloned().zip(decls.iter().map(|d| d.what)).collect();
            let texts = [text_of(&file_of(pkg, &decls))];
            let ctx = match parse(&texts)? {
                Ok(c) => c,
                Err(e) => return fail(format!("a valid file is rejected: {:?}\n{}", e, show(&texts))),
            };
            let mut keys = all.clone();
            full.iter().for_each(|f| near(f, &mut keys));
            pkg.iter().for_each(|p| near(p, &mut keys));
            st.state(&(pkg, &full));
            st.steps += keys.len() as u64 * 3;
            st.traces += 1;
            st.outcome("parsed items");
            st.sample(|| format!("{:?} probed with {} names", items, keys.len()));
            probe_items(&ctx, &items, &keys).map_err(|mut e| {
                e.msg = format!("{}\n{}", e.msg, show(&texts));
                e
            })
        },
    );
    r.space(
        "parsed-files",
        0,
        "two files of one item or one item in another, each in one of 4 packages, x the names above",
        |ch, st| {
            let words = &WORDS[..4];
            let mut items: BTreeMap<String, What> = BTreeMap::new();
            let mut files = vec![];
            let mut keys = all.clone();
            let mut pkgs = vec![];
            for _ in 0..2 {
                let pkg = *ch.of(&packages);
                let n = 1 + ch.pick(2);
                let decls = match n {
                    1 => pick_decls(ch, 1, true, words),
                    _ => vec![
                        Decl { what: What::Message, name: *ch.of(words), parent: None },
                        Decl { what: *ch.of(&[What::Message, What::Enum]), name: *ch.of(words), parent: Some(0) },
                    ],
                };
                for (f, d) in full_names(pkg, &decls).into_iter().zip(&decls) {
                    near(&f, &mut keys);
                    if items.insert(f, d.what).is_some() {
                        return Ok(());
                    }
                }
                files.push(file_of(pkg, &decls));
                pkgs.push(pkg);
            }
            // A package must not share its name with an item.
            if pkgs.iter().flatten().any(|p| {
                items.contains_key(*p) || items.contains_key(p.split('.').next().unwrap_or(""))
            }) {
                return Ok(());
            }
            let texts: Vec<String> = files.iter().map(text_of).collect();
            let ctx = match parse(&texts)? {
                Ok(c) => c,
                Err(e) => return fail(format!("valid files are rejected: {:?}\n{}", e, show(&texts))),
            };
            st.state(&(&pkgs, items.keys().collect::<Vec<_>>()));
            st.steps += keys.len() as u64 * 3;
            st.traces += 1;
            st.outcome("parsed files");
            probe_items(&ctx, &items, &keys).map_err(|mut e| {
                e.msg = format!("{}\n{}", e.msg, show(&texts));
                e
            })
        },
    );
    let n = r.by(3, 4);
    let words: &[&'static str] = r.by(&WORDS[..], &WORDS[..4]);
    r.space(
        "built-items",
        0,
        &format!("contexts built by hand in every order from every set of up to {} messages and enums named {:?} in 4 packages x the names above, looked up after every insertion", n, words),
        |ch, st| {
            let pkg = *ch.of(&packages);
            let n = ch.pick(n + 1);
            let decls = pick_decls(ch, n, false, words);
            let full = full_names(pkg, &decls);
            if !distinct(&decls, &full) {
                return Ok(());
            }
            let mut keys = BTreeSet::new();
            full.iter().for_each(|f| near(f, &mut keys));
            let mut last = all.clone();
            last.extend(keys.iter().cloned());
            let mut items = BTreeMap::new();
            st.state(&(pkg, &full));
            st.traces += 1;
            st.outcome("built items");
            let mut steps = 0;
            build(&[(pkg, &decls)], &mut |ctx, _, i| {
                items.insert(full[i].clone(), decls[i].what);
                let keys = if i + 1 == decls.len() { &last } else { &keys };
                steps += keys.len() as u64 * 3;
                probe_items(ctx, &items, keys).map_err(|mut e| {
                    e.msg = format!("{}, after inserting {:?}", e.msg, &full[..=i]);
                    e
                })
            })?;
            st.steps += steps;
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// Members by name and number

const FIELDS: [&str; 10] = ["a", "A", "ab", "a_b", "aB", "AB", "a1", "a_1", "_a", "a_"];

fn probe_fields(m: &MessageInfo, fields: &BTreeMap<u64, String>, more: &[u64]) -> Result<u64, Viol>
{
    let mut numbers: BTreeSet<u64> = more.iter().copied().collect();
    let mut names = BTreeSet::new();
    for (n, name) in fields {
        numbers.insert(*n);
        for d in 1..4 {
            numbers.insert(n.wrapping_add(d));
            numbers.insert(n.wrapping_sub(d));
        }
        for s in 0..64 {
            numbers.insert(n.wrapping_add(1 << s));
            numbers.insert(n.wrapping_sub(1 << s));
            numbers.insert(n ^ (1 << s));
            numbers.insert(n << s);
            numbers.insert(n >> s);
        }
        numbers.insert(!n);
        numbers.insert(n.wrapping_neg());
        near(name, &mut names);
        names.insert(n.to_string());
    }
    FIELDS.iter().for_each(|f| near(f, &mut names));
    for n in &numbers {
        let got = call("get_field", || m.get_field(*n))?;
        let want = fields.get(n);
        ensure!(
            got.map(|f| (&f.name, f.number)) == want.map(|w| (w, *n)),
            "get_field({}) finds {:?} instead of {:?} among {:?}",
            n,
            got.map(|f| (&f.name, f.number)),
            want,
            fields
        );
    }
    for name in &names {
        let got = call("get_field_by_name", || m.get_field_by_name(name))?;
        let want = fields.iter().find(|(_, w)| *w == name);
        ensure!(
            got.map(|f| (&f.number, &f.name)) == want,
            "get_field_by_name({:?}) finds {:?} instead of {:?} among {:?}",
            name,
            got.map(|f| (f.number, &f.name)),
            want,
            fields
        );
    }
    let all: Vec<(u64, &String)> = m.iter_fields().map(|f| (f.number, &f.name)).collect();
    let mut sorted = all.clone();
    sorted.sort();
    ensure!(
        sorted.len() == fields.len() && sorted.iter().all(|(n, name)| fields.get(n) == Some(*name)),
        "iter_fields gives {:?} of {:?}",
        all,
        fields
    );
    Ok((numbers.len() + names.len()) as u64)
}

fn field_numbers(r: &mut Runner)
{
    let numbers: Vec<u64> = vec![
        1, 2, 3, 15, 16, 17, 127, 128, 129, 255, 256, 257, 2047, 2048, 18999, 20000, 32767, 32768, 65535, 65536, 65537,
        (1 << 24) + 1, (1 << 28) - 1, 1 << 28, (1 << 29) - 2, (1 << 29) - 1,
    ];
    let big: Vec<u64> = numbers
        .iter()
        .copied()
        .chain([
            0,
            1 << 29,
            (1 << 31) - 1,
            1 << 31,
            (1 << 31) + 1,
            (1 << 32) - 1,
            1 << 32,
            (1 << 32) + 1,
            1 << 53,
            (1 << 53) + 1,
            (1 << 61) - 1,
            1 << 61,
            1 << 63,
            (1 << 63) + 1,
            u64::MAX - 1,
            u64::MAX,
        ])
        .collect();
    let n = 3;
    r.space(
        "field-numbers",
        0,
        &format!("messages with every sequence of up to {} of {} field numbers (parsed) or {} (built) x field names a, a_b, aB with json names and oneofs x every number one bit, shift or step away", n, numbers.len(), big.len()),
        |ch, st| {
            let parsed = ch.flag();
            let numbers = if parsed { &numbers } else { &big };
            let n = ch.pick(n + 1);
            let mut fields: BTreeMap<u64, String> = BTreeMap::new();
            let mut order = vec![];
            for i in 0..n {
                let num = *ch.of(numbers);
                let name = ["a", "a_b", "aB"][i].to_string();
                if fields.insert(num, name.clone()).is_some() {
                    return Ok(());
                }
                order.push((num, name));
            }
            st.state(&(parsed, &order));
            st.outcome("field numbers");
            st.traces += 1;
            let c;
            let built;
            let m = if parsed {
                let members = order
                    .iter()
                    .enumerate()
                    .map(|(i, (num, name))| {
                        let mut f = scalar(Kind::Int32, name, *num as i64);
                        f.opts.push(opt("json_name", "\"ab\"", Constant::String("ab".into())));
                        match i {
                            1 => Member::Oneof(Oneof {
                                name: "ab".to_string(),
                                members: vec![OneofMember::Field(f)],
                            }),
                            _ => Member::Field(f),
                        }
                    })
                    .collect();
                let texts = [text_of(&File {
                    items: vec![Item::Msg(Msg { name: "M".to_string(), members })],
                    ..Default::default()
                })];
                c = match parse(&texts)? {
                    Ok(c) => c,
                    Err(e) => return fail(format!("a valid file is rejected: {:?}\n{}", e, show(&texts))),
                };
                match c.get_message("M") {
                    Some(m) => m,
                    None => return fail("M is not there"),
                }
            } else {
                let mut ctx = Context::new();
                let p = ctx.insert_package(Package::new(None)).or_else(|_| fail("no package"))?;
                let mut m = MessageInfo::new("M".to_string(), TypeParent::Package(p));
                for (num, name) in &order {
                    let f = MessageField::new(name.clone(), *num, ValueType::Int32);
                    if call("add_field", || m.add_field(f))?.is_err() {
                        return fail(format!("field {} of {:?} is rejected", num, order));
                    }
                }
                built = m;
                &built
            };
            st.steps += probe_fields(m, &fields, numbers)?;
            Ok(())
        },
    );
    let n = 3;
    r.space(
        "field-names",
        0,
        &format!("messages with every sequence of up to {} of the field names {:?}, parsed and built, plain or in a oneof x every name one edit away", n, FIELDS),
        |ch, st| {
            let parsed = ch.flag();
            let names: &[&str] = if parsed { &FIELDS[..8] } else { &FIELDS };
            let n = ch.pick(n + 1);
            let oneof = ch.pick(n + 1);
            let mut fields = BTreeMap::new();
            let mut members = vec![];
            let mut inner = vec![];
            let mut m = {
                let mut ctx = Context::new();
                let p = ctx.insert_package(Package::new(None)).or_else(|_| fail("no package"))?;
                MessageInfo::new("M".to_string(), TypeParent::Package(p))
            };
            let oref = m.add_oneof(pf::Oneof::new("o".to_string()));
            for i in 0..n {
                let name = *ch.of(names);
                if fields.values().any(|v: &String| v == name) {
                    return Ok(());
                }
                let num = [7u64, 3, 5][i];
                fields.insert(num, name.to_string());
                let mut f = MessageField::new(name.to_string(), num, ValueType::Bool);
                let s = scalar(Kind::Bool, name, num as i64);
                if i < oneof {
                    f.oneof = oref.as_ref().ok().copied();
                    inner.push(OneofMember::Field(s));
                } else {
                    members.push(Member::Field(s));
                }
                if !parsed && call("add_field", || m.add_field(f))?.is_err() {
                    return fail(format!("field {} is rejected", name));
                }
            }
            if !inner.is_empty() {
                members.insert(0, Member::Oneof(Oneof { name: "o".to_string(), members: inner }));
            }
            st.state(&(parsed, oneof, fields.values().collect::<Vec<_>>()));
            st.outcome("field names");
            st.traces += 1;
            if parsed {
                let texts = [text_of(&File {
                    items: vec![Item::Msg(Msg { name: "M".to_string(), members })],
                    ..Default::default()
                })];
                let c = match parse(&texts)? {
                    Ok(c) => c,
                    Err(e) => return fail(format!("a valid file is rejected: {:?}\n{}", e, show(&texts))),
                };
                match c.get_message("M") {
                    Some(m) => st.steps += probe_fields(m, &fields, &[])?,
                    None => return fail("M is not there"),
                }
            } else {
                st.steps += probe_fields(&m, &fields, &[])?;
            }
            Ok(())
        },
    );
}

fn enum_values(r: &mut Runner)
{
    let small: Vec<i64> = vec![
        0, 1, 2, 3, -1, -2, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536,
        i32::MAX as i64 - 1,
        i32::MAX as i64,
        i32::MIN as i64,
        i32::MIN as i64 + 1,
    ];
    let big: Vec<i64> = small
        .iter()
        .copied()
        .chain([1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, -(1 << 32), 1 << 53, i64::MAX - 1, i64::MAX, i64::MIN, i64::MIN + 1])
        .collect();
    let n = 3;
    r.space(
        "enum-values",
        0,
        &format!("enums with every sequence of up to {} of {} values (parsed) or {} (built) x every value one bit, shift or step away", n, small.len(), big.len()),
        |ch, st| {
            let parsed = ch.flag();
            let values = if parsed { &small } else { &big };
            let n = ch.pick(n + 1);
            if parsed && n == 0 {
                return Ok(());
            }
            let mut all: BTreeMap<i64, String> = BTreeMap::new();
            let mut order = vec![];
            for i in 0..n {
                let v = *ch.of(values);
                let name = format!("V{}", i);
                if all.insert(v, name.clone()).is_some() {
                    return Ok(());
                }
                order.push((v, name));
            }
            st.state(&(parsed, &order));
            st.outcome("enum values");
            st.traces += 1;
            let c;
            let built;
            let e = if parsed {
                let members = order
                    .iter()
                    .map(|(v, name)| EnumMember::Value { name: name.clone(), num: num(*v), opts: vec![] })
                    .collect();
                let texts = [text_of(&File {
                    items: vec![Item::Enum(Enum { name: "E".to_string(), members })],
                    ..Default::default()
                })];
                c = match parse(&texts)? {
                    Ok(c) => c,
                    Err(e) => return fail(format!("a valid file is rejected: {:?}\n{}", e, show(&texts))),
                };
                match c.get_type("E") {
                    Some(TypeInfo::Enum(e)) => e,
                    _ => return fail("E is not there"),
                }
            } else {
                let mut ctx = Context::new();
                let p = ctx.insert_package(Package::new(None)).or_else(|_| fail("no package"))?;
                let mut e = EnumInfo::new("E".to_string(), TypeParent::Package(p));
                for (v, name) in &order {
                    if call("add_field", || e.add_field(EnumField::new(name.clone(), *v)))?.is_err() {
                        return fail(format!("value {} of {:?} is rejected", v, order));
                    }
                }
                built = e;
                &built
            };
            let mut probes: BTreeSet<i64> = big.iter().copied().collect();
            for (v, _) in &order {
                for s in 0..64 {
                    probes.insert(v.wrapping_add(1 << s));
                    probes.insert(v.wrapping_sub(1 << s));
                    probes.insert(v ^ (1 << s));
                    probes.insert(v << s);
                    probes.insert(v >> s);
                }
                probes.insert(v.wrapping_neg());
                probes.insert(!v);
                probes.insert(*v as i8 as i64);
                probes.insert(*v as u8 as i64);
                probes.insert(*v as i16 as i64);
                probes.insert(*v as u16 as i64);
                probes.insert(*v as i32 as i64);
                probes.insert(*v as u32 as i64);
            }
            st.steps += probes.len() as u64;
            for p in probes {
                let got = call("get_field_by_value", || e.get_field_by_value(p))?;
                let want = all.get(&p);
                ensure!(
                    got.map(|f| (&f.name, f.value)) == want.map(|w| (w, p)),
                    "get_field_by_value({}) finds {:?} instead of {:?} among {:?}",
                    p,
                    got.map(|f| (&f.name, f.value)),
                    want,
                    order
                );
            }
            Ok(())
        },
    );
}

fn rpcs_and_oneofs(r: &mut Runner)
{
    let n = r.by(4, 6);
    r.space(
        "rpcs",
        0,
        &format!("services with every sequence of up to {} of the operations {:?} next to another service x every name one edit away", n, FIELDS),
        |ch, st| {
            let n = ch.pick(n + 1);
            let mut names: Vec<&str> = vec![];
            for _ in 0..n {
                let name = *ch.of(&FIELDS[..8]);
                if names.contains(&name) {
                    return Ok(());
                }
                names.push(name);
            }
            let args = ["M", "N"];
            let rpc = |i: usize, name: &str| {
                SvcMember::Rpc(Rpc {
                    name: name.to_string(),
                    input: arg(i % 2 == 0, args[i % 2], args[i % 2]),
                    output: arg(i % 3 == 0, args[i / 2 % 2], args[i / 2 % 2]),
                    body: None,
                })
            };
            let svc = |name: &str, members| {
                Item::Svc(Svc { name: name.to_string(), members })
            };
            let texts = [text_of(&File {
                package: Some("p".to_string()),
                items: vec![
                    svc("S", names.iter().enumerate().map(|(i, n)| rpc(i, n)).collect()),
                    svc("T", vec![rpc(0, "a"), rpc(1, "z"), rpc(2, "ab")]),
                    Item::Msg(Msg { name: "M".to_string(), members: vec![] }),
                    Item::Msg(Msg { name: "N".to_string(), members: vec![] }),
                ],
                ..Default::default()
            })];
            let ctx = match parse(&texts)? {
                Ok(c) => c,
                Err(e) => return fail(format!("a valid file is rejected: {:?}\n{}", e, show(&texts))),
            };
            let mut keys = BTreeSet::new();
            FIELDS.iter().for_each(|f| near(f, &mut keys));
            keys.extend(["M", "N", "z", "S", "T", "p", "p.S.a", "S.a", "p.S/a", "/p.S/a"].map(|s| s.to_string()));
            st.state(&names);
            st.outcome("rpcs");
            st.traces += 1;
            st.steps += keys.len() as u64 * 2;
            for (s, names) in [("p.S", &names[..]), ("p.T", &["a", "z", "ab"])] {
                let svc = match ctx.get_service(s) {
                    Some(s) => s,
                    None => return fail(format!("service {} is not found\n{}", s, show(&texts))),
                };
                for k in &keys {
                    let got = call("rpc_by_name", || svc.rpc_by_name(k))?;
                    let want = names.iter().position(|n| n == k);
                    ensure!(
                        got.map(|r| r.name.as_str()) == want.map(|_| k.as_str()),
                        "rpc_by_name({:?}) finds {:?} in {} with {:?}",
                        k,
                        got.map(|r| &r.name),
                        s,
                        names
                    );
                    if let (Some(r), Some(i)) = (got, want) {
                        ensure!(
                            std::ptr::eq(r, &svc.rpcs[i])
                                && r.input.stream == (i % 2 == 0)
                                && r.output.stream == (i % 3 == 0)
                                && ctx.resolve_message(r.input.message).name == args[i % 2]
                                && ctx.resolve_message(r.output.message).name == args[i / 2 % 2],
                            "rpc_by_name({:?}) finds {:?} for operation {} of {}",
                            k,
                            r,
                            i,
                            s
                        );
                    }
                }
            }
            Ok(())
        },
    );
    let n = r.by(4, 6);
    r.space(
        "oneofs",
        0,
        &format!("two messages with up to {} oneofs of up to 2 fields each, between plain fields, parsed and built: every oneof reference on both", n),
        |ch, st| {
            let parsed = ch.flag();
            let mut shape: Vec<Vec<usize>> = vec![];
            for _ in 0..2 {
                let n = ch.pick(n + 1);
                shape.push((0..n).map(|_| 1 + ch.pick(2)).collect());
            }
            let lead = ch.flag();
            let mut msgs = vec![];
            let mut infos = vec![];
            let mut base = Context::new();
            let p = base.insert_package(Package::new(None)).or_else(|_| fail("no package"))?;
            for (mi, s) in shape.iter().enumerate() {
                let mut members = vec![];
                let mut info = MessageInfo::new(format!("M{}", mi), TypeParent::Package(p));
                let mut number = 1;
                for (i, k) in s.iter().enumerate() {
                    let mut of = vec![];
                    let oref = match info.add_oneof(pf::Oneof::new(format!("o{}", i))) {
                        Ok(r) => r,
                        Err(e) => return fail(format!("a oneof is rejected: {:?}", e)),
                    };
                    for j in 0..*k {
                        let name = format!("f{}_{}", i, j);
                        of.push(OneofMember::Field(scalar(Kind::Bool, &name, number)));
                        let mut f = MessageField::new(name, number as u64, ValueType::Bool);
                        f.oneof = Some(oref);
                        if info.add_field(f).is_err() {
                            return fail("a field of a oneof is rejected");
                        }
                        number += 1;
                    }
                    members.push(Member::Oneof(Oneof { name: format!("o{}", i), members: of }));
                    if lead {
                        members.push(Member::Field(scalar(Kind::Bool, &format!("p{}", i), number)));
                        let f = MessageField::new(format!("p{}", i), number as u64, ValueType::Bool);
                        if info.add_field(f).is_err() {
                            return fail("a field is rejected");
                        }
                        number += 1;
                    }
                }
                msgs.push(Item::Msg(Msg { name: format!("M{}", mi), members }));
                infos.push(info);
            }
            let ctx = if parsed {
                let texts = [text_of(&File { items: msgs, ..Default::default() })];
                match parse(&texts)? {
                    Ok(c) => c,
                    Err(e) => return fail(format!("a valid file is rejected: {:?}\n{}", e, show(&texts))),
                }
            } else {
                for i in infos {
                    if base.insert_message(i).is_err() {
                        return fail("a message is rejected");
                    }
                }
                base
            };
            st.state(&(parsed, lead, &shape));
            st.outcome("oneofs");
            st.traces += 1;
            let ms = [ctx.get_message("M0"), ctx.get_message("M1")];
            let (a, b) = match ms {
                [Some(a), Some(b)] => (a, b),
                _ => return fail("a message is not there"),
            };
            for (m, s) in [(a, &shape[0]), (b, &shape[1])] {
                ensure!(m.oneofs.len() == s.len(), "{} has {} oneofs", m.name, m.oneofs.len());
                for o in &m.oneofs {
                    st.steps += 1;
                    match call("get_oneof", || m.get_oneof(o.self_ref))? {
                        Some(x) => ensure!(std::ptr::eq(x, o), "get_oneof finds {} for {}", x.name, o.name),
                        None => return fail(format!("get_oneof does not find {}", o.name)),
                    }
                }
                for (i, k) in s.iter().enumerate() {
                    for j in 0..*k {
                        st.steps += 1;
                        let name = format!("f{}_{}", i, j);
                        let f = m.get_field_by_name(&name);
                        let o = f.and_then(|f| f.oneof).and_then(|o| m.get_oneof(o));
                        ensure!(
                            o.map(|o| o.name.as_str()) == Some(format!("o{}", i).as_str()),
                            "{} is of oneof {:?} instead of o{}",
                            name,
                            o.map(|o| &o.name),
                            i
                        );
                    }
                }
            }
            // References beyond what a message has.
            for (m, other) in [(a, b), (b, a)] {
                for o in other.oneofs.iter().skip(m.oneofs.len()) {
                    st.steps += 1;
                    let got = call("get_oneof", || m.get_oneof(o.self_ref))?;
                    ensure!(
                        got.is_none(),
                        "get_oneof finds {:?} for a reference to oneof {} of {}",
                        got.map(|o| &o.name),
                        m.oneofs.len(),
                        m.oneofs.len()
                    );
                }
            }
            Ok(())
        },
    );
}

pub fn l01(r: &mut Runner)
{
    items_by_name(r);
    field_numbers(r);
    enum_values(r);
    rpcs_and_oneofs(r);
    crate::many::looked_up(r);
}
