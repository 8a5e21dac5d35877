//! Files with many of everything: the counts around which limits, indexes and buffers tend to change.

use crate::b;
use crate::engine::*;
use crate::ensure;
use crate::model::Kind;
use crate::p02::{enum_of, file, msg, rpc};
use crate::schema::*;
use protofish::context::{Context, EnumInfo, MessageInfo, Package, TypeInfo, TypeParent, TypeRef};
use std::collections::BTreeSet;

pub const COUNTS: [usize; 40] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 21, 24, 25, 26, 31, 32, 33, 40, 41,
    50, 51, 63, 64, 65, 66, 100, 101, 128, 129, 200, 257, 300,
];

pub const SHAPES: [&str; 12] = [
    "messages and enums in one package",
    "packages of one message and enum each",
    "types nested in one message",
    "a chain of nested messages",
    "a service with many operations",
    "many services",
    "maps",
    "oneofs",
    "enum values",
    "files of two packages",
    "messages with nested types in groups of ten",
    "fields",
];

fn field(lab: Lab, ty: Ty, name: &str, n: i64) -> Field
{
    Field {
        lab,
        ty,
        name: name.to_string(),
        num: num(n),
        opts: vec![],
    }
}

/// A reference, written in full or by the simple name.
fn to(full: &str, is_enum: bool, simple: bool) -> Ty
{
    let spelled = match simple {
        true => full.rsplit('.').next().unwrap().to_string(),
        false => format!(".{}", full),
    };
    to_ref(&spelled, full, is_enum)
}

fn one_value(name: &str) -> Enum
{
    enum_of(name, &[(&format!("{}_ZERO", name), 0)])
}

/// The `n` things in this shape.
pub fn files(shape: usize, n: usize) -> Vec<File>
{
    let enumish = |i: usize| i % 3 == 2;
    let far = |i: usize| (i * 7 + 3) % n;
    match shape {
        0 => {
            let refer = |i: usize, simple: bool| to(&format!("p.T{}", i), enumish(i), simple);
            let items = (0..n)
                .map(|i| {
                    let name = format!("T{}", i);
                    if enumish(i) {
                        return Item::Enum(one_value(&name));
                    }
                    Item::Msg(msg(
                        &name,
                        vec![
                            Member::Field(field(Lab::Single, refer(i, true), "own", 1)),
                            Member::Field(field(Lab::Repeated, refer((i + 1) % n, true), "next", 2)),
                            Member::Field(field(Lab::Optional, refer(far(i), false), "far", 3)),
                            Member::Field(field(Lab::Single, refer(n - 1 - i, false), "across", 4)),
                        ],
                    ))
                })
                .collect();
            vec![file(Some("p"), items)]
        }
        1 => (0..n)
            .map(|i| {
                let f = far(i);
                file(
                    Some(&format!("p{}", i)),
                    vec![
                        Item::Enum(one_value("E")),
                        Item::Msg(msg(
                            "T",
                            vec![
                                Member::Field(field(Lab::Single, to(&format!("p{}.E", i), true, true), "own", 1)),
                                Member::Field(field(Lab::Single, to(&format!("p{}.T", f), false, false), "far", 2)),
                                Member::Field(field(Lab::Single, to(&format!("p{}.E", n - 1 - i), true, false), "across", 3)),
                            ],
                        )),
                    ],
                )
            })
            .collect(),
        2 => {
            let mut members: Vec<Member> = (0..n)
                .map(|i| match enumish(i) {
                    true => Member::Enum(one_value(&format!("T{}", i))),
                    false => Member::Msg(msg(&format!("T{}", i), vec![])),
                })
                .collect();
            for i in 0..n {
                let full = format!("p.Outer.T{}", i);
                members.push(Member::Field(field(Lab::Single, to(&full, enumish(i), i % 2 == 0), &format!("f{}", i), i as i64 + 1)));
            }
            vec![file(Some("p"), vec![Item::Msg(msg("Outer", members)), Item::Msg(msg("After", vec![]))])]
        }
        3 => {
            // Parsing is recursive; P07 has the deep ones.
            let n = n.min(60);
            let full = |i: usize| -> String { (0..=i).map(|k| format!("M{}", k)).collect::<Vec<_>>().join(".") };
            let mut inner: Option<Msg> = None;
            for i in (0..n).rev() {
                let mut members = vec![Member::Field(field(Lab::Single, to(&full(far(i) % n), false, far(i) % n <= i + 1), "far", 1))];
                members.extend(inner.take().map(Member::Msg));
                inner = Some(msg(&format!("M{}", i), members));
            }
            vec![file(None, vec![Item::Msg(inner.unwrap())])]
        }
        4 => {
            let rpcs = (0..n)
                .map(|i| {
                    let a = |k: usize, s: bool| {
                        let full = format!("p.T{}", k);
                        arg(s, if k % 2 == 0 { &full[2..] } else { &full }, &full)
                    };
                    SvcMember::Rpc(rpc(&format!("R{}", i), a(i, i % 2 == 0), a(far(i), i % 3 == 0)))
                })
                .collect();
            let mut items: Vec<Item> = (0..n).map(|i| Item::Msg(msg(&format!("T{}", i), vec![]))).collect();
            items.insert(n / 2, Item::Svc(Svc { name: "S".to_string(), members: rpcs }));
            vec![file(Some("p"), items)]
        }
        5 => {
            let mut items: Vec<Item> = (0..n)
                .map(|i| {
                    let r = |name: &str, k: usize| {
                        let (x, y) = (format!("M{}", k % 3), format!("M{}", (k + 1) % 3));
                        SvcMember::Rpc(rpc(name, arg(k % 2 == 0, &x, &x), arg(k % 5 == 0, &y, &y)))
                    };
                    Item::Svc(Svc { name: format!("S{}", i), members: vec![r("A", i), r("B", i + 1)] })
                })
                .collect();
            for k in 0..3 {
                items.push(Item::Msg(msg(&format!("M{}", k), vec![])));
            }
            vec![file(None, items)]
        }
        6 => {
            let mut members: Vec<Member> = vec![];
            for i in 0..n {
                members.push(Member::Map(Map {
                    key: [Kind::Int32, Kind::Str, Kind::Bool][i % 3],
                    value: match i % 3 {
                        0 => to("p.Outer", false, true),
                        1 => to("p.E", true, false),
                        _ => Ty::Scalar(Kind::Bytes),
                    },
                    name: format!("m{}", i),
                    num: num(i as i64 + 1),
                    opts: vec![],
                }));
            }
            vec![file(Some("p"), vec![Item::Msg(msg("Outer", members)), Item::Enum(one_value("E"))])]
        }
        7 => {
            let mut members: Vec<Member> = vec![];
            let mut number = 1;
            for i in 0..n {
                let mut of = vec![];
                for j in 0..1 + i % 2 {
                    of.push(OneofMember::Field(scalar(Kind::Bool, &format!("f{}_{}", i, j), number)));
                    number += 1;
                }
                members.push(Member::Oneof(Oneof { name: format!("o{}", i), members: of }));
                if i % 4 == 0 {
                    members.push(Member::Field(scalar(Kind::Int32, &format!("p{}", i), number)));
                    number += 1;
                }
            }
            vec![file(None, vec![Item::Msg(msg("M", members)), Item::Msg(msg("N", vec![]))])]
        }
        8 => {
            let names: Vec<(String, i64)> = (0..n)
                .map(|i| (format!("V{}", i), if i == 0 { 0 } else if i % 2 == 0 { i as i64 } else { -(i as i64) * 1000 }))
                .collect();
            let list: Vec<(&str, i64)> = names.iter().map(|(n, v)| (n.as_str(), *v)).collect();
            let inside = vec![
                Member::Enum(enum_of("E", &[("IN_ZERO", 0)])),
                Member::Field(field(Lab::Single, to("E", true, false), "e", 1)),
            ];
            vec![file(None, vec![Item::Enum(enum_of("E", &list)), Item::Msg(msg("M", inside))])]
        }
        9 => (0..n)
            .map(|i| {
                let pkg = |i: usize| ["p", "q.r"][i % 2];
                let f = far(i);
                let full = format!("{}.T{}", pkg(f), f);
                let own = format!("{}.T{}", pkg(i), i);
                file(
                    Some(pkg(i)),
                    vec![Item::Msg(msg(
                        &format!("T{}", i),
                        vec![
                            Member::Field(field(Lab::Single, to(&full, false, pkg(f) == pkg(i)), "far", 1)),
                            Member::Field(field(Lab::Repeated, to(&own, false, true), "own", 2)),
                        ],
                    ))],
                )
            })
            .collect(),
        10 => {
            let mut items = vec![];
            for g in 0..(n + 9) / 10 {
                let mut members = vec![];
                for i in g * 10..n.min(g * 10 + 10) {
                    let f = far(i);
                    let full = format!("p.G{}.T{}", f / 10, f % 10);
                    members.push(Member::Msg(msg(
                        &format!("T{}", i % 10),
                        vec![Member::Field(field(Lab::Single, to(&full, false, f / 10 == g), "far", 1))],
                    )));
                }
                items.push(Item::Msg(msg(&format!("G{}", g), members)));
            }
            vec![file(Some("p"), items)]
        }
        _ => {
            let members = (0..n)
                .map(|i| {
                    let lab = [Lab::Single, Lab::Repeated, Lab::Optional][i % 3];
                    let k = crate::model::SCALARS[i % crate::model::SCALARS.len()];
                    Member::Field(field(lab, Ty::Scalar(k), &format!("f{}", i), (i as i64 * 37) % 1009 + 1))
                })
                .collect();
            vec![file(None, vec![Item::Msg(msg("M", members))])]
        }
    }
}

pub fn describe() -> String
{
    format!("{} numbers up to {} of each of: {}", COUNTS.len(), COUNTS[COUNTS.len() - 1], SHAPES.join(", "))
}

/// One set of files.
pub fn pick(ch: &mut Ch, st: &mut St) -> (usize, usize, Vec<File>)
{
    let n = *ch.of(&COUNTS);
    let shape = ch.pick(SHAPES.len());
    st.state(&(shape, n));
    st.outcome(SHAPES[shape]);
    (shape, n, files(shape, n))
}

/// Parsed, the files give what they declare.
pub fn conforming(r: &mut Runner)
{
    r.space("many", 0, &describe(), |ch, st| {
        let (.., files) = pick(ch, st);
        conform(&files, st)?;
        Ok(())
    });
}

pub fn consistent(r: &mut Runner)
{
    r.space("many", 0, &format!("{}: the parsed context, and with insertions", describe()), |ch, st| {
        let (.., files) = pick(ch, st);
        b::consistent_files(&files, st)
    });
}

pub fn hand_built(r: &mut Runner)
{
    r.space("many", 0, &describe(), |ch, st| {
        let (.., files) = pick(ch, st);
        b::hand_built(&files, st)
    });
}

/// Names that are almost this one.
fn close(name: &str, out: &mut BTreeSet<String>)
{
    out.insert(name.to_string());
    out.insert(name.to_uppercase());
    out.insert(name.to_lowercase());
    for s in ["x", "0", ".", " ", "_", "Entry", "\0"] {
        out.insert(format!("{}{}", name, s));
    }
    for s in ["x", ".", "p.", "_", " ", "/"] {
        out.insert(format!("{}{}", s, name));
    }
    out.insert(name.replace('.', "_"));
    out.insert(name.replace('.', "/"));
    out.insert(name[..name.len() - 1].to_string());
    out.insert(name[1..].to_string());
    for (i, _) in name.match_indices('.') {
        out.insert(name[i + 1..].to_string());
        out.insert(name[..i].to_string());
        out.insert(name[i..].to_string());
    }
}

/// Everything declared is found, and nothing is by a name or number close to a declared one.
pub fn lookups(ctx: &Context, v: &View, services: bool, st: &mut St) -> R
{
    let mut keys = BTreeSet::new();
    let names = v.msgs.keys().chain(v.enums.keys()).chain(v.svcs.keys());
    names.for_each(|n| close(n, &mut keys));
    call("lookup", || {
        for k in &keys {
            let t = ctx.get_type(k);
            let m = ctx.get_message(k);
            let s = ctx.get_service(k);
            let (want_m, want_e) = (v.msgs.contains_key(k), v.enums.contains_key(k));
            let found = match t {
                Some(TypeInfo::Message(x)) => want_m && x.full_name == *k && std::ptr::eq(ctx.resolve_message(x.self_ref), x),
                Some(TypeInfo::Enum(x)) => want_e && x.full_name == *k && std::ptr::eq(ctx.resolve_enum(x.self_ref), x),
                None => !want_m && !want_e,
            };
            ensure!(found, "get_type({:?}) finds {:?}", k, t.map(|t| t.full_name()));
            ensure!(
                m.map(|m| &m.full_name) == want_m.then_some(k),
                "get_message({:?}) finds {:?}",
                k,
                m.map(|m| &m.full_name)
            );
            ensure!(
                s.map(|s| &s.full_name) == (services && v.svcs.contains_key(k)).then_some(k),
                "get_service({:?}) finds {:?}",
                k,
                s.map(|s| &s.full_name)
            );
        }
        for (full, mv) in &v.msgs {
            let m = match ctx.get_message(full) {
                Some(m) => m,
                None => return fail(format!("{} is not found", full)),
            };
            let mut keys = BTreeSet::new();
            mv.fields.values().for_each(|f| close(&f.name, &mut keys));
            mv.oneofs.keys().for_each(|o| close(o, &mut keys));
            for k in &keys {
                let want = mv.fields.iter().find(|(_, f)| f.name == *k).map(|(n, _)| *n);
                let got = m.get_field_by_name(k);
                ensure!(
                    got.map(|f| f.number) == want && got.map_or(true, |f| f.name == *k),
                    "get_field_by_name({:?}) of {} finds {:?}",
                    k,
                    full,
                    got
                );
            }
            let most = mv.fields.keys().max().copied().unwrap_or(0);
            for n in (0..most + 3).chain((0..64).flat_map(|b| mv.fields.keys().take(3).map(move |n| n ^ (1 << b)))) {
                let got = m.get_field(n);
                ensure!(
                    got.map(|f| (f.number, &f.name)) == mv.fields.get(&n).map(|f| (n, &f.name)),
                    "get_field({}) of {} finds {:?}",
                    n,
                    full,
                    got
                );
            }
            ensure!(m.oneofs.len() == mv.oneofs.len(), "{} has {} oneofs", full, m.oneofs.len());
            for o in &m.oneofs {
                let got = m.get_oneof(o.self_ref);
                ensure!(
                    got.map_or(false, |x| std::ptr::eq(x, o)),
                    "get_oneof of {} finds {:?} for {:?}",
                    full,
                    got,
                    o
                );
            }
            let mut numbers = BTreeSet::new();
            for f in m.iter_fields() {
                ensure!(numbers.insert(f.number), "iter_fields of {} has {} twice", full, f.number);
                let o = f.oneof.and_then(|o| m.get_oneof(o)).map(|o| o.name.clone());
                ensure!(
                    mv.fields.get(&f.number).map_or(false, |w| w.name == f.name && w.oneof == o),
                    "iter_fields of {} has {:?}",
                    full,
                    f
                );
            }
            ensure!(numbers.len() == mv.fields.len(), "iter_fields of {} has {} fields", full, numbers.len());
        }
        for (full, ev) in &v.enums {
            let e = match ctx.get_type(full) {
                Some(TypeInfo::Enum(e)) => e,
                _ => return fail(format!("{} is not found", full)),
            };
            let mut numbers: BTreeSet<i64> = ev.values.keys().flat_map(|n| n - 1..=n + 1).collect();
            for n in ev.values.keys().take(4) {
                numbers.extend((0..64).map(|b| n ^ (1 << b)));
            }
            for n in numbers {
                let got = e.get_field_by_value(n);
                let ok = match (got, ev.values.get(&n)) {
                    (None, None) => true,
                    (Some(f), Some(l)) => f.value == n && l.iter().any(|(name, _)| *name == f.name),
                    _ => false,
                };
                ensure!(ok, "get_field_by_value({}) of {} finds {:?}", n, full, got);
            }
        }
        if services {
            for (full, sv) in &v.svcs {
                let s = match ctx.get_service(full) {
                    Some(s) => s,
                    None => return fail(format!("{} is not found", full)),
                };
                let mut keys = BTreeSet::new();
                sv.rpcs.keys().for_each(|r| close(r, &mut keys));
                for k in &keys {
                    let got = s.rpc_by_name(k);
                    let want = sv.rpcs.get(k);
                    let same = match (got, want) {
                        (None, None) => true,
                        (Some(g), Some(w)) => {
                            g.name == *k
                                && (g.input.stream, &ctx.resolve_message(g.input.message).full_name) == (w.input.0, &w.input.1)
                                && (g.output.stream, &ctx.resolve_message(g.output.message).full_name) == (w.output.0, &w.output.1)
                        }
                        _ => false,
                    };
                    ensure!(same, "rpc_by_name({:?}) of {} finds {:?}", k, full, got);
                }
            }
        }
        Ok(())
    })??;
    st.steps += keys.len() as u64;
    Ok(())
}

pub fn looked_up(r: &mut Runner)
{
    r.space(
        "many",
        0,
        &format!("{}, parsed and built by hand in 3 ways x every declared name and number and those close to it", describe()),
        |ch, st| {
            let (.., files) = pick(ch, st);
            let how = ch.pick(4);
            st.traces += 1;
            if how > 0 {
                return match b::by_hand(&files, how - 1)? {
                    Some((v, ctx)) => lookups(&ctx, &v, false, st),
                    None => Ok(()),
                };
            }
            let texts: Vec<String> = files.iter().map(text_of).collect();
            match parse(&texts)? {
                Ok(ctx) => lookups(&ctx, &View::of(&files), true, st),
                Err(e) => fail(format!("valid files are rejected: {:?}\n{}", e, show(&texts))),
            }
        },
    );
}

/// Everything that is there is refused a second time, and nothing changes; then new things go in.
pub fn refused_again(r: &mut Runner)
{
    r.space(
        "many",
        0,
        &format!("{}, parsed and built by hand in 3 ways: every package, message and enum inserted again, as a message and as an enum, then new ones", describe()),
        |ch, st| {
            let (.., files) = pick(ch, st);
            let how = ch.pick(4);
            st.traces += 1;
            let make = || -> Result<Option<(View, Context)>, Viol> {
                if how > 0 {
                    return b::by_hand(&files, how - 1);
                }
                let texts: Vec<String> = files.iter().map(text_of).collect();
                Ok(parse(&texts)?.ok().map(|ctx| (View::of(&files), ctx)))
            };
            // What cannot be parsed is the subject of P01 and P02.
            let ((v, ctx), mut now) = match (make()?, make()?) {
                (Some(a), Some(b)) => (a, b.1),
                _ => return Ok(()),
            };
            let packages: Vec<Option<String>> = files.iter().map(|f| f.package.clone()).collect();
            for p in &packages {
                st.steps += 1;
                let got = call("insert_package", || now.insert_package(Package::new(p.clone())))?;
                let at = match got {
                    Err(r) => r,
                    Ok(_) => return fail(format!("package {:?} of {} is inserted twice", p, packages.len())),
                };
                // It is the one the types are in.
                let own = v.msgs.keys().chain(v.enums.keys()).find(|n| match (p, n.rsplit_once('.')) {
                    (Some(p), Some((a, _))) => a == p,
                    (None, None) => true,
                    _ => false,
                });
                let alone = packages.iter().filter(|q| *q == p).count() == 1;
                if let Some(t) = own.filter(|_| alone).and_then(|n| ctx.get_type(n)) {
                    ensure!(
                        t.parent() == TypeParent::Package(at),
                        "the package given for {:?} is not the one of {}",
                        p,
                        t.full_name()
                    );
                }
            }
            for full in v.msgs.keys().chain(v.enums.keys()) {
                let (parent, name, own) = match ctx.get_type(full) {
                    Some(TypeInfo::Message(m)) => (m.parent, m.name.clone(), TypeRef::Message(m.self_ref)),
                    Some(TypeInfo::Enum(e)) => (e.parent, e.name.clone(), TypeRef::Enum(e.self_ref)),
                    None => return Ok(()),
                };
                for message in [false, true] {
                    st.steps += 1;
                    let got = call("inserting", || match message {
                        true => now.insert_message(MessageInfo::new(name.clone(), parent)).map(TypeRef::Message),
                        false => now.insert_enum(EnumInfo::new(name.clone(), parent)).map(TypeRef::Enum),
                    })?;
                    match got {
                        Err(protofish::context::InsertError::TypeExists { original }) if original == own => {}
                        x => return fail(format!("{} is inserted again: {:?}", full, x)),
                    }
                }
            }
            ensure!(now == ctx, "refused insertions changed the context");
            // New ones, all of which are found.
            for (i, p) in packages.iter().enumerate().take(20) {
                let name = format!("{}x", p.clone().unwrap_or_default());
                let fresh = packages.iter().all(|q| q.as_deref() != Some(&name));
                let got = call("insert_package", || now.insert_package(Package::new(Some(name.clone()))))?;
                let at = match got {
                    Ok(r) if fresh || i > 0 => r,
                    Err(r) if i > 0 => r,
                    x => return fail(format!("package {:?} is not inserted: {:?}", name, x)),
                };
                let got = call("insert_message", || {
                    now.insert_message(MessageInfo::new(format!("New{}", i), TypeParent::Package(at)))
                })?;
                let full = format!("{}.New{}", name, i);
                ensure!(
                    got.is_ok() && now.get_message(&full).map(|m| m.self_ref) == got.ok(),
                    "{} is not inserted or found",
                    full
                );
            }
            b::consistent(&now, &v.msgs.keys().chain(v.enums.keys()).cloned().collect::<Vec<_>>(), &[])
        },
    );
}
