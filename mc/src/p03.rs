//! P03: type references resolve by protobuf scoping rules.

use crate::engine::*;
use crate::ensure;
use crate::model::Kind;
use crate::p02::{enum_of, file, msg, rpc};
use crate::schema::*;
use protofish::context::{ItemType, ParseError};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sort
{
    Msg,
    Enum,
    Svc,
}

/// The reference resolver: the item with the name in the innermost scope that has one.
pub fn resolve<'a>(
    items: &'a BTreeMap<String, Sort>,
    name: &str,
    scope: &str,
) -> Option<(&'a str, Sort)>
{
    let get = |n: &str| items.get_key_value(n).map(|(k, v)| (k.as_str(), *v));
    if let Some(n) = name.strip_prefix('.') {
        return get(n);
    }
    let mut parts: Vec<&str> = if scope.is_empty() {
        vec![]
    } else {
        scope.split('.').collect()
    };
    loop {
        let mut full = parts.clone();
        full.push(name);
        if let Some(x) = get(&full.join(".")) {
            return Some(x);
        }
        parts.pop()?;
    }
}

/// Whether protobuf's first-component rule and the whole-name rule agree on this lookup, and no
/// service hides a type.
fn unambiguous(
    items: &BTreeMap<String, Sort>,
    packages: &[&str],
    name: &str,
    scope: &str,
) -> bool
{
    if name.starts_with('.') {
        return true;
    }
    let first = name.split('.').next().unwrap();
    let mut parts: Vec<&str> = if scope.is_empty() {
        vec![]
    } else {
        scope.split('.').collect()
    };
    let whole = resolve(items, name, scope);
    if let Some((_, Sort::Svc)) = whole {
        // Is there anything further out?
        let mut p = parts.clone();
        let mut n = 0;
        loop {
            let mut full = p.clone();
            full.push(name);
            n += items.contains_key(&full.join(".")) as usize;
            if p.pop().is_none() {
                break;
            }
        }
        if n > 1 {
            return false;
        }
    }
    loop {
        let mut f = parts.clone();
        f.push(first);
        let f = f.join(".");
        let is_package = packages
            .iter()
            .any(|p| *p == f || p.starts_with(&format!("{}.", f)));
        if items.contains_key(&f) || is_package {
            // Protobuf commits to this scope.
            let mut full = parts.clone();
            full.push(name);
            let full = full.join(".");
            return match whole {
                Some((w, _)) => w == full,
                None => true,
            };
        }
        if parts.pop().is_none() {
            return true;
        }
    }
}

fn item_kind(s: Sort) -> ItemType
{
    match s {
        Sort::Msg => ItemType::Message,
        Sort::Enum => ItemType::Enum,
        Sort::Svc => ItemType::Service,
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Site
{
    Field,
    Repeated,
    Oneof,
    MapValue,
    RpcIn,
    RpcOut,
}

/// Where items may be: full name, package, path of messages around it, simple name.
struct Slot
{
    package: Option<&'static str>,
    path: &'static [&'static str],
    name: &'static str,
}

fn names_error(e: &ParseError, spelled: &str, full: Option<&str>) -> bool
{
    // The error names the reference, as it is written or in full.
    let ok = |n: &str| {
        n == spelled
            || n == spelled.trim_start_matches('.')
            || full.map_or(false, |f| n == f || n.trim_start_matches('.') == f)
    };
    match e {
        ParseError::TypeNotFound { name, .. } => ok(name),
        ParseError::InvalidTypeKind { type_name, .. } => ok(type_name),
        _ => false,
    }
}

/// One file set: the items, and one reference from a site.
struct World
{
    /// Package and items in it, as nested tree: (path, name, sort).
    items: Vec<(Option<&'static str>, Vec<&'static str>, &'static str, Sort)>,
}

fn full_name(p: Option<&str>, path: &[&str], name: &str) -> String
{
    let mut v: Vec<&str> = vec![];
    if let Some(p) = p {
        v.push(p);
    }
    v.extend(path);
    v.push(name);
    v.join(".")
}

impl World
{
    fn names(&self) -> BTreeMap<String, Sort>
    {
        self.items
            .iter()
            .map(|(p, path, n, s)| (full_name(*p, path, n), *s))
            .collect()
    }

    fn contents(
        &self,
        package: Option<&str>,
        path: &[&str],
        referrer: &str,
        member: &Option<Member>,
        reverse: bool,
    ) -> Vec<Member>
    {
        let mut out = vec![];
        for (p, q, n, s) in &self.items {
            if *p == package && q.as_slice() == path {
                match s {
                    Sort::Msg => {
                        let mut sub = path.to_vec();
                        sub.push(n);
                        out.push(Member::Msg(msg(
                            n,
                            self.contents(package, &sub, referrer, member, reverse),
                        )));
                    }
                    Sort::Enum => {
                        let zero = format!("{}_ZERO", full_name(*p, q, n).replace('.', "_"));
                        out.push(Member::Enum(enum_of(n, &[(&zero, 0)])));
                    }
                    Sort::Svc => unreachable!(),
                }
            }
        }
        if let Some(m) = member {
            let (last, rest) = match path.split_last() {
                Some(x) => x,
                None => return out,
            };
            if full_name(package, rest, last) == referrer {
                if reverse {
                    out.insert(0, m.clone());
                } else {
                    out.push(m.clone());
                }
            }
        }
        out
    }

    fn files(
        &self,
        referrer: &str,
        member: Option<Member>,
        service: Option<(Option<&'static str>, Svc)>,
        reverse: bool,
    ) -> Vec<File>
    {
        let mut packages: Vec<Option<&'static str>> = vec![];
        for (p, ..) in &self.items {
            if !packages.contains(p) {
                packages.push(*p);
            }
        }
        if let Some((p, _)) = &service {
            if !packages.contains(p) {
                packages.push(*p);
            }
        }
        if reverse {
            packages.reverse();
        }
        packages
            .iter()
            .map(|package| {
                let mut items = vec![];
                for (p, path, n, s) in &self.items {
                    if p != package || !path.is_empty() {
                        continue;
                    }
                    match s {
                        Sort::Svc => items.push(Item::Svc(Svc {
                            name: n.to_string(),
                            members: vec![],
                        })),
                        Sort::Enum => {
                            let zero = format!("{}_ZERO", full_name(*p, path, n).replace('.', "_"));
                            items.push(Item::Enum(enum_of(n, &[(&zero, 0)])));
                        }
                        Sort::Msg => items.push(Item::Msg(msg(
                            n,
                            self.contents(*p, &[n], referrer, &member, reverse),
                        ))),
                    }
                }
                if let Some((p, svc)) = &service {
                    if p == package {
                        items.push(Item::Svc(svc.clone()));
                    }
                }
                if reverse {
                    items.reverse();
                }
                file(*package, items)
            })
            .collect()
    }
}

fn check(
    world: &World,
    packages: &[&str],
    site: Site,
    scope_package: Option<&'static str>,
    scope: &str,
    spelled: &str,
    reverse: bool,
    st: &mut St,
) -> R
{
    let mut names = world.names();
    let is_rpc = matches!(site, Site::RpcIn | Site::RpcOut);
    let scope_name = if is_rpc {
        let s = full_name(scope_package, &[], "Svc");
        names.insert(s.clone(), Sort::Svc);
        s
    } else {
        scope.to_string()
    };
    if site == Site::MapValue {
        names.insert(format!("{}.FEntry", scope), Sort::Msg);
    }
    // The lookup starts in the map entry message for map values.
    let scope_name = if site == Site::MapValue {
        format!("{}.FEntry", scope_name)
    } else {
        scope_name
    };
    if !unambiguous(&names, packages, spelled, &scope_name) {
        st.outcome("outside");
        return Ok(());
    }
    let found = resolve(&names, spelled, &scope_name);
    st.steps += scope_name.split('.').count() as u64;
    let (ty, target) = match found {
        Some((full, s)) => (
            to_ref(spelled, full, s == Sort::Enum),
            full.to_string(),
        ),
        None => (to_ref(spelled, "", false), String::new()),
    };
    let member = match site {
        Site::Field | Site::Repeated => Some(Member::Field(Field {
            lab: if site == Site::Field {
                Lab::Single
            } else {
                Lab::Repeated
            },
            ty,
            name: "f".to_string(),
            num: num(1),
            opts: vec![],
        })),
        Site::Oneof => Some(Member::Oneof(Oneof {
            name: "o".to_string(),
            members: vec![
                OneofMember::Field(scalar(Kind::Bool, "before", 2)),
                OneofMember::Field(Field {
                    lab: Lab::Single,
                    ty,
                    name: "f".to_string(),
                    num: num(1),
                    opts: vec![],
                }),
            ],
        })),
        Site::MapValue => Some(Member::Map(Map {
            key: Kind::Int32,
            value: ty,
            name: "f".to_string(),
            num: num(1),
            opts: vec![],
        })),
        _ => None,
    };
    let service = if is_rpc {
        let a = arg(false, spelled, &target);
        // Some other message that certainly exists.
        let other = arg(true, &format!(".{}", scope), scope);
        let r = if site == Site::RpcIn {
            rpc("R", a, other)
        } else {
            rpc("R", other, a)
        };
        Some((
            scope_package,
            Svc {
                name: "Svc".to_string(),
                members: vec![SvcMember::Rpc(r)],
            },
        ))
    } else {
        None
    };
    let files = world.files(scope, member, service, reverse);
    let texts: Vec<String> = files.iter().map(text_of).collect();
    st.traces += 1;
    st.state(&(site, &found.map(|f| f.0), spelled, &scope_name));
    st.sample(|| show(&texts));
    let ok = match found {
        Some((_, Sort::Svc)) => false,
        Some((_, Sort::Enum)) => !is_rpc,
        Some((_, Sort::Msg)) => true,
        None => false,
    };
    if ok {
        st.outcome("resolved");
        conform_text(&texts, &View::of(&files))?;
        return Ok(());
    }
    match parse(&texts)? {
        Ok(_) => fail(format!(
            "the reference {} from {} was accepted, found: {:?}\n{}",
            spelled,
            scope_name,
            found,
            show(&texts)
        )),
        Err(e) => {
            match (&e, found) {
                (ParseError::TypeNotFound { .. }, None) => {
                    st.outcome("not found");
                }
                (ParseError::InvalidTypeKind { actual, .. }, Some((_, s)))
                    if *actual == item_kind(s) =>
                {
                    st.outcome("wrong kind");
                }
                _ => {
                    return fail(format!(
                        "the reference {} from {} (found: {:?}) gives {:?}\n{}",
                        spelled,
                        scope_name,
                        found,
                        e,
                        show(&texts)
                    ))
                }
            }
            ensure!(
                names_error(&e, spelled, found.map(|f| f.0)),
                "the error for reference {} from {} does not name it: {:?}\n{}",
                spelled,
                scope_name,
                e,
                show(&texts)
            );
            Ok(())
        }
    }
}

pub fn p03(r: &mut Runner)
{
    // Space 1: the holders (messages M and N) always exist, and the name A may be anything at any
    // level of the packages and messages around the reference.
    let slots: &[Slot] = &[
        Slot { package: None, path: &[], name: "A" },
        Slot { package: Some("P"), path: &[], name: "A" },
        Slot { package: Some("P.Q"), path: &[], name: "A" },
        Slot { package: Some("P.Q"), path: &["M"], name: "A" },
        Slot { package: Some("P.Q"), path: &["M", "N"], name: "A" },
        Slot { package: Some("P"), path: &["M"], name: "A" },
    ];
    let spellings = [
        "A", "M.A", "N.A", "M.N.A", "P.A", "Q.A", "P.Q.A", "P.M.A", "Q.M.A", "P.Q.M.A", "P.Q.M.N.A",
        "Q.M.N.A", ".A", ".P.A", ".P.Q.A", ".P.Q.M.A", ".P.Q.M.N.A", ".Q.A", ".M.A", ".P.M.A",
        "A.A", "B", ".B", "P.B", "M", "N", "M.N", ".P.Q.M.N", "Q.M", "P.M", "Svc", "Q.Svc", ".P.Q.Svc",
    ];
    let scopes: &[(Option<&'static str>, &str)] = &[
        (Some("P.Q"), "P.Q.M"),
        (Some("P.Q"), "P.Q.M.N"),
        (Some("P"), "P.M"),
        (None, "R"),
        (Some("P.Q"), "P.Q.M.N.L"),
    ];
    let sites = [
        Site::Field,
        Site::Repeated,
        Site::Oneof,
        Site::MapValue,
        Site::RpcIn,
        Site::RpcOut,
    ];
    let packages = ["P", "P.Q"];
    let kinds = r.by(&[None, Some(Sort::Msg), Some(Sort::Enum)][..], &[None, Some(Sort::Msg), Some(Sort::Enum), Some(Sort::Svc)][..]);
    let nsites = r.by(4, 6);
    let site_list = if nsites == 4 {
        vec![Site::Field, Site::Oneof, Site::MapValue, Site::RpcIn]
    } else {
        sites.to_vec()
    };
    let orders = r.by(1, 2);
    r.space(
        "placement",
        0,
        &format!("every placement of a type A as {:?} at 6 levels of packages and messages x 5 referring scopes x 33 spellings x sites {:?} x {} orders of files and definitions", kinds, site_list, orders),
        |ch, st| {
            let (pkg, scope) = *ch.of(scopes);
            let spelled = *ch.of(&spellings);
            let site = *ch.of(&site_list);
            let reverse = ch.pick(orders) == 1;
            if scope == "P.Q.M.N.L" && !matches!(site, Site::Field | Site::Oneof) {
                return Ok(());
            }
            let mut items = vec![
                (Some("P.Q"), vec![], "M", Sort::Msg),
                (Some("P.Q"), vec!["M"], "N", Sort::Msg),
                (Some("P.Q"), vec!["M", "N"], "L", Sort::Msg),
                (Some("P"), vec![], "M", Sort::Msg),
                (None, vec![], "R", Sort::Msg),
            ];
            let mut placed = vec![];
            for s in slots {
                let list = if s.path.is_empty() { kinds } else { &kinds[..3] };
                let k = *ch.of(list);
                placed.push(k);
                if let Some(k) = k {
                    items.push((s.package, s.path.to_vec(), s.name, k));
                }
            }
            let world = World { items };
            check(&world, &packages, site, pkg, scope, spelled, reverse, st)
        },
    );

    // Space 2: the holders vary as well.
    let n = r.by(3, 4);
    let candidates: &[(Option<&'static str>, &'static [&'static str], &'static str)] = &[
        (None, &[], "A"),
        (None, &[], "B"),
        (Some("P"), &[], "A"),
        (Some("P"), &[], "B"),
        (Some("P.Q"), &[], "A"),
        (Some("P.Q"), &[], "B"),
        (Some("Q"), &[], "A"),
        (None, &["A"], "A"),
        (None, &["A"], "B"),
        (Some("P"), &["A"], "A"),
        (Some("P"), &["A"], "B"),
        (Some("P"), &["B"], "A"),
        (Some("P"), &["A", "B"], "A"),
        (Some("P.Q"), &["A"], "B"),
        (Some("P.Q"), &["B"], "A"),
    ];
    let spelled2: Vec<String> = {
        let mut v: Vec<String> = vec![];
        let words = ["A", "B", "P", "Q"];
        for a in words {
            v.push(a.to_string());
            for b in words {
                v.push(format!("{}.{}", a, b));
                for c in ["A", "B"] {
                    v.push(format!("{}.{}.{}", a, b, c));
                }
            }
        }
        let abs: Vec<String> = v.iter().map(|s| format!(".{}", s)).collect();
        v.extend(abs);
        v
    };
    r.space(
        "subsets",
        0,
        &format!("every set of up to {} of 15 items named A and B at all levels of packages P, P.Q, Q and the root (messages or enums) x every item as referrer x {} spellings", n, spelled2.len()),
        |ch, st| {
            // Choose the items in increasing order.
            let mut chosen: Vec<usize> = vec![];
            let mut from = 0;
            for _ in 0..n {
                let left = candidates.len() - from;
                let c = ch.pick(left + 1);
                if c == 0 {
                    break;
                }
                chosen.push(from + c - 1);
                from += c;
                if from >= candidates.len() {
                    break;
                }
            }
            if chosen.is_empty() {
                return Ok(());
            }
            let mut items = vec![];
            for c in &chosen {
                let (p, path, n) = candidates[*c];
                items.push((p, path.to_vec(), n, Sort::Msg));
            }
            // The parents have to exist.
            for (p, path, _, _) in &items {
                if !path.is_empty() {
                    let (last, rest) = path.split_last().unwrap();
                    if !items.iter().any(|(q, r, n, _)| q == p && r.as_slice() == rest && n == last) {
                        return Ok(());
                    }
                }
            }
            let referrer = ch.pick(items.len());
            for i in 0..items.len() {
                if i != referrer {
                    let has_children = items.iter().any(|(q, r, ..)| {
                        let mut full = items[i].1.clone();
                        full.push(items[i].2);
                        *q == items[i].0 && r.len() >= full.len() && r[..full.len()] == full[..]
                    });
                    if !has_children && ch.flag() {
                        items[i].3 = Sort::Enum;
                    }
                }
            }
            let spelled = ch.of(&spelled2).clone();
            let mut packages: Vec<&str> = vec![];
            for (p, ..) in &items {
                if let Some(p) = p {
                    packages.push(p);
                }
            }
            let (p, path, n, _) = items[referrer].clone();
            let scope = full_name(p, &path, n);
            let world = World { items };
            check(&world, &packages, Site::Field, p, &scope, &spelled, false, st)
        },
    );

    // Space 3: long package and message paths with the target in any of the scopes.
    let deep = r.by(6, 12);
    r.space(
        "depth",
        0,
        &format!("a reference from up to {} messages and packages deep to a type in any subset of two enclosing scopes, in any order of the files", deep),
        |ch, st| {
            let np = ch.pick(deep + 1);
            let nm = 1 + ch.pick(deep);
            let pkg: Vec<String> = (0..np).map(|i| format!("p{}", i)).collect();
            let msgs: Vec<String> = (0..nm).map(|i| format!("M{}", i)).collect();
            // Scopes: 0 = root, 1..=np = packages, np+1.. = messages.
            let total = np + nm + 1;
            let a = ch.pick(total);
            let b = ch.pick(total);
            let reverse = ch.flag();
            let spell = ch.pick(3);
            let mut files: Vec<File> = vec![];
            let scope_name = |s: usize| -> String {
                let mut v: Vec<String> = pkg[..s.min(np)].to_vec();
                if s > np {
                    v.extend(msgs[..s - np].to_vec());
                }
                v.join(".")
            };
            let innermost = a.max(b);
            let in_scope = |s: usize| {
                let n = scope_name(s);
                if n.is_empty() { "T".to_string() } else { format!("{}.T", n) }
            };
            let target = match spell {
                0 | 1 => in_scope(innermost),
                _ => in_scope(a.min(b)),
            };
            let spelled = match spell {
                0 => "T".to_string(),
                1 => {
                    // Qualified by the name of the scope it is in.
                    let n = scope_name(innermost);
                    match n.rsplit('.').next() {
                        Some(last) if !last.is_empty() => format!("{}.T", last),
                        _ => ".T".to_string(),
                    }
                }
                _ => format!(".{}", target),
            };
            let t = |zero: &str| Item::Enum(enum_of("T", &[(zero, 0)]));
            let mut inner: Option<Msg> = None;
            for i in (0..nm).rev() {
                let mut members = vec![];
                if i == nm - 1 {
                    members.push(Member::Field(Field {
                        lab: Lab::Single,
                        ty: to_ref(&spelled, &target, true),
                        name: "f".to_string(),
                        num: num(1),
                        opts: vec![],
                    }));
                }
                if let Some(m) = inner.take() {
                    members.push(Member::Msg(m));
                }
                let here = np + 1 + i;
                if a == here || b == here {
                    members.push(Member::Enum(enum_of("T", &[("ZERO", 0)])));
                }
                inner = Some(msg(&msgs[i], members));
            }
            let mut own = vec![Item::Msg(inner.unwrap())];
            if a == np || b == np {
                own.push(t("ZERO"));
            }
            let own_pkg = scope_name(np);
            files.push(file(if np == 0 { None } else { Some(&own_pkg) }, own));
            for s in [a, b] {
                if s < np && !(s == b && a == b && files.len() > 1) {
                    let n = scope_name(s);
                    files.push(file(if s == 0 { None } else { Some(&n) }, vec![t("ZERO")]));
                }
            }
            if reverse {
                files.reverse();
            }
            st.state(&(np, nm, a, b, spell));
            st.outcome("resolved");
            st.sample(|| show(&files.iter().map(text_of).collect::<Vec<_>>()));
            conform(&files, st)?;
            Ok(())
        },
    );
    crate::many::conforming(r);
}
