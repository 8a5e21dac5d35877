//! B01 to B03: modifying contexts, consistency, hand-built contexts.

use crate::dec;
use crate::engine::*;
use crate::ensure;
use crate::model::Compiled;
use crate::payload;
use crate::schema::*;
use crate::wire;
use protofish::context::{
    Context, EnumField, EnumInfo, EnumRef, InsertError, MemberInsertError, MessageField,
    MessageInfo, MessageRef, Multiplicity, OneofInsertError, OneofRef, Package, PackageRef,
    TypeInfo, TypeParent, TypeRef, ValueType,
};
use protofish::decode::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

#[derive(Clone, Copy, PartialEq)]
enum Mode
{
    /// Results and effects.
    Atomic,
    /// Consistency only.
    Consistent,
}

// ---------------------------------------------------------------------------------------------
// Consistency

fn consistent_msg(m: &MessageInfo, what: &str) -> R
{
    let mut last = None;
    for f in m.iter_fields() {
        ensure!(
            last.map_or(true, |l| l < f.number),
            "{}: field {} comes after {:?}",
            what,
            f.number,
            last
        );
        last = Some(f.number);
        ensure!(
            m.get_field(f.number).map_or(false, |x| std::ptr::eq(x, f)),
            "{}: field {} is not found by its number",
            what,
            f.number
        );
        ensure!(
            m.get_field_by_name(&f.name).map_or(false, |x| std::ptr::eq(x, f)),
            "{}: field {:?} is not found by its name",
            what,
            f.name
        );
        if let Some(o) = f.oneof {
            let o = match m.get_oneof(o) {
                Some(o) => o,
                None => return fail(format!("{}: the oneof of field {} does not exist", what, f.number)),
            };
            let n = o.fields.iter().filter(|x| **x == f.number).count();
            ensure!(
                n == 1,
                "{}: field {} names oneof {:?}, which lists it {} times",
                what,
                f.number,
                o.name,
                n
            );
        }
    }
    for o in &m.oneofs {
        ensure!(
            m.get_oneof(o.self_ref).map_or(false, |x| std::ptr::eq(x, o)),
            "{}: oneof {:?} does not report its own reference",
            what,
            o.name
        );
        for n in &o.fields {
            let ok = m.get_field(*n).map_or(false, |f| f.oneof == Some(o.self_ref));
            ensure!(
                ok,
                "{}: oneof {:?} lists field {}, which does not name it",
                what,
                o.name,
                n
            );
        }
    }
    Ok(())
}

struct Walk<'c>
{
    ctx: &'c Context,
    seen: BTreeSet<String>,
    todo: Vec<TypeRef>,
}

impl<'c> Walk<'c>
{
    fn parent(&mut self, p: TypeParent, me: TypeRef, name: &str, full: &str) -> R
    {
        match p {
            TypeParent::Package(p) => {
                self.ctx.resolve_package(p);
                let ok = full == name || full.ends_with(&format!(".{}", name));
                ensure!(ok, "{:?} has the full name {:?}", name, full);
            }
            TypeParent::Message(r) => {
                let m = self.ctx.resolve_message(r);
                ensure!(
                    full == format!("{}.{}", m.full_name, name),
                    "{:?} in {:?} has the full name {:?}",
                    name,
                    m.full_name,
                    full
                );
                let n = m.inner_types.iter().filter(|t| **t == me).count();
                ensure!(n == 1, "{:?} lists {:?} {} times", m.full_name, full, n);
                self.todo.push(TypeRef::Message(r));
            }
        }
        Ok(())
    }

    fn visit(&mut self, r: TypeRef) -> R
    {
        match r {
            TypeRef::Message(r) => {
                let m = self.ctx.resolve_message(r);
                if !self.seen.insert(format!("m {:?}", r)) {
                    return Ok(());
                }
                let full = &m.full_name;
                ensure!(m.self_ref == r, "message {:?} reports another reference", full);
                match self.ctx.get_type(full) {
                    Some(TypeInfo::Message(x)) if std::ptr::eq(x, m) => {}
                    _ => return fail(format!("message {:?} is not what its full name finds", full)),
                }
                ensure!(
                    self.ctx.get_message(full).map_or(false, |x| std::ptr::eq(x, m)),
                    "message {:?} is not what its full name finds",
                    full
                );
                self.parent(m.parent, TypeRef::Message(r), &m.name, full)?;
                for t in &m.inner_types {
                    let p = match t {
                        TypeRef::Message(t) => self.ctx.resolve_message(*t).parent,
                        TypeRef::Enum(t) => self.ctx.resolve_enum(*t).parent,
                    };
                    ensure!(
                        p == TypeParent::Message(r),
                        "{:?} lists {:?}, which has another parent",
                        full,
                        t
                    );
                    self.todo.push(*t);
                }
                consistent_msg(m, full)?;
                for f in m.iter_fields() {
                    match f.field_type {
                        ValueType::Message(x) => self.todo.push(TypeRef::Message(x)),
                        ValueType::Enum(x) => self.todo.push(TypeRef::Enum(x)),
                        _ => {}
                    }
                }
            }
            TypeRef::Enum(r) => {
                let e = self.ctx.resolve_enum(r);
                if !self.seen.insert(format!("e {:?}", r)) {
                    return Ok(());
                }
                let full = &e.full_name;
                ensure!(e.self_ref == r, "enum {:?} reports another reference", full);
                match self.ctx.get_type(full) {
                    Some(TypeInfo::Enum(x)) if std::ptr::eq(x, e) => {}
                    _ => return fail(format!("enum {:?} is not what its full name finds", full)),
                }
                ensure!(
                    self.ctx.get_message(full).is_none(),
                    "enum {:?} is found as message",
                    full
                );
                self.parent(e.parent, TypeRef::Enum(r), &e.name, full)?;
            }
        }
        Ok(())
    }

    fn run(&mut self) -> R
    {
        while let Some(r) = self.todo.pop() {
            self.visit(r)?;
        }
        Ok(())
    }
}

/// Checks everything that can be reached from types and services with these names.
pub fn consistent(ctx: &Context, types: &[String], services: &[String]) -> R
{
    call("lookup", || {
        let mut w = Walk {
            ctx,
            seen: BTreeSet::new(),
            todo: vec![],
        };
        for n in types {
            match ctx.get_type(n) {
                Some(TypeInfo::Message(m)) => {
                    ensure!(m.full_name == *n, "{:?} finds {:?}", n, m.full_name);
                    w.todo.push(TypeRef::Message(m.self_ref));
                    w.run()?;
                    ensure!(
                        std::ptr::eq(ctx.resolve_message(m.self_ref), m),
                        "message {:?} does not report its own reference",
                        n
                    );
                }
                Some(TypeInfo::Enum(e)) => {
                    ensure!(e.full_name == *n, "{:?} finds {:?}", n, e.full_name);
                    w.todo.push(TypeRef::Enum(e.self_ref));
                    w.run()?;
                    ensure!(
                        std::ptr::eq(ctx.resolve_enum(e.self_ref), e),
                        "enum {:?} does not report its own reference",
                        n
                    );
                }
                None => return fail(format!("type {:?} is not found", n)),
            }
        }
        let mut refs = BTreeSet::new();
        for n in services {
            let s = match ctx.get_service(n) {
                Some(s) => s,
                None => return fail(format!("service {:?} is not found", n)),
            };
            ctx.resolve_package(s.parent);
            ensure!(s.full_name == *n, "{:?} finds {:?}", n, s.full_name);
            let ok = s.full_name == s.name || s.full_name.ends_with(&format!(".{}", s.name));
            ensure!(ok, "service {:?} has the full name {:?}", s.name, s.full_name);
            ensure!(
                refs.insert(format!("{:?}", s.self_ref)),
                "service {:?} reports the reference of another",
                n
            );
            for r in &s.rpcs {
                ensure!(
                    s.rpc_by_name(&r.name).map_or(false, |x| std::ptr::eq(x, r)),
                    "rpc {:?} of {:?} is not what its name finds",
                    r.name,
                    n
                );
                w.todo.push(TypeRef::Message(r.input.message));
                w.todo.push(TypeRef::Message(r.output.message));
                w.run()?;
            }
        }
        Ok(())
    })?
}

/// The files parse to a consistent context, also after further insertions.
pub fn consistent_files(files: &[File], st: &mut St) -> R
{
    let texts: Vec<String> = files.iter().map(text_of).collect();
    let mut ctx = match parse(&texts) {
        Ok(Ok(ctx)) => ctx,
        // The subject of P01 and P02.
        _ => return Ok(()),
    };
    let v = View::of(files);
    let mut types: Vec<String> = v.msgs.keys().chain(v.enums.keys()).cloned().collect();
    let services: Vec<String> = v.svcs.keys().cloned().collect();
    types.retain(|n| ctx.get_type(n).is_some());
    let services: Vec<String> = services
        .into_iter()
        .filter(|n| ctx.get_service(n).is_some())
        .collect();
    st.traces += 1;
    st.steps += types.len() as u64;
    let name_it = |e: Viol| Viol {
        msg: format!("{}\n{}", e.msg, show(&texts)),
        ..e
    };
    consistent(&ctx, &types, &services).map_err(name_it)?;
    packages(&mut ctx, files).map_err(name_it)?;

    // Insert into every message and package.
    let parents: Vec<(TypeParent, String)> = call("lookup", || {
        let mut p = vec![];
        for n in &types {
            match ctx.get_type(n) {
                Some(TypeInfo::Message(m)) => p.push((TypeParent::Message(m.self_ref), format!("{}.", n))),
                _ => {}
            }
            let (parent, name) = match ctx.get_type(n) {
                Some(TypeInfo::Message(m)) => (m.parent, &m.name),
                Some(TypeInfo::Enum(e)) => (e.parent, &e.name),
                None => continue,
            };
            if let TypeParent::Package(_) = parent {
                let prefix = n[..n.len() - name.len()].to_string();
                if !p.iter().any(|x| x.0 == parent) {
                    p.push((parent, prefix));
                }
            }
        }
        p
    })?;
    for (i, (p, prefix)) in parents.into_iter().enumerate().take(12) {
        let name = format!("Inserted{}", i);
        let full = format!("{}{}", prefix, name);
        let r = call("inserting", || {
            if i % 2 == 0 {
                ctx.insert_message(MessageInfo::new(name, p)).map(|_| ())
            } else {
                ctx.insert_enum(EnumInfo::new(name, p)).map(|_| ())
            }
        })?;
        if r.is_ok() {
            types.push(full);
        }
    }
    consistent(&ctx, &types, &services).map_err(name_it)?;
    packages(&mut ctx, files).map_err(name_it)
}

/// The types of a package have that package as parent. Package names are not exposed, but inserting
/// a package with an existing name gives the existing one.
fn packages(ctx: &mut Context, files: &[File]) -> R
{
    for (i, f) in files.iter().enumerate() {
        let alone = files
            .iter()
            .enumerate()
            .all(|(j, g)| i == j || f.package != g.package);
        if !alone {
            continue;
        }
        let name = f.package.clone();
        let r = call("insert_package", || ctx.insert_package(Package::new(name)))?;
        let p = match r {
            Err(p) => p,
            Ok(_) => return fail(format!("package {:?} does not exist", f.package)),
        };
        for item in &f.items {
            let (name, ty) = match item {
                Item::Msg(m) => (&m.name, true),
                Item::Enum(e) => (&e.name, true),
                Item::Svc(s) => (&s.name, false),
                Item::Raw(_) => continue,
            };
            let full = match &f.package {
                Some(p) => format!("{}.{}", p, name),
                None => name.clone(),
            };
            let parent = call("lookup", || {
                if ty {
                    ctx.get_type(&full).map(|t| t.parent())
                } else {
                    ctx.get_service(&full).map(|s| TypeParent::Package(s.parent))
                }
            })?;
            ensure!(
                parent.map_or(true, |x| x == TypeParent::Package(p)),
                "{:?} of package {:?} has another parent",
                full,
                f.package
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Messages

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum MsgOp
{
    /// Name, number, oneof (an index that may not exist).
    Field(usize, u64, Option<usize>),
    Oneof(usize, Vec<u64>),
}

/// Fields (number to name and oneof) and oneofs (name and numbers).
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct MsgM
{
    fields: BTreeMap<u64, (usize, Option<usize>)>,
    oneofs: Vec<(usize, Vec<u64>)>,
}

#[derive(Debug, PartialEq)]
enum MsgErr
{
    Number,
    Name,
    NoOneof,
    OneofName,
    NoField(u64),
    InOneof(u64),
}

impl MsgM
{
    /// Applies an operation or gives all the conflicts it has.
    fn apply(&mut self, op: &MsgOp) -> Result<(), Vec<MsgErr>>
    {
        let mut errs = vec![];
        match op {
            MsgOp::Field(name, num, oneof) => {
                if self.fields.contains_key(num) {
                    errs.push(MsgErr::Number);
                }
                if self.fields.values().any(|f| f.0 == *name) {
                    errs.push(MsgErr::Name);
                }
                if let Some(o) = oneof {
                    if *o >= self.oneofs.len() {
                        errs.push(MsgErr::NoOneof);
                    }
                }
                if errs.is_empty() {
                    self.fields.insert(*num, (*name, *oneof));
                    if let Some(o) = oneof {
                        self.oneofs[*o].1.push(*num);
                    }
                }
            }
            MsgOp::Oneof(name, nums) => {
                if self.oneofs.iter().any(|o| o.0 == *name) {
                    errs.push(MsgErr::OneofName);
                }
                for (i, n) in nums.iter().enumerate() {
                    match self.fields.get(n) {
                        None => errs.push(MsgErr::NoField(*n)),
                        Some((_, Some(_))) => errs.push(MsgErr::InOneof(*n)),
                        _ if nums[..i].contains(n) => errs.push(MsgErr::InOneof(*n)),
                        _ => {}
                    }
                }
                if errs.is_empty() {
                    let i = self.oneofs.len();
                    for n in nums {
                        self.fields.get_mut(n).unwrap().1 = Some(i);
                    }
                    self.oneofs.push((*name, nums.clone()));
                }
            }
        }
        if errs.is_empty() {
            Ok(())
        } else {
            Err(errs)
        }
    }
}

const FIELD_NAMES: [&str; 5] = ["a", "b", "ab", "", "x.y"];
const ONEOF_NAMES: [&str; 4] = ["o", "a", "p", "q"];

struct MsgUniverse
{
    /// References to oneofs at indices 0, 1, ...
    oneof_refs: Vec<OneofRef>,
    nums: Vec<u64>,
    names: usize,
    oneofs: usize,
    max_oneofs: usize,
    lists: Vec<Vec<u64>>,
}

impl MsgUniverse
{
    fn new(names: usize, nums: &[u64], oneofs: usize) -> Result<MsgUniverse, Viol>
    {
        // A scratch message provides references that the message under test may not have yet.
        let mut ctx = Context::new();
        let oneof_refs = call("building a message", || {
            let p = ctx.insert_package(Package::new(None)).unwrap();
            let mut m = MessageInfo::new("Scratch".to_string(), TypeParent::Package(p));
            (0..=oneofs)
                .map(|i| m.add_oneof(protofish::context::Oneof::new(format!("o{}", i))).unwrap())
                .collect::<Vec<_>>()
        })?;
        let mut lists: Vec<Vec<u64>> = vec![vec![]];
        let mut all: Vec<u64> = nums.to_vec();
        all.push(99);
        for a in &all {
            lists.push(vec![*a]);
            for b in &all {
                lists.push(vec![*a, *b]);
            }
        }
        if nums.len() >= 3 {
            for p in [[0, 1, 2], [2, 1, 0], [1, 0, 1], [0, 2, 2], [0, 0, 1]] {
                lists.push(p.iter().map(|i| nums[*i]).collect());
            }
            lists.push(vec![nums[0], nums[1], 99]);
        }
        Ok(MsgUniverse {
            oneof_refs,
            nums: nums.to_vec(),
            names,
            oneofs,
            max_oneofs: oneofs,
            lists,
        })
    }

    fn ops(&self) -> Vec<MsgOp>
    {
        let mut v = vec![];
        for name in 0..self.names {
            for num in &self.nums {
                v.push(MsgOp::Field(name, *num, None));
                for o in 0..=self.max_oneofs {
                    v.push(MsgOp::Field(name, *num, Some(o)));
                }
            }
        }
        for name in 0..self.oneofs {
            for l in &self.lists {
                v.push(MsgOp::Oneof(name, l.clone()));
            }
        }
        v
    }

    fn field(&self, name: usize, num: u64, oneof: Option<usize>) -> MessageField
    {
        let ty = match (name as u64 % 4 + num % 4) % 4 {
            0 => ValueType::Int32,
            1 => ValueType::String,
            2 => ValueType::Bool,
            _ => ValueType::SFixed64,
        };
        let mut f = MessageField::new(FIELD_NAMES[name].to_string(), num, ty);
        f.multiplicity = match num % 3 {
            0 => Multiplicity::Single,
            1 => Multiplicity::Optional,
            _ => Multiplicity::Repeated,
        };
        f.oneof = oneof.map(|o| self.oneof_refs[o]);
        f.options = vec![protofish::context::ProtoOption {
            name: format!("opt{}", num),
            value: protofish::context::Constant::Integer(name as i64),
        }];
        f
    }

    fn apply(&self, m: &mut MessageInfo, op: &MsgOp) -> Result<Result<Option<OneofRef>, String>, Viol>
    {
        // Errors as the text of the variant, to be matched with MsgErr.
        match op {
            MsgOp::Field(name, num, oneof) => {
                let f = self.field(*name, *num, *oneof);
                Ok(match call("MessageInfo::add_field", || m.add_field(f))? {
                    Ok(()) => Ok(None),
                    Err(MemberInsertError::NumberConflict) => Err(format!("{:?}", MsgErr::Number)),
                    Err(MemberInsertError::NameConflict) => Err(format!("{:?}", MsgErr::Name)),
                    Err(MemberInsertError::MissingOneof) => Err(format!("{:?}", MsgErr::NoOneof)),
                    Err(e) => Err(format!("{:?}", e)),
                })
            }
            MsgOp::Oneof(name, nums) => {
                let mut o = protofish::context::Oneof::new(ONEOF_NAMES[*name].to_string());
                o.fields = nums.clone();
                o.options = vec![protofish::context::ProtoOption {
                    name: "oneof_option".to_string(),
                    value: protofish::context::Constant::Integer(*name as i64),
                }];
                Ok(match call("MessageInfo::add_oneof", || m.add_oneof(o))? {
                    Ok(r) => Ok(Some(r)),
                    Err(OneofInsertError::NameConflict) => Err(format!("{:?}", MsgErr::OneofName)),
                    Err(OneofInsertError::FieldNotFound { field }) => {
                        Err(format!("{:?}", MsgErr::NoField(field)))
                    }
                    Err(OneofInsertError::FieldInOneof { field }) => {
                        Err(format!("{:?}", MsgErr::InOneof(field)))
                    }
                    Err(e) => Err(format!("{:?}", e)),
                })
            }
        }
    }

    fn build(&self, parent: TypeParent, path: &[MsgOp]) -> Result<MessageInfo, Viol>
    {
        let mut m = MessageInfo::new("Built".to_string(), parent);
        for op in path {
            if let Err(e) = self.apply(&mut m, op)? {
                return fail(format!("{:?} fails with {} after {:?}", op, e, path));
            }
        }
        Ok(m)
    }

    /// The message is what the model says, nothing more.
    fn verify(&self, m: &MessageInfo, s: &MsgM) -> R
    {
        let mut got = vec![];
        for f in m.iter_fields() {
            got.push(f.number);
        }
        let want: Vec<u64> = s.fields.keys().copied().collect();
        ensure!(got == want, "the fields are {:?}, not {:?}", got, want);
        for n in self.nums.iter().copied().chain([0, 99, u64::MAX, 4, 7]) {
            let want = s.fields.get(&n).map(|(name, oneof)| self.field(*name, n, *oneof));
            let got = m.get_field(n);
            ensure!(got == want.as_ref(), "field {} is {:?}, not {:?}", n, got, want);
        }
        for name in 0..FIELD_NAMES.len() {
            let want = s
                .fields
                .iter()
                .find(|(_, f)| f.0 == name)
                .map(|(n, f)| self.field(name, *n, f.1));
            let got = m.get_field_by_name(FIELD_NAMES[name]);
            ensure!(
                got == want.as_ref(),
                "field {:?} is {:?}, not {:?}",
                FIELD_NAMES[name],
                got,
                want
            );
        }
        ensure!(
            m.oneofs.len() == s.oneofs.len(),
            "there are {} oneofs, not {}",
            m.oneofs.len(),
            s.oneofs.len()
        );
        for (i, (name, nums)) in s.oneofs.iter().enumerate() {
            let o = match m.get_oneof(self.oneof_refs[i]) {
                Some(o) => o,
                None => return fail(format!("oneof {} is not found", i)),
            };
            let fields: BTreeSet<u64> = o.fields.iter().copied().collect();
            ensure!(
                o.name == ONEOF_NAMES[*name] && o.fields.len() == nums.len() && fields == nums.iter().copied().collect(),
                "oneof {} is {:?}, not {:?} with {:?}",
                i,
                o,
                ONEOF_NAMES[*name],
                nums
            );
            ensure!(
                o.options.len() == 1 && o.options[0].value == protofish::context::Constant::Integer(*name as i64),
                "oneof {} has the options {:?}",
                i,
                o.options
            );
        }
        ensure!(
            m.get_oneof(self.oneof_refs[s.oneofs.len()]).is_none(),
            "there is a oneof that was not added"
        );
        ensure!(m.inner_types.is_empty(), "there are inner types");
        ensure!(m.name == "Built", "the name is {:?}", m.name);
        Ok(())
    }

    /// All reachable states with a shortest path to each.
    fn explore(&self, limit: usize) -> (Vec<(MsgM, Vec<MsgOp>)>, HashMap<MsgM, usize>)
    {
        let ops = self.ops();
        let mut states = vec![(MsgM::default(), vec![])];
        let mut index: HashMap<MsgM, usize> = HashMap::new();
        index.insert(MsgM::default(), 0);
        let mut todo: VecDeque<usize> = VecDeque::from(vec![0]);
        while let Some(i) = todo.pop_front() {
            if states.len() >= limit {
                break;
            }
            for op in &ops {
                let mut s = states[i].0.clone();
                if s.apply(op).is_ok() && s.oneofs.len() <= self.max_oneofs && !index.contains_key(&s) {
                    let mut p: Vec<MsgOp> = states[i].1.clone();
                    p.push(op.clone());
                    index.insert(s.clone(), states.len());
                    todo.push_back(states.len());
                    states.push((s, p));
                }
            }
        }
        (states, index)
    }
}

fn message_level(r: &mut Runner, mode: Mode)
{
    let dims: Vec<(usize, Vec<u64>, usize)> = if r.thorough() {
        vec![(3, vec![1, 2, 300], 3), (4, vec![1, 2, 300, 1 << 40], 2), (5, vec![0, 1, u64::MAX], 2)]
    } else {
        vec![(3, vec![1, 2, 300], 2), (5, vec![1 << 40, u64::MAX], 3)]
    };
    for (i, (names, nums, oneofs)) in dims.into_iter().enumerate() {
        let u = match r.setup("messages", || MsgUniverse::new(names, &nums, oneofs)) {
            Some(u) => u,
            None => return,
        };
        let parent = match r.setup("package", || {
            call("insert_package", || Context::new().insert_package(Package::new(None)).unwrap())
        }) {
            Some(p) => TypeParent::Package(p),
            None => return,
        };
        let ops = u.ops();
        let (states, index) = u.explore(3_000_000);
        r.space(
            &format!("messages-{}", i),
            0,
            &format!(
                "all {} reachable states of a message with fields of {} names and numbers {:?} and up to {} oneofs, and each of {} operations in each of them{}",
                states.len(),
                names,
                nums,
                oneofs,
                ops.len(),
                if mode == Mode::Atomic { "; states reached twice must be equal" } else { "" }
            ),
            |ch, st| {
                let (s, path) = ch.of(&states);
                let op = ch.of(&ops);
                st.state(s);
                st.traces += 1;
                st.steps += 1 + path.len() as u64;
                st.sample(|| format!("{:?} then {:?}", path, op));
                let after = |what: &str| format!("{} {:?} after {:?}", what, op, path);
                let mut m = u.build(parent, path)?;
                let told = |e: Viol, what: &str| Viol {
                    msg: format!("{}: {}", after(what), e.msg),
                    ..e
                };
                if mode == Mode::Consistent {
                    consistent_msg(&m, "message").map_err(|e| told(e, "before"))?;
                    let _ = u.apply(&mut m, op)?;
                    return consistent_msg(&m, "message").map_err(|e| told(e, "after"));
                }
                u.verify(&m, s).map_err(|e| told(e, "before"))?;
                let mut want = s.clone();
                let expected = want.apply(op);
                match (u.apply(&mut m, op)?, expected) {
                    (Ok(r), Ok(())) => {
                        st.outcome("done");
                        u.verify(&m, &want).map_err(|e| told(e, "after"))?;
                        if let Some(r) = r {
                            let i = want.oneofs.len() - 1;
                            ensure!(r == u.oneof_refs[i], "{}: the reference is {:?}", after("after"), r);
                        }
                        if let Some(j) = index.get(&want) {
                            st.edges.insert(hash_of(&(s, &want)));
                            let other = u.build(parent, &states[*j].1)?;
                            // Oneofs list their fields in the order of their addition.
                            ensure!(
                                m == other,
                                "{} differs from {:?}\n{:?}\n{:?}",
                                after("the message after"),
                                states[*j].1,
                                m,
                                other
                            );
                        }
                        Ok(())
                    }
                    (Err(e), Err(all)) => {
                        st.outcome("refused");
                        ensure!(
                            all.iter().any(|x| format!("{:?}", x) == e),
                            "{}: the error is {}, not one of {:?}",
                            after("after"),
                            e,
                            all
                        );
                        u.verify(&m, s).map_err(|e| told(e, "after the refused"))?;
                        let other = u.build(parent, path)?;
                        ensure!(
                            m == other,
                            "{} is changed\n{:?}\n{:?}",
                            after("the message after the refused"),
                            m,
                            other
                        );
                        Ok(())
                    }
                    (Ok(_), Err(all)) => fail(format!("{}: no error, expected one of {:?}", after("after"), all)),
                    (Err(e), Ok(())) => fail(format!("{}: the error {}", after("after"), e)),
                }
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// Enums

fn enum_level(r: &mut Runner)
{
    let names = ["A", "B", "AB", ""];
    let values: Vec<i64> = if r.thorough() {
        vec![0, 1, -1, i64::MIN, i64::MAX]
    } else {
        vec![0, -1, i64::MIN, i64::MAX]
    };
    let len = r.by(5, 6);
    let field = |name: &str, v: i64| {
        let mut f = EnumField::new(name.to_string(), v);
        f.options = vec![protofish::context::ProtoOption {
            name: format!("{}{}", name, v),
            value: protofish::context::Constant::Bool(true),
        }];
        f
    };
    let build = |parent: TypeParent, seq: &[(usize, usize)]| -> Result<(EnumInfo, Vec<bool>), Viol> {
        let mut e = EnumInfo::new("Built".to_string(), parent);
        let mut done = vec![];
        for (n, v) in seq {
            let f = field(names[*n], values[*v]);
            done.push(call("EnumInfo::add_field", || e.add_field(f))?.is_ok());
        }
        Ok((e, done))
    };
    let parent = match r.setup("package", || {
        call("insert_package", || Context::new().insert_package(Package::new(None)).unwrap())
    }) {
        Some(p) => TypeParent::Package(p),
        None => return,
    };
    r.space(
        "enums",
        0,
        &format!("every sequence of up to {} additions of {} names with {} values", len, names.len(), values.len()),
        |ch, st| {
            let n = 1 + ch.pick(len);
            let seq: Vec<(usize, usize)> = (0..n).map(|_| (ch.pick(names.len()), ch.pick(values.len()))).collect();
            // The model keeps the additions that conflict with no earlier one.
            let mut kept: Vec<(usize, usize)> = vec![];
            let mut last = None;
            for (i, (a, b)) in seq.iter().enumerate() {
                let num = kept.iter().any(|k| k.1 == *b);
                let name = kept.iter().any(|k| k.0 == *a);
                if !num && !name {
                    kept.push((*a, *b));
                }
                if i + 1 == n {
                    last = Some((num, name));
                }
            }
            let (num, name) = last.unwrap();
            let (before, _) = build(parent, &seq[..n - 1])?;
            let (mut e, _) = build(parent, &seq[..n - 1])?;
            let (a, b) = seq[n - 1];
            let told = || format!("adding {:?} after {:?}", seq[n - 1], &seq[..n - 1]);
            st.traces += 1;
            st.steps += n as u64;
            let mut key = kept.clone();
            key.sort();
            st.state(&key);
            let f = field(names[a], values[b]);
            match call("EnumInfo::add_field", || e.add_field(f))? {
                Ok(()) => {
                    st.outcome("done");
                    ensure!(!num && !name, "{}: no error", told());
                }
                Err(x) => {
                    st.outcome("refused");
                    match x {
                        MemberInsertError::NumberConflict => ensure!(num, "{}: {:?}", told(), x),
                        MemberInsertError::NameConflict => ensure!(name, "{}: {:?}", told(), x),
                        _ => return fail(format!("{}: {:?}", told(), x)),
                    }
                    ensure!(e == before, "{}: refused, but changed\n{:?}\n{:?}", told(), before, e);
                }
            }
            for (i, v) in values.iter().enumerate() {
                let want = kept.iter().find(|k| k.1 == i).map(|k| field(names[k.0], *v));
                let got = e.get_field_by_value(*v);
                ensure!(got == want.as_ref(), "{}: value {} is {:?}, not {:?}", told(), v, got, want);
            }
            for v in [2, -2, 7, i64::MIN + 1, i64::MAX - 1] {
                ensure!(e.get_field_by_value(v).is_none(), "{}: value {} exists", told(), v);
            }
            // The same state by the kept additions alone, in another order.
            let (other, done) = build(parent, &key)?;
            ensure!(
                done.iter().all(|d| *d) && other == e,
                "{} differs from {:?}\n{:?}\n{:?}",
                told(),
                key,
                e,
                other
            );
            Ok(())
        },
    );
}

/// Messages and enums with many members.
fn rows(r: &mut Runner, mode: Mode)
{
    let parent = match r.setup("package", || {
        call("insert_package", || Context::new().insert_package(Package::new(None)).unwrap())
    }) {
        Some(p) => TypeParent::Package(p),
        None => return,
    };
    let top = r.by(24, 70);
    let more = [31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
    let sizes: Vec<usize> = (0..=top).chain(more.iter().copied().filter(|n| *n > top)).collect();
    // The i-th number in each order.
    let number = |order: usize, i: usize, n: usize| -> u64 {
        match order {
            0 => i as u64 + 1,
            1 => (n - i) as u64,
            2 if i % 2 == 0 => 1000 + i as u64,
            2 => 1000 - i as u64,
            _ => (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15),
        }
    };
    let positions = |n: usize| -> Vec<usize> {
        let mut p: Vec<usize> = if n <= 10 { (0..n).collect() } else { vec![0, 1, 7, 8, n / 2, n - 2, n - 1] };
        p.retain(|i| *i < n);
        p.dedup();
        p
    };
    r.space(
        "rows",
        0,
        &format!("messages with {} numbers of fields up to 300, numbered in 4 orders, and with none, one, many or all of them in oneofs added before or after; then each kind of addition, in conflict with members at up to 10 positions or with none", sizes.len()),
        |ch, st| {
            let n = *ch.of(&sizes);
            let order = ch.pick(4);
            let form = ch.pick(5);
            // How many oneofs there are.
            let oneofs = match form {
                0 => 0,
                1 | 2 => 1,
                3 => (n + 1) / 2,
                _ => n,
            };
            let of = |i: usize| match form {
                0 => None,
                1 | 2 => Some(0),
                3 => Some(i / 2),
                _ => Some(i),
            };
            let num = |i: usize| number(order, i, n);
            let build = || -> Result<(MessageInfo, Vec<OneofRef>), Viol> {
                let mut m = MessageInfo::new("Rows".to_string(), parent);
                let mut refs = vec![];
                let done = call("building a message", || -> Result<(), String> {
                    // Form 2 adds the fields first.
                    if form != 2 {
                        for k in 0..oneofs {
                            let o = protofish::context::Oneof::new(format!("o{}", k));
                            refs.push(m.add_oneof(o).map_err(|e| format!("{:?}", e))?);
                        }
                    }
                    for i in 0..n {
                        let mut f = MessageField::new(format!("f{}", i), num(i), ValueType::UInt32);
                        if form != 2 {
                            f.oneof = of(i).map(|o| refs[o]);
                        }
                        m.add_field(f).map_err(|e| format!("{:?}", e))?;
                    }
                    if form == 2 {
                        let mut o = protofish::context::Oneof::new("o0".to_string());
                        o.fields = (0..n).map(num).collect();
                        refs.push(m.add_oneof(o).map_err(|e| format!("{:?}", e))?);
                    }
                    Ok(())
                })?;
                match done {
                    Ok(()) => Ok((m, refs)),
                    Err(e) => fail(format!("building a message of {} fields in form {} fails: {}", n, form, e)),
                }
            };
            let (mut m, refs) = build()?;
            st.state(&(n, order, form));
            st.traces += 1;
            st.steps += n as u64;
            let told = |what: String| format!("{} fields in order {}, oneofs in form {}: {}", n, order, form, what);
            consistent_msg(&m, "message")
                .map_err(|e| Viol { msg: told(e.msg.clone()), ..e })?;
            if mode == Mode::Consistent {
                return Ok(());
            }
            let oneof_of = |m: &MessageInfo, i: usize| m.get_field(num(i)).and_then(|f| f.oneof);
            for i in 0..n {
                let f = m.get_field(num(i));
                ensure!(
                    f.map_or(false, |f| f.name == format!("f{}", i))
                        && oneof_of(&m, i) == of(i).map(|o| refs[o])
                        && m.get_field_by_name(&format!("f{}", i)) == f,
                    "{}",
                    told(format!("field {} is {:?}", i, f))
                );
            }
            ensure!(m.iter_fields().count() == n && m.oneofs.len() == oneofs, "{}", told("wrong number of members".to_string()));
            let (same, _) = build()?;
            // Conflicts change nothing.
            let free = 5_000_000u64;
            let pos = positions(n);
            for p in &pos {
                let add = |m: &mut MessageInfo, name: String, number: u64, o: Option<OneofRef>| {
                    call("MessageInfo::add_field", || {
                        let mut f = MessageField::new(name, number, ValueType::Bool);
                        f.oneof = o;
                        m.add_field(f)
                    })
                };
                for o in [None, refs.get(p % refs.len().max(1)).copied()] {
                    ensure!(
                        matches!(add(&mut m, "new".to_string(), num(*p), o)?, Err(MemberInsertError::NumberConflict)),
                        "{}",
                        told(format!("the number of field {} is not refused", p))
                    );
                    ensure!(
                        matches!(add(&mut m, format!("f{}", p), free, o)?, Err(MemberInsertError::NameConflict)),
                        "{}",
                        told(format!("the name of field {} is not refused", p))
                    );
                }
                let add = |m: &mut MessageInfo, name: String, fields: Vec<u64>| {
                    call("MessageInfo::add_oneof", || {
                        let mut o = protofish::context::Oneof::new(name);
                        o.fields = fields;
                        m.add_oneof(o)
                    })
                };
                let mut with: Vec<u64> = (0..n).filter(|i| of(*i).is_none()).map(num).collect();
                let at = (*p).min(with.len());
                with.insert(at, free);
                ensure!(
                    matches!(add(&mut m, "new".to_string(), with.clone())?, Err(OneofInsertError::FieldNotFound { field }) if field == free),
                    "{}",
                    told(format!("a oneof of {} fields with a missing field at {} is not refused", with.len(), at))
                );
                with[at] = num(*p);
                let twice = with.iter().filter(|x| **x == num(*p)).count() > 1;
                if twice || of(*p).is_some() {
                    ensure!(
                        matches!(add(&mut m, "new".to_string(), with.clone())?, Err(OneofInsertError::FieldInOneof { field }) if field == num(*p)),
                        "{}",
                        told(format!("a oneof of {} fields with the taken field {} at {} is not refused", with.len(), p, at))
                    );
                }
                if oneofs > 0 {
                    ensure!(
                        matches!(add(&mut m, format!("o{}", p % oneofs), vec![])?, Err(OneofInsertError::NameConflict)),
                        "{}",
                        told(format!("the name of oneof {} is not refused", p % oneofs))
                    );
                }
                ensure!(m == same, "{}", told(format!("refused additions at {} changed the message", p)));
            }
            // Additions without conflict change nothing else.
            let o = refs.last().copied();
            let r = call("MessageInfo::add_field", || {
                let mut f = MessageField::new("new".to_string(), free, ValueType::Bool);
                f.oneof = o;
                m.add_field(f)
            })?;
            ensure!(r.is_ok(), "{}", told(format!("a new field is refused: {:?}", r)));
            consistent_msg(&m, "message").map_err(|e| Viol { msg: told(e.msg.clone()), ..e })?;
            ensure!(
                m.iter_fields().count() == n + 1
                    && m.get_field(free).map_or(false, |f| f.name == "new" && f.oneof == o)
                    && m.get_field_by_name("new").is_some()
                    && (0..n).all(|i| m.get_field(num(i)) == same.get_field(num(i)))
                    && m.oneofs.len() == oneofs
                    && same.oneofs.iter().zip(&m.oneofs).all(|(a, b)| {
                        let with = if Some(a.self_ref) == o { 1 } else { 0 };
                        a.name == b.name && a.self_ref == b.self_ref && b.fields.len() == a.fields.len() + with && a.fields[..] == b.fields[..a.fields.len()]
                    }),
                "{}",
                told(format!("a new field has another effect\n{:?}", m))
            );
            Ok(())
        },
    );
    r.space(
        "enum-rows",
        0,
        &format!("enums with {} numbers of values up to 300 in 4 orders; then additions in conflict with values at up to 10 positions or with none", sizes.len()),
        |ch, st| {
            let n = *ch.of(&sizes);
            let order = ch.pick(4);
            let num = |i: usize| number(order, i, n) as i64;
            let build = || -> Result<EnumInfo, Viol> {
                let mut e = EnumInfo::new("Rows".to_string(), parent);
                for i in 0..n {
                    let r = call("EnumInfo::add_field", || e.add_field(EnumField::new(format!("V{}", i), num(i))))?;
                    ensure!(r.is_ok(), "value {} of {} is refused: {:?}", i, n, r);
                }
                Ok(e)
            };
            let mut e = build()?;
            let same = build()?;
            st.state(&(n, order));
            st.traces += 1;
            st.steps += n as u64;
            for i in 0..n {
                ensure!(
                    e.get_field_by_value(num(i)).map_or(false, |f| f.name == format!("V{}", i) && f.value == num(i)),
                    "{} values in order {}: value {} is {:?}",
                    n,
                    order,
                    i,
                    e.get_field_by_value(num(i))
                );
            }
            for p in positions(n) {
                let a = call("EnumInfo::add_field", || e.add_field(EnumField::new("new".to_string(), num(p))))?;
                let b = call("EnumInfo::add_field", || e.add_field(EnumField::new(format!("V{}", p), -5)))?;
                ensure!(
                    matches!(a, Err(MemberInsertError::NumberConflict))
                        && matches!(b, Err(MemberInsertError::NameConflict))
                        && e == same,
                    "{} values in order {}: additions in conflict with {} give {:?}, {:?}",
                    n,
                    order,
                    p,
                    a,
                    b
                );
            }
            let r = call("EnumInfo::add_field", || e.add_field(EnumField::new("new".to_string(), -5)))?;
            ensure!(
                r.is_ok()
                    && e.get_field_by_value(-5).map_or(false, |f| f.name == "new")
                    && (0..n).all(|i| e.get_field_by_value(num(i)) == same.get_field_by_value(num(i))),
                "{} values in order {}: a new value gives {:?}",
                n,
                order,
                r
            );
            Ok(())
        },
    );
}

/// Numbers that agree in their lower or upper bits, and their neighbours.
fn telling_numbers() -> Vec<u64>
{
    let mut v: BTreeSet<u64> = [0, 1, 2, 5, 19000, 100, u64::MAX, u64::MAX - 1].into_iter().collect();
    for bits in [3, 7, 8, 14, 16, 28, 29, 31, 32, 33, 48, 53, 56, 60, 61, 62, 63] {
        let b = 1u64 << bits;
        v.extend([b - 1, b, b + 1, b + 5]);
    }
    v.into_iter().collect()
}

/// Names that are alike in part, and one that is not.
const ALIKE: [&str; 26] = [
    "a", "A", "aa", "a_", "_a", "a1", "a ", " a", "", " ", "a.b", ".a", "a.", "b.a", "ab", "aB", "\u{e9}", "e\u{301}", "\u{e8}", "a\0", "\0",
    "a\0b", "abcdefghijklmnopqrstuvwxyz_abcdefgh0", "abcdefghijklmnopqrstuvwxyz_abcdefgh1", "abcdefghijklmnopqrstuvwxyz_abcdefgh", "z",
];

/// All pairs of members with numbers and names that are alike.
fn pairs(r: &mut Runner, mode: Mode)
{
    let parent = match r.setup("package", || {
        call("insert_package", || Context::new().insert_package(Package::new(None)).unwrap())
    }) {
        Some(p) => TypeParent::Package(p),
        None => return,
    };
    let nums = telling_numbers();
    r.space(
        "named-pairs",
        0,
        "contexts with two packages and two types (messages or enums, in a package or a message), with each two of the names, in any order",
        |ch, st| {
            let names = [*ch.of(&ALIKE), *ch.of(&ALIKE)];
            let form = ch.pick(2);
            let kinds = if form == 0 { 0 } else { ch.pick(8) };
            let clash = names[0] == names[1];
            st.state(&(names, form, kinds));
            st.traces += 1;
            st.steps += 2;
            let mut c = Context::new();
            let told = |what: String| format!("names {:?}, kinds {}: {}", names, kinds, what);
            if form == 0 {
                let mut add = |n: &str| call("insert_package", || c.insert_package(Package::new(Some(n.to_string()))));
                let (a, b) = (add(names[0])?, add(names[1])?);
                ensure!(
                    a.is_ok() && if clash { b.err() == a.ok() } else { b.is_ok() && a != b },
                    "{}",
                    told(format!("inserting two packages gives {:?} and {:?}", a, b))
                );
                for (r, name) in [(a, names[0]), (b, names[1])] {
                    if let Ok(r) = r {
                        // Types tell the name of their package.
                        let t = call("insert_message", || c.insert_message(MessageInfo::new("T".to_string(), TypeParent::Package(r))))?;
                        let full = t.map(|t| c.resolve_message(t).full_name.clone());
                        ensure!(
                            name.is_empty() || full.as_deref().ok() == Some(&format!("{}.T", name)),
                            "{}",
                            told(format!("a type in package {:?} is {:?}", name, full))
                        );
                    }
                }
                return Ok(());
            }
            let p = match call("insert_package", || c.insert_package(Package::new(Some("p".to_string()))))? {
                Ok(p) => p,
                Err(_) => return fail("a package is refused"),
            };
            let mut parent = TypeParent::Package(p);
            let mut scope = "p".to_string();
            if kinds & 4 != 0 {
                match call("insert_message", || c.insert_message(MessageInfo::new("Outer".to_string(), parent)))? {
                    Ok(m) => parent = TypeParent::Message(m),
                    Err(_) => return fail("a message is refused"),
                }
                scope = "p.Outer".to_string();
            }
            let mut res = vec![];
            for i in 0..2 {
                let name = names[i].to_string();
                res.push(call("inserting a type", || match kinds & (1 << i) {
                    0 => c.insert_message(MessageInfo::new(name, parent)).map(TypeRef::Message),
                    _ => c.insert_enum(EnumInfo::new(name, parent)).map(TypeRef::Enum),
                })?);
            }
            ensure!(
                match (&res[0], &res[1]) {
                    (Ok(a), Ok(b)) => !clash && a != b,
                    (Ok(a), Err(InsertError::TypeExists { original })) => clash && original == a,
                    _ => false,
                },
                "{}",
                told(format!("inserting two types gives {:?}", res))
            );
            for (r, name) in res.iter().zip(names) {
                if let Ok(r) = r {
                    let full = format!("{}.{}", scope, name);
                    let got = call("get_type", || c.get_type(&full))?;
                    let same = match (r, got) {
                        (TypeRef::Message(r), Some(TypeInfo::Message(m))) => m.self_ref == *r && m.full_name == full && m.name == name && m.parent == parent,
                        (TypeRef::Enum(r), Some(TypeInfo::Enum(e))) => e.self_ref == *r && e.full_name == full && e.name == name && e.parent == parent,
                        _ => false,
                    };
                    ensure!(same, "{}", told(format!("{:?} is {:?}", full, got)));
                }
            }
            Ok(())
        },
    );
    r.space(
        "pairs",
        0,
        &format!(
            "messages with two fields of each two of {} numbers or each two of {} names, in any order, and with the fields in no oneof, in two, or in one that was added before or after one or both of them; and the same for two oneofs and two enum values",
            nums.len(),
            ALIKE.len()
        ),
        |ch, st| {
            let by_number = ch.pick(2) == 0;
            let (n, names) = if by_number {
                ([*ch.of(&nums), *ch.of(&nums)], ["first", "second"])
            } else {
                ([7, 3], [*ch.of(&ALIKE), *ch.of(&ALIKE)])
            };
            let clash = n[0] == n[1] || names[0] == names[1];
            let form = ch.pick(if by_number { 6 } else { 8 });
            st.state(&(n, names, form));
            st.traces += 1;
            st.steps += 4;
            let told = |what: String| format!("numbers {:?}, names {:?}, form {}: {}", n, names, form, what);
            if form >= 5 {
                // Enum values, and oneofs.
                if form == 7 {
                    return Ok(());
                }
                if form == 6 {
                    let mut m = MessageInfo::new("Pairs".to_string(), parent);
                    let mut add = |name: &str| {
                        call("MessageInfo::add_oneof", || m.add_oneof(protofish::context::Oneof::new(name.to_string())))
                    };
                    let (a, b) = (add(names[0])?, add(names[1])?);
                    ensure!(
                        a.is_ok() && if clash { matches!(b, Err(OneofInsertError::NameConflict)) } else { b.is_ok() },
                        "{}",
                        told(format!("adding two oneofs gives {:?} and {:?}", a, b))
                    );
                    ensure!(m.oneofs.len() == if clash { 1 } else { 2 }, "{}", told("wrong number of oneofs".to_string()));
                    for (r, name) in [(a, names[0]), (b, names[1])] {
                        if let Ok(r) = r {
                            ensure!(
                                m.get_oneof(r).map_or(false, |o| o.name == name && o.self_ref == r),
                                "{}",
                                told(format!("oneof {:?} is {:?}", name, m.get_oneof(r)))
                            );
                        }
                    }
                    return Ok(());
                }
                let mut e = EnumInfo::new("Pairs".to_string(), parent);
                let mut add = |i: usize| {
                    call("EnumInfo::add_field", || e.add_field(EnumField::new(names[i].to_string(), n[i] as i64)))
                };
                let (a, b) = (add(0)?, add(1)?);
                let want = if n[0] == n[1] {
                    matches!(b, Err(MemberInsertError::NumberConflict))
                } else if clash {
                    matches!(b, Err(MemberInsertError::NameConflict))
                } else {
                    b.is_ok()
                };
                ensure!(a.is_ok() && want, "{}", told(format!("adding two values gives {:?} and {:?}", a, b)));
                for i in 0..2 {
                    let f = e.get_field_by_value(n[i] as i64);
                    let want = if i == 0 || !clash { Some(names[i]) } else if n[0] == n[1] { Some(names[0]) } else { None };
                    ensure!(
                        f.map(|f| &f.name[..]) == want && f.map_or(true, |f| f.value == n[i] as i64),
                        "{}",
                        told(format!("value {} is {:?}", n[i] as i64, f))
                    );
                }
                return Ok(());
            }
            let mut m = MessageInfo::new("Pairs".to_string(), parent);
            let mut refs: [Option<OneofRef>; 2] = [None, None];
            fn oneof(m: &mut MessageInfo, name: &str, fields: &[u64]) -> Result<OneofRef, Viol>
            {
                let mut o = protofish::context::Oneof::new(name.to_string());
                o.fields = fields.to_vec();
                match call("MessageInfo::add_oneof", || m.add_oneof(o))? {
                    Ok(r) => Ok(r),
                    Err(e) => fail(format!("adding the oneof {:?} with {:?} gives {:?}", name, fields, e)),
                }
            }
            let say = |e: Viol| Viol { msg: told(e.msg.clone()), ..e };
            // 0: no oneof. 1: two oneofs. 2: a oneof added first. 3: a oneof with the first field,
            // then the second. 4: a oneof with both fields.
            match form {
                1 => refs = [Some(oneof(&mut m, "o", &[]).map_err(say)?), Some(oneof(&mut m, "p", &[]).map_err(say)?)],
                2 => refs = [Some(oneof(&mut m, "o", &[]).map_err(say)?); 2],
                _ => {}
            }
            let mut res = vec![];
            for i in 0..2 {
                let mut f = MessageField::new(names[i].to_string(), n[i], if i == 0 { ValueType::Bool } else { ValueType::Bytes });
                f.oneof = refs[i];
                res.push(call("MessageInfo::add_field", || m.add_field(f))?);
                if form == 3 && i == 0 {
                    refs = [Some(oneof(&mut m, "o", &n[..1]).map_err(say)?); 2];
                }
            }
            let want = if n[0] == n[1] {
                matches!(res[1], Err(MemberInsertError::NumberConflict))
            } else if clash {
                matches!(res[1], Err(MemberInsertError::NameConflict))
            } else {
                res[1].is_ok()
            };
            ensure!(res[0].is_ok() && want, "{}", told(format!("adding two fields gives {:?}", res)));
            let kept = if clash { 1 } else { 2 };
            if form == 4 {
                refs = [Some(oneof(&mut m, "o", &n[..kept]).map_err(say)?); 2];
            }
            if mode == Mode::Consistent {
                return consistent_msg(&m, "message").map_err(say);
            }
            ensure!(m.iter_fields().count() == kept, "{}", told("wrong number of fields".to_string()));
            for i in 0..kept {
                let f = m.get_field(n[i]);
                ensure!(
                    f.map_or(false, |f| f.number == n[i] && f.name == names[i] && f.oneof == refs[i])
                        && f == m.get_field_by_name(names[i]),
                    "{}",
                    told(format!("field {} is {:?}", n[i], f))
                );
            }
            for o in &m.oneofs {
                let want: BTreeSet<u64> = (0..kept).filter(|i| refs[*i] == Some(o.self_ref)).map(|i| n[i]).collect();
                ensure!(
                    o.fields.len() == want.len() && o.fields.iter().all(|n| want.contains(n)),
                    "{}",
                    told(format!("oneof {:?} lists {:?}", o.name, o.fields))
                );
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// Contexts

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum CtxOp
{
    Package(usize),
    /// Message (with which content) or enum, name, parent.
    Type(Option<usize>, usize, Par),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Par
{
    Pkg(usize),
    Msg(usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct TyM
{
    msg: bool,
    name: String,
    full: String,
    parent: Par,
    /// None if declared in the text.
    content: Option<usize>,
}

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct CtxM
{
    pkgs: Vec<Option<String>>,
    types: Vec<TyM>,
}

const PACKAGES: [Option<&str>; 6] = [None, Some("P"), Some("Q"), Some("P.M"), Some("P.N"), Some("")];
const TYPE_NAMES: [&str; 3] = ["M", "N", "P"];

impl CtxM
{
    fn prefix(&self, p: Par) -> String
    {
        match p {
            Par::Pkg(i) => match &self.pkgs[i] {
                Some(n) => format!("{}.", n),
                None => String::new(),
            },
            Par::Msg(i) => format!("{}.", self.types[i].full),
        }
    }

    /// Err: the index of the conflicting package or type.
    fn apply(&mut self, op: &CtxOp) -> Result<(), usize>
    {
        match op {
            CtxOp::Package(n) => {
                let name = PACKAGES[*n].map(|s| s.to_string());
                if let Some(i) = self.pkgs.iter().position(|p| *p == name) {
                    return Err(i);
                }
                self.pkgs.push(name);
            }
            CtxOp::Type(content, n, parent) => {
                let full = format!("{}{}", self.prefix(*parent), TYPE_NAMES[*n]);
                if let Some(i) = self.types.iter().position(|t| t.full == full) {
                    return Err(i);
                }
                self.types.push(TyM {
                    msg: content.is_some(),
                    name: TYPE_NAMES[*n].to_string(),
                    full,
                    parent: *parent,
                    content: Some(content.unwrap_or(0)),
                });
            }
        }
        Ok(())
    }
}

struct Real
{
    ctx: Context,
    pkgs: Vec<PackageRef>,
    types: Vec<TypeRef>,
}

struct Base
{
    text: Option<&'static str>,
    model: CtxM,
    services: Vec<String>,
}

fn bases() -> Vec<Base>
{
    let ty = |msg: bool, name: &str, full: &str, parent: Par| TyM {
        msg,
        name: name.to_string(),
        full: full.to_string(),
        parent,
        content: None,
    };
    vec![
        Base {
            text: None,
            model: CtxM::default(),
            services: vec![],
        },
        Base {
            text: Some(
                "syntax = 'proto3'; package P; message M { enum N { Z = 0; } message K { M m = 1; } oneof o { int32 a = 1; K k = 2; } map<int32, N> mm = 3; } enum E { Z = 0; } service S { rpc R (M) returns (M.K); } service T { rpc R (M.K) returns (stream M); }",
            ),
            model: CtxM {
                pkgs: vec![Some("P".to_string())],
                types: vec![
                    ty(true, "M", "P.M", Par::Pkg(0)),
                    ty(false, "N", "P.M.N", Par::Msg(0)),
                    ty(true, "K", "P.M.K", Par::Msg(0)),
                    ty(false, "E", "P.E", Par::Pkg(0)),
                    ty(true, "MmEntry", "P.M.MmEntry", Par::Msg(0)),
                ],
            },
            services: vec!["P.S".to_string(), "P.T".to_string()],
        },
        Base {
            text: Some("syntax = 'proto3'; message N { optional N n = 1; message P { N q = 1; } } service V { rpc N (N.P) returns (N); }"),
            model: CtxM {
                pkgs: vec![None],
                types: vec![
                    ty(true, "N", "N", Par::Pkg(0)),
                    ty(true, "P", "N.P", Par::Msg(0)),
                ],
            },
            services: vec!["V".to_string()],
        },
    ]
}

struct CtxUniverse
{
    bases: Vec<Base>,
    contents: Vec<Vec<MsgOp>>,
    msgs: MsgUniverse,
    pkgs: usize,
    names: usize,
}

impl CtxUniverse
{
    fn new(contents: Vec<Vec<MsgOp>>, pkgs: usize, names: usize) -> Result<CtxUniverse, Viol>
    {
        Ok(CtxUniverse {
            bases: bases(),
            contents,
            msgs: MsgUniverse::new(3, &[1, 2, 300], 2)?,
            pkgs,
            names,
        })
    }

    fn ops(&self, m: &CtxM) -> Vec<CtxOp>
    {
        let mut v: Vec<CtxOp> = (0..self.pkgs).map(CtxOp::Package).collect();
        let mut parents: Vec<Par> = (0..m.pkgs.len()).map(Par::Pkg).collect();
        for (i, t) in m.types.iter().enumerate() {
            if t.msg {
                parents.push(Par::Msg(i));
            }
        }
        for p in parents {
            for n in 0..self.names {
                v.push(CtxOp::Type(None, n, p));
                for c in 0..self.contents.len() {
                    v.push(CtxOp::Type(Some(c), n, p));
                }
            }
        }
        v
    }

    fn start(&self, base: usize) -> Result<Real, Viol>
    {
        let b = &self.bases[base];
        let mut ctx = match b.text {
            None => call("Context::new", Context::new)?,
            Some(t) => match parse(&[t.to_string()])? {
                Ok(c) => c,
                Err(e) => return fail(format!("{:?} for {}", e, t)),
            },
        };
        let mut pkgs = vec![];
        for p in &b.model.pkgs {
            let name = p.clone();
            match call("insert_package", || ctx.insert_package(Package::new(name)))? {
                Err(r) => pkgs.push(r),
                Ok(_) => return fail(format!("package {:?} of the text does not exist", p)),
            }
        }
        let mut types = vec![];
        for t in &b.model.types {
            types.push(match call("lookup", || type_ref(&ctx, &t.full))? {
                Some(r) => r,
                None => return fail(format!("type {:?} of the text does not exist", t.full)),
            });
        }
        Ok(Real { ctx, pkgs, types })
    }

    /// Ok(Err(x)): refused, with the reference of the existing item.
    fn apply(&self, r: &mut Real, op: &CtxOp) -> Result<Result<(), String>, Viol>
    {
        match op {
            CtxOp::Package(n) => {
                let p = Package::new(PACKAGES[*n].map(|s| s.to_string()));
                Ok(match call("insert_package", || r.ctx.insert_package(p))? {
                    Ok(x) => {
                        r.pkgs.push(x);
                        Ok(())
                    }
                    Err(x) => Err(format!("{:?}", x)),
                })
            }
            CtxOp::Type(content, n, parent) => {
                let parent = match parent {
                    Par::Pkg(i) => TypeParent::Package(r.pkgs[*i]),
                    Par::Msg(i) => match r.types[*i] {
                        TypeRef::Message(m) => TypeParent::Message(m),
                        TypeRef::Enum(_) => return fail("a message became an enum"),
                    },
                };
                let name = TYPE_NAMES[*n].to_string();
                let got = match content {
                    Some(c) => {
                        let mut m = self.msgs.build(parent, &self.contents[*c])?;
                        m.name = name;
                        call("insert_message", || r.ctx.insert_message(m))?.map(TypeRef::Message)
                    }
                    None => {
                        let mut e = EnumInfo::new(name, parent);
                        call("EnumInfo::add_field", || e.add_field(EnumField::new("Z".to_string(), 5)).is_ok())?;
                        call("insert_enum", || r.ctx.insert_enum(e))?.map(TypeRef::Enum)
                    }
                };
                Ok(match got {
                    Ok(x) => {
                        r.types.push(x);
                        Ok(())
                    }
                    Err(InsertError::TypeExists { original }) => Err(format!("{:?}", original)),
                    Err(e) => Err(format!("{:?}", e)),
                })
            }
        }
    }

    fn build(&self, base: usize, path: &[CtxOp]) -> Result<Real, Viol>
    {
        let mut r = self.start(base)?;
        for op in path {
            if let Err(e) = self.apply(&mut r, op)? {
                return fail(format!("{:?} is refused ({}) in {:?}", op, e, path));
            }
        }
        Ok(r)
    }

    fn verify(&self, r: &Real, s: &CtxM, base: usize) -> R
    {
        call("lookup", || self.verify_inner(r, s, base))?
    }

    fn verify_inner(&self, r: &Real, s: &CtxM, base: usize) -> R
    {
        let ctx = &r.ctx;
        for (i, p) in r.pkgs.iter().enumerate() {
            ctx.resolve_package(*p);
            ensure!(!r.pkgs[..i].contains(p), "two packages have one reference");
        }
        for (i, t) in s.types.iter().enumerate() {
            let found = match ctx.get_type(&t.full) {
                Some(x) => x,
                None => return fail(format!("{:?} is not found", t.full)),
            };
            ensure!(!r.types[..i].contains(&r.types[i]), "two types have one reference");
            let parent = match t.parent {
                Par::Pkg(i) => TypeParent::Package(r.pkgs[i]),
                Par::Msg(i) => match r.types[i] {
                    TypeRef::Message(m) => TypeParent::Message(m),
                    TypeRef::Enum(_) => return fail("a message became an enum"),
                },
            };
            ensure!(
                found.name() == t.name && found.full_name() == t.full && found.parent() == parent,
                "{:?} is {:?} {:?}",
                t,
                found.name(),
                found.full_name()
            );
            match (found, r.types[i]) {
                (TypeInfo::Message(m), TypeRef::Message(x)) => {
                    ensure!(t.msg && m.self_ref == x && std::ptr::eq(ctx.resolve_message(x), m), "{:?} does not resolve to itself", t);
                    let mut want = vec![];
                    for (j, u) in s.types.iter().enumerate() {
                        if u.parent == Par::Msg(i) {
                            want.push(r.types[j]);
                        }
                    }
                    let got: BTreeSet<String> = m.inner_types.iter().map(|x| format!("{:?}", x)).collect();
                    let wanted: BTreeSet<String> = want.iter().map(|x| format!("{:?}", x)).collect();
                    ensure!(
                        got == wanted && m.inner_types.len() == want.len(),
                        "{:?} has the inner types {:?}",
                        t,
                        m.inner_types
                    );
                    if let Some(c) = t.content {
                        // The content is as given.
                        let given = match self.msgs.build(parent, &self.contents[c]) {
                            Ok(m) => m,
                            Err(e) => return Err(e),
                        };
                        ensure!(
                            m.iter_fields().eq(given.iter_fields()) && m.oneofs == given.oneofs,
                            "the content of {:?} is changed",
                            t
                        );
                        for f in given.iter_fields() {
                            ensure!(
                                m.get_field(f.number) == Some(f) && m.get_field_by_name(&f.name) == Some(f),
                                "field {:?} of {:?} is not found",
                                f.name,
                                t
                            );
                        }
                    }
                }
                (TypeInfo::Enum(e), TypeRef::Enum(x)) => {
                    ensure!(!t.msg && e.self_ref == x && std::ptr::eq(ctx.resolve_enum(x), e), "{:?} does not resolve to itself", t);
                    if t.content.is_some() {
                        ensure!(
                            e.get_field_by_value(5).map_or(false, |f| f.name == "Z") && e.get_field_by_value(0).is_none(),
                            "the content of {:?} is changed",
                            t
                        );
                    }
                }
                _ => return fail(format!("{:?} is of the other kind", t)),
            }
        }
        for s in &self.bases[base].services {
            ensure!(ctx.get_service(s).is_some(), "service {:?} is gone", s);
        }
        // Names that are not there.
        let mut prefixes: Vec<String> = vec![String::new()];
        prefixes.extend(PACKAGES.iter().flatten().map(|p| format!("{}.", p)));
        prefixes.extend(s.types.iter().map(|t| format!("{}.", t.full)));
        for p in &prefixes {
            for n in TYPE_NAMES {
                let full = format!("{}{}", p, n);
                let there = s.types.iter().any(|t| t.full == full);
                ensure!(
                    ctx.get_type(&full).is_some() == there,
                    "{:?} is {}found",
                    full,
                    if there { "not " } else { "" }
                );
            }
        }
        Ok(())
    }
}

fn type_ref(ctx: &Context, full: &str) -> Option<TypeRef>
{
    ctx.get_type(full).map(|t| match t {
        TypeInfo::Message(m) => TypeRef::Message(m.self_ref),
        TypeInfo::Enum(e) => TypeRef::Enum(e.self_ref),
    })
}

/// Everything the context exposes about its earlier items is unchanged.
fn unchanged(before: &Real, after: &Real, op: &CtxOp) -> R
{
    call("lookup", || {
        for (i, t) in before.types.iter().enumerate() {
            match t {
                TypeRef::Message(m) => {
                    let (a, b) = (before.ctx.resolve_message(*m), after.ctx.resolve_message(*m));
                    let is_parent = matches!(op, CtxOp::Type(_, _, Par::Msg(p)) if *p == i);
                    let same = if is_parent {
                        let n = a.inner_types.len();
                        a.name == b.name
                            && a.full_name == b.full_name
                            && a.parent == b.parent
                            && a.self_ref == b.self_ref
                            && a.oneofs == b.oneofs
                            && a.iter_fields().eq(b.iter_fields())
                            && b.inner_types.len() == n + 1
                            && b.inner_types[..n] == a.inner_types[..]
                            && Some(&b.inner_types[n]) == after.types.last()
                    } else {
                        a == b
                    };
                    ensure!(same, "{:?} is changed\n{:?}", a, b);
                }
                TypeRef::Enum(e) => {
                    let (a, b) = (before.ctx.resolve_enum(*e), after.ctx.resolve_enum(*e));
                    ensure!(a == b, "{:?} is changed\n{:?}", a, b);
                }
            }
        }
        for (i, p) in before.pkgs.iter().enumerate() {
            let is_parent = matches!(op, CtxOp::Type(_, _, Par::Pkg(p)) if *p == i);
            let (a, b) = (before.ctx.resolve_package(*p), after.ctx.resolve_package(*p));
            ensure!((a == b) != is_parent, "package {} is {}changed", i, if is_parent { "not " } else { "" });
        }
        Ok(())
    })?
}

fn contents() -> Vec<Vec<MsgOp>>
{
    vec![
        vec![],
        vec![
            MsgOp::Field(0, 300, None),
            MsgOp::Oneof(1, vec![300]),
            MsgOp::Field(1, 2, Some(0)),
            MsgOp::Oneof(0, vec![]),
            MsgOp::Field(2, 1, None),
        ],
    ]
}

fn context_level(r: &mut Runner, mode: Mode)
{
    // Every sequence of operations.
    let (len, names) = r.by((4, 2), (5, 2));
    let u = match r.setup("contexts", || CtxUniverse::new(contents(), 5, names)) {
        Some(u) => u,
        None => return,
    };
    r.space(
        "contexts",
        0,
        &format!(
            "every sequence of up to {} insertions of 5 packages and of messages (empty, or with fields and oneofs) and enums with {} names into any package or message, conflicting or not, on an empty and 2 parsed contexts",
            len, names
        ),
        |ch, st| one_history(&u, ch, st, len, mode, 0),
    );
    // Longer histories of few operations.
    let (len, names) = r.by((6, 1), (7, 1));
    let u = match r.setup("contexts", || CtxUniverse::new(vec![vec![]], 2, names)) {
        Some(u) => u,
        None => return,
    };
    r.space(
        "long-contexts",
        0,
        &format!(
            "every sequence of up to {} insertions of 2 packages and of messages and enums of one name into any package or message, on an empty and 2 parsed contexts",
            len
        ),
        |ch, st| one_history(&u, ch, st, len, mode, 0),
    );
    // Many insertions.
    let n = r.by(300, 2000);
    let u = match r.setup("contexts", || CtxUniverse::new(vec![vec![]], 2, 2)) {
        Some(u) => u,
        None => return,
    };
    r.space(
        "chains",
        0,
        &format!("chains of nested messages and rows of packages of every length up to {}, then a conflict", n),
        |ch, st| {
            let depth = 1 + ch.pick(n);
            let row = ch.flag();
            let mut real = u.start(0)?;
            let mut types = vec![];
            call("inserting", || -> R {
                if row {
                    for i in 0..depth {
                        let p = real.ctx.insert_package(Package::new(Some(format!("p{}", i))));
                        let p = match p {
                            Ok(p) => p,
                            Err(_) => return fail(format!("package {} exists", i)),
                        };
                        let m = real.ctx.insert_message(MessageInfo::new("M".to_string(), TypeParent::Package(p)));
                        ensure!(m.is_ok(), "message {} exists", i);
                        types.push(format!("p{}.M", i));
                    }
                } else {
                    let p = match real.ctx.insert_package(Package::new(None)) {
                        Ok(p) => p,
                        Err(_) => return fail("package exists"),
                    };
                    let mut parent = TypeParent::Package(p);
                    let mut full = String::new();
                    for i in 0..depth {
                        if i > 0 {
                            full.push('.');
                        }
                        full.push('M');
                        let m = match real.ctx.insert_message(MessageInfo::new("M".to_string(), parent)) {
                            Ok(m) => m,
                            Err(_) => return fail(format!("message {} exists", i)),
                        };
                        if mode == Mode::Atomic {
                            let again = real.ctx.insert_enum(EnumInfo::new("M".to_string(), parent));
                            match again {
                                Err(InsertError::TypeExists { original: TypeRef::Message(x) }) if x == m => {}
                                x => return fail(format!("{:?} at level {}", x, i)),
                            }
                        }
                        parent = TypeParent::Message(m);
                        types.push(full.clone());
                    }
                }
                Ok(())
            })??;
            st.traces += 1;
            st.steps += depth as u64;
            st.state(&(depth, row));
            st.outcome("chain");
            match mode {
                Mode::Consistent => {
                    let stride = 1 + depth / 50;
                    let some: Vec<String> = types.iter().rev().step_by(stride).cloned().collect();
                    consistent(&real.ctx, &some, &[])
                }
                Mode::Atomic => call("lookup", || {
                    for t in types.iter().rev().step_by(1 + depth / 50) {
                        match real.ctx.get_message(t) {
                            Some(m) => ensure!(m.full_name == *t, "{:?} finds {:?}", t, m.full_name),
                            None => return fail(format!("{:?} is not found", t)),
                        }
                    }
                    Ok(())
                })?,
            }
        },
    );
}

fn one_history(u: &CtxUniverse, ch: &mut Ch, st: &mut St, len: usize, mode: Mode, base_from: usize) -> R
{
    let base = base_from + ch.pick(u.bases.len() - base_from);
    let n = ch.pick(len) + 1;
    let mut s = u.bases[base].model.clone();
    let mut path = vec![];
    for _ in 0..n - 1 {
        let ops = u.ops(&s);
        let op = ch.of(&ops).clone();
        if s.apply(&op).is_ok() {
            path.push(op);
        } else {
            // A refused operation changes nothing (checked where it comes last).
            return Ok(());
        }
    }
    let ops = u.ops(&s);
    let op = ch.of(&ops).clone();
    st.state(&(base, &s));
    st.traces += 1;
    st.steps += n as u64;
    st.sample(|| format!("base {}: {:?} then {:?}", base, path, op));
    let told = |e: Viol, what: &str| Viol {
        msg: format!("{} {:?} after {:?} on base {}: {}", what, op, path, base, e.msg),
        ..e
    };
    let mut real = u.build(base, &path)?;
    if mode == Mode::Consistent {
        let names = |s: &CtxM| s.types.iter().map(|t| t.full.clone()).collect::<Vec<_>>();
        let refused = u.apply(&mut real, &op)?.is_err();
        let mut after = s.clone();
        if !refused {
            let _ = after.apply(&op);
        }
        let there: Vec<String> = call("lookup", || {
            names(&after).into_iter().filter(|n| real.ctx.get_type(n).is_some()).collect()
        })?;
        consistent(&real.ctx, &there, &u.bases[base].services).map_err(|e| told(e, "after"))?;
        return call("lookup", || -> R {
            for (i, t) in after.types.iter().enumerate() {
                if let (Par::Pkg(p), Some(x)) = (t.parent, real.ctx.get_type(&t.full)) {
                    ensure!(
                        x.parent() == TypeParent::Package(real.pkgs[p]),
                        "type {} has another parent",
                        i
                    );
                    ensure!(type_ref(&real.ctx, &t.full) == Some(real.types[i]), "type {} has another reference", i);
                }
            }
            Ok(())
        })?
        .map_err(|e| told(e, "after"));
    }
    let before = u.build(base, &path)?;
    ensure!(real.ctx == before.ctx, "the same operations give different contexts: {:?} on base {}", path, base);
    let mut want = s.clone();
    match (u.apply(&mut real, &op)?, want.apply(&op)) {
        (Ok(()), Ok(())) => {
            st.outcome("done");
            st.edges.insert(hash_of(&(&s, &want)));
            u.verify(&real, &want, base).map_err(|e| told(e, "after"))?;
            unchanged(&before, &real, &op).map_err(|e| told(e, "after"))
        }
        (Err(e), Err(i)) => {
            st.outcome("refused");
            let existing = match op {
                CtxOp::Package(_) => format!("{:?}", real.pkgs[i]),
                CtxOp::Type(..) => format!("{:?}", real.types[i]),
            };
            ensure!(
                e == existing,
                "{:?} after {:?} on base {} conflicts with {}, but the error names {}",
                op,
                path,
                base,
                existing,
                e
            );
            ensure!(
                real.ctx == before.ctx,
                "{:?} after {:?} on base {} is refused, but changes the context",
                op,
                path,
                base
            );
            u.verify(&real, &s, base).map_err(|e| told(e, "after the refused"))
        }
        (Ok(()), Err(i)) => fail(format!(
            "{:?} after {:?} on base {} conflicts with item {}, but is done",
            op, path, base, i
        )),
        (Err(e), Ok(())) => fail(format!("{:?} after {:?} on base {} is refused: {}", op, path, base, e)),
    }
}

/// Messages of every reachable content, inserted.
fn inserted_messages(r: &mut Runner, mode: Mode)
{
    let u = match r.setup("messages", || MsgUniverse::new(3, &[1, 2, 300], r_oneofs(mode))) {
        Some(u) => u,
        None => return,
    };
    let (states, _) = u.explore(200_000);
    r.space(
        "inserted-messages",
        0,
        &format!(
            "messages of all {} reachable contents, inserted into a package or a message, then once more (refused)",
            states.len()
        ),
        |ch, st| {
            let (s, path) = ch.of(&states);
            let nested = ch.flag();
            st.state(&(s, nested));
            st.traces += 1;
            st.steps += path.len() as u64;
            let mut ctx = Context::new();
            let (parent, full) = call("inserting", || -> Result<_, Viol> {
                let p = match ctx.insert_package(Package::new(Some("P".to_string()))) {
                    Ok(p) => p,
                    Err(_) => return fail("a package exists in a new context"),
                };
                if !nested {
                    return Ok((TypeParent::Package(p), "P.Built"));
                }
                match ctx.insert_message(MessageInfo::new("Outer".to_string(), TypeParent::Package(p))) {
                    Ok(m) => Ok((TypeParent::Message(m), "P.Outer.Built")),
                    Err(e) => fail(format!("{:?}", e)),
                }
            })??;
            let m = u.build(parent, path)?;
            let r = call("insert_message", || ctx.insert_message(m))?;
            let r = match r {
                Ok(r) => r,
                Err(e) => return fail(format!("{:?} for {:?}", e, path)),
            };
            st.outcome("inserted");
            let other = u.build(parent, &[])?;
            if mode == Mode::Consistent {
                consistent(&ctx, &[full.to_string()], &[])?;
                let _ = call("insert_message", || ctx.insert_message(other))?;
                return consistent(&ctx, &[full.to_string()], &[]);
            }
            let check = |ctx: &Context| -> R {
                call("lookup", || {
                    let got = match ctx.get_message(full) {
                        Some(m) => m,
                        None => return fail(format!("{} is not found", full)),
                    };
                    ensure!(got.full_name == full && got.self_ref == r && got.parent == parent, "{} is {:?}", full, got);
                    u.verify(got, s)
                })?
                .map_err(|e| Viol {
                    msg: format!("inserting {:?}: {}", path, e.msg),
                    ..e
                })
            };
            check(&ctx)?;
            match call("insert_message", || ctx.insert_message(other))? {
                Err(InsertError::TypeExists { original: TypeRef::Message(x) }) if x == r => {}
                x => return fail(format!("inserting {} again gives {:?}", full, x)),
            }
            check(&ctx)
        },
    );
}

fn r_oneofs(_: Mode) -> usize
{
    2
}

pub fn b01(r: &mut Runner)
{
    message_level(r, Mode::Atomic);
    enum_level(r);
    rows(r, Mode::Atomic);
    pairs(r, Mode::Atomic);
    context_level(r, Mode::Atomic);
    inserted_messages(r, Mode::Atomic);
    crate::many::refused_again(r);
}

pub fn b02(r: &mut Runner)
{
    message_level(r, Mode::Consistent);
    rows(r, Mode::Consistent);
    pairs(r, Mode::Consistent);
    context_level(r, Mode::Consistent);
    inserted_messages(r, Mode::Consistent);
    crate::many::consistent(r);
    set_mode(Conform::Consistent);
    crate::p02::p02(r);
}

// ---------------------------------------------------------------------------------------------
// Hand-built contexts

/// A type in declaration order.
struct Decl
{
    full: String,
    name: String,
    msg: bool,
    /// Index of the file or of the enclosing type.
    parent: Par,
    oneofs: Vec<String>,
    values: Vec<(String, i64, Vec<protofish::context::ProtoOption>)>,
}

fn declare_enum(e: &Enum, parent: Par, scope: &str, out: &mut Vec<Decl>)
{
    let mut values = vec![];
    for m in &e.members {
        if let EnumMember::Value { name, num, opts } = m {
            values.push((name.clone(), num.val, opts_view(opts)));
        }
    }
    out.push(Decl {
        full: join(scope, &e.name),
        name: e.name.clone(),
        msg: false,
        parent,
        oneofs: vec![],
        values,
    });
}

fn declare_msg(m: &Msg, parent: Par, scope: &str, out: &mut Vec<Decl>)
{
    let full = join(scope, &m.name);
    let me = Par::Msg(out.len());
    out.push(Decl {
        full: full.clone(),
        name: m.name.clone(),
        msg: true,
        parent,
        oneofs: m
            .members
            .iter()
            .filter_map(|x| match x {
                Member::Oneof(o) => Some(o.name.clone()),
                _ => None,
            })
            .collect(),
        values: vec![],
    });
    for x in &m.members {
        match x {
            Member::Msg(i) => declare_msg(i, me, &full, out),
            Member::Enum(e) => declare_enum(e, me, &full, out),
            Member::Map(map) => {
                let name = entry_name(&map.name);
                out.push(Decl {
                    full: join(&full, &name),
                    name,
                    msg: true,
                    parent: me,
                    oneofs: vec![],
                    values: vec![],
                })
            }
            _ => {}
        }
    }
}

/// The ways to build a message.
#[derive(Clone, Copy, Debug)]
enum Way
{
    /// Oneofs, then the fields in ascending order.
    OneofsFirst,
    /// Fields, then the oneofs with their lists.
    FieldsFirst,
    /// The first half of the fields of each oneof is listed when it is added; other fields come in descending order.
    Mixed,
}

/// Builds what the (valid) files declare. The multiplicity of repeated fields is the subject of
/// other properties and taken from the parsed context.
fn build(decls: &[Decl], files: &[File], v: &View, parsed: &Context, way: Way) -> Result<Context, Viol>
{
    // References are handed out in order of insertion; a first pass learns them, because fields may
    // refer to types that come later.
    let mut probe = Context::new();
    let mut refs: HashMap<String, TypeRef> = HashMap::new();
    let e = |d: &Decl| Viol {
        key: None,
        msg: format!("{} cannot be built by hand", d.full),
    };
    let mut inserted: Vec<TypeRef> = vec![];
    let mut pkgs = vec![];
    for f in files {
        match probe.insert_package(Package::new(f.package.clone())) {
            Ok(p) => pkgs.push(p),
            Err(_) => return fail("a package cannot be built by hand"),
        }
    }
    let parent_of = |d: &Decl, inserted: &[TypeRef], pkgs: &[PackageRef]| match d.parent {
        Par::Pkg(i) => TypeParent::Package(pkgs[i]),
        Par::Msg(i) => match inserted[i] {
            TypeRef::Message(m) => TypeParent::Message(m),
            TypeRef::Enum(_) => unreachable!(),
        },
    };
    for d in decls {
        let parent = parent_of(d, &inserted, &pkgs);
        let r = if d.msg {
            probe
                .insert_message(MessageInfo::new(d.name.clone(), parent))
                .map(TypeRef::Message)
        } else {
            probe.insert_enum(EnumInfo::new(d.name.clone(), parent)).map(TypeRef::Enum)
        }
        .map_err(|_| e(d))?;
        refs.insert(d.full.clone(), r);
        inserted.push(r);
    }

    let mut ctx = Context::new();
    let mut inserted: Vec<TypeRef> = vec![];
    let mut pkgs = vec![];
    for f in files {
        match ctx.insert_package(Package::new(f.package.clone())) {
            Ok(p) => pkgs.push(p),
            Err(_) => return fail("a package cannot be built by hand"),
        }
    }
    for d in decls {
        let parent = parent_of(d, &inserted, &pkgs);
        if !d.msg {
            let mut en = EnumInfo::new(d.name.clone(), parent);
            for (name, value, opts) in &d.values {
                let mut f = EnumField::new(name.clone(), *value);
                f.options = opts.clone();
                en.add_field(f).map_err(|_| e(d))?;
            }
            inserted.push(ctx.insert_enum(en).map(TypeRef::Enum).map_err(|_| e(d))?);
            continue;
        }
        let mut m = MessageInfo::new(d.name.clone(), parent);
        let mv = &v.msgs[&d.full];
        let mut made: Vec<(u64, MessageField)> = vec![];
        for (n, f) in &mv.fields {
            let ty = match &f.ty {
                TyView::Scalar(k) => crate::model::value_type(*k, &[], &[]),
                TyView::Msg(x) => match refs[x] {
                    TypeRef::Message(r) => ValueType::Message(r),
                    TypeRef::Enum(_) => return Err(e(d)),
                },
                TyView::Enum(x) => match refs[x] {
                    TypeRef::Enum(r) => ValueType::Enum(r),
                    TypeRef::Message(_) => return Err(e(d)),
                },
            };
            let mut x = MessageField::new(f.name.clone(), *n, ty);
            x.options = f.opts.clone();
            x.multiplicity = match f.lab {
                LabView::Single => Multiplicity::Single,
                LabView::Optional => Multiplicity::Optional,
                LabView::Repeated => Multiplicity::Repeated,
                LabView::Packed => Multiplicity::RepeatedPacked,
                LabView::AnyRepeated => match parsed.get_message(&d.full).and_then(|m| m.get_field(*n)) {
                    Some(f) => f.multiplicity.clone(),
                    None => return Err(e(d)),
                },
            };
            made.push((*n, x));
        }
        let oneof = |name: &str, fields: Vec<u64>| {
            let mut o = protofish::context::Oneof::new(name.to_string());
            o.options = mv.oneofs[name].1.clone();
            o.fields = fields;
            o
        };
        let in_oneof = |n: &u64| mv.fields[n].oneof.clone();
        match way {
            Way::OneofsFirst => {
                let mut by_name = HashMap::new();
                for o in &d.oneofs {
                    by_name.insert(o.clone(), m.add_oneof(oneof(o, vec![])).map_err(|_| e(d))?);
                }
                for (n, mut f) in made {
                    f.oneof = in_oneof(&n).map(|o| by_name[&o]);
                    m.add_field(f).map_err(|_| e(d))?;
                }
            }
            Way::FieldsFirst => {
                for (_, f) in made.into_iter().rev() {
                    m.add_field(f).map_err(|_| e(d))?;
                }
                for o in &d.oneofs {
                    let list: Vec<u64> = mv.oneofs[o].0.iter().copied().collect();
                    m.add_oneof(oneof(o, list)).map_err(|_| e(d))?;
                }
            }
            Way::Mixed => {
                // Which fields are listed when their oneof is added.
                let mut listed: BTreeSet<u64> = BTreeSet::new();
                for o in &d.oneofs {
                    let l: Vec<u64> = mv.oneofs[o].0.iter().copied().collect();
                    listed.extend(&l[..l.len() / 2]);
                }
                let mut later = vec![];
                for (n, f) in made.into_iter() {
                    if listed.contains(&n) || in_oneof(&n).is_none() {
                        m.add_field(f).map_err(|_| e(d))?;
                    } else {
                        later.push((n, f));
                    }
                }
                let mut by_name = HashMap::new();
                for o in &d.oneofs {
                    let list: Vec<u64> = mv.oneofs[o].0.iter().copied().filter(|n| listed.contains(n)).collect();
                    by_name.insert(o.clone(), m.add_oneof(oneof(o, list)).map_err(|_| e(d))?);
                }
                for (n, mut f) in later {
                    f.oneof = in_oneof(&n).map(|o| by_name[&o]);
                    m.add_field(f).map_err(|_| e(d))?;
                }
            }
        }
        inserted.push(ctx.insert_message(m).map(TypeRef::Message).map_err(|_| e(d))?);
    }
    Ok(ctx)
}

/// What is needed to build the files by hand, without services; nothing if it is not possible.
fn for_hands(files: &[File]) -> Option<(Vec<File>, Vec<Decl>, View)>
{
    // Services cannot be built by hand, nor packages with one name.
    let mut files = files.to_vec();
    for f in &mut files {
        f.items.retain(|i| !matches!(i, Item::Svc(_)));
        f.package_at = f.package_at.min(f.items.len());
    }
    for (i, f) in files.iter().enumerate() {
        if files[..i].iter().any(|g| g.package == f.package) {
            return None;
        }
    }
    let mut decls = vec![];
    for (i, f) in files.iter().enumerate() {
        let scope = f.package.clone().unwrap_or_default();
        for item in &f.items {
            match item {
                Item::Msg(m) => declare_msg(m, Par::Pkg(i), &scope, &mut decls),
                Item::Enum(e) => declare_enum(e, Par::Pkg(i), &scope, &mut decls),
                _ => {}
            }
        }
    }
    // Enum values with one number cannot be built by hand.
    for d in &decls {
        let numbers: BTreeSet<i64> = d.values.iter().map(|v| v.1).collect();
        if numbers.len() != d.values.len() {
            return None;
        }
    }
    let v = View::of(&files);
    Some((files, decls, v))
}

const WAYS: [Way; 3] = [Way::OneofsFirst, Way::FieldsFirst, Way::Mixed];

/// The context built by hand in one of 3 ways.
pub fn by_hand(files: &[File], way: usize) -> Result<Option<(View, Context)>, Viol>
{
    let (files, decls, v) = match for_hands(files) {
        Some(x) => x,
        None => return Ok(None),
    };
    let texts: Vec<String> = files.iter().map(text_of).collect();
    let parsed = match parse(&texts) {
        Ok(Ok(ctx)) => ctx,
        // The subject of P01 and P02.
        _ => return Ok(None),
    };
    let ctx = call("building by hand", || build(&decls, &files, &v, &parsed, WAYS[way]))??;
    Ok(Some((v, ctx)))
}

/// The files and the contexts built by hand for them are equal and decode and encode equally.
pub fn hand_built(files: &[File], st: &mut St) -> R
{
    let (files, decls, v) = match for_hands(files) {
        Some(x) => x,
        None => return Ok(()),
    };
    let texts: Vec<String> = files.iter().map(text_of).collect();
    let parsed = match parse(&texts) {
        Ok(Ok(ctx)) => ctx,
        // The subject of P01 and P02.
        _ => return Ok(()),
    };
    let name_it = |e: Viol, way: Way| Viol {
        msg: format!("{} ({:?})\n{}", e.msg, way, show(&texts)),
        ..e
    };
    for way in WAYS {
        let built = call("building by hand", || build(&decls, &files, &v, &parsed, way))
            .and_then(|x| x)
            .map_err(|e| name_it(e, way))?;
        st.traces += 1;
        st.steps += decls.len() as u64;
        // NaN options are unlike themselves.
        if parsed == parsed && built != parsed {
            return Err(name_it(
                Viol {
                    key: None,
                    msg: format!("the contexts differ\nby hand: {:?}\nparsed: {:?}", built, parsed),
                },
                way,
            ));
        }
        same_behaviour(&decls, &v, &parsed, &built).map_err(|e| name_it(e, way))?;
    }
    Ok(())
}

/// Payloads that have each field in each wire type.
fn same_behaviour(decls: &[Decl], v: &View, a: &Context, b: &Context) -> R
{
    for d in decls.iter().filter(|d| d.msg).take(8) {
        let mut payloads: Vec<Vec<u8>> = vec![];
        let mut whole = vec![];
        for n in v.msgs[&d.full].fields.keys().copied().take(6).chain([9999]) {
            if n == 0 || n >= 1 << 61 {
                continue;
            }
            for (wt, data) in [
                (0u8, &[0x96, 0x01][..]),
                (1, &[1, 2, 3, 4, 5, 6, 7, 8]),
                (2, &[4, 0x08, 0x01, 0x12, 0x00]),
                (5, &[1, 2, 3, 0x40]),
            ] {
                let rec = wire::rec(n, wt, data);
                whole.extend_from_slice(&rec);
                payloads.push(rec);
            }
        }
        payloads.push(whole);
        for p in payloads {
            let run = |c: &Context| -> Result<(MessageValue, Vec<u8>), Viol> {
                call("decode and encode", || -> Result<_, Viol> {
                    let r: MessageRef = match c.get_message(&d.full) {
                        Some(m) => m.self_ref,
                        None => return fail(format!("{} is not found", d.full)),
                    };
                    let m = c.decode(r, &p);
                    let e = m.encode(c).to_vec();
                    Ok((m, e))
                })?
            };
            let ((ma, ea), (mb, eb)) = (run(a)?, run(b)?);
            ensure!(
                ma == mb && ea == eb,
                "{} of {} decodes and encodes to\n{:?} {}\n{:?} {}",
                wire::hex(&p),
                d.full,
                ma,
                wire::hex(&ea),
                mb,
                wire::hex(&eb)
            );
        }
    }
    Ok(())
}

/// Renames references of one context to those of another.
fn mapped(v: &MessageValue, from: &Compiled, to: &Compiled) -> MessageValue
{
    let m = |r: MessageRef| match from.mrefs.iter().position(|x| *x == r) {
        Some(i) => to.mrefs[i],
        None => r,
    };
    let e = |r: EnumRef| match from.erefs.iter().position(|x| *x == r) {
        Some(i) => to.erefs[i],
        None => r,
    };
    MessageValue {
        msg_ref: m(v.msg_ref),
        garbage: v.garbage.clone(),
        fields: v
            .fields
            .iter()
            .map(|f| FieldValue {
                number: f.number,
                value: match &f.value {
                    Value::Message(x) => Value::Message(Box::new(mapped(x, from, to))),
                    Value::Enum(x) => Value::Enum(EnumValue {
                        enum_ref: e(x.enum_ref),
                        value: x.value,
                    }),
                    x => x.clone(),
                },
            })
            .collect(),
    }
}

/// Files of several packages, in all orders.
fn hand_built_packages(r: &mut Runner)
{
    let packages = [None, Some("a"), Some("a.b"), Some("b"), Some("c.M")];
    let most = r.by(4, 5);
    r.space(
        "packages",
        0,
        &format!("sequences of up to {} files of different packages among {:?}, each with one of 4 contents, and with references between them", most, packages),
        |ch, st| {
            let len = 1 + ch.pick(most);
            let mut left: Vec<Option<&str>> = packages.to_vec();
            let mut files: Vec<File> = vec![];
            let mut first: Option<String> = None;
            for i in 0..len {
                let at = ch.pick(left.len());
                let package = left.remove(at).map(str::to_string);
                let scope = package.clone().unwrap_or_default();
                let name = format!("M{}", i);
                let full = join(&scope, &name);
                let mut members = vec![Member::Field(scalar(crate::model::Kind::Int32, "x", 1))];
                let content = ch.pick(4);
                let target = first.get_or_insert(full.clone()).clone();
                let mut f = scalar(crate::model::Kind::Int32, "y", 2);
                f.ty = to_ref(&format!(".{}", target), &target, false);
                members.push(Member::Field(f));
                let inner = |name: &str, members| Member::Msg(Msg { name: name.to_string(), members });
                let en = |name: &str| Enum {
                    name: name.to_string(),
                    members: vec![EnumMember::Value { name: format!("ZERO{}", i), num: num(0), opts: vec![] }],
                };
                let mut items = vec![];
                match content {
                    1 => members.push(inner("M0", vec![])),
                    2 => items.push(Item::Enum(en("E"))),
                    3 => members.push(inner("I", vec![inner("I", vec![]), Member::Enum(en("E"))])),
                    _ => {}
                }
                items.insert(items.len() * (i % 2), Item::Msg(Msg { name, members }));
                files.push(File { package, package_at: 0, items });
            }
            hand_built(&files, st)
        },
    );
}

pub fn b03(r: &mut Runner)
{
    set_mode(Conform::HandBuilt);
    crate::p02::p02(r);
    hand_built_packages(r);
    crate::many::hand_built(r);
    set_mode(Conform::View);

    let schemas = match r.setup("schemas", || {
        let s = crate::model::rich();
        Ok((s.compile_text()?, s.compile_api()?))
    }) {
        Some(x) => x,
        None => return,
    };
    let (text, api) = &schemas;
    let sel = payload::Sel {
        bytes: true,
        records: true,
        odd: true,
        sweeps: true,
        damage: true,
        heavy: false,
    };
    payload::payloads(r, text, sel, &|c: &Compiled, mi, b, st| {
        let t = dec::decode(c, mi, b)?;
        let a = dec::decode(api, mi, b)?;
        let back = mapped(&a, api, c);
        st.traces += 2;
        ensure!(
            wire::same_msg(&back, &t),
            "{} decodes to\n{:?} by a parsed context\n{:?} by a hand-built one",
            wire::hex(b),
            t,
            a
        );
        let (et, ea) = (dec::encode(c, &t)?, dec::encode(api, &a)?);
        ensure!(
            et == ea,
            "{} encodes to {} by a parsed context and {} by a hand-built one",
            wire::short(&t),
            wire::hex(&et),
            wire::hex(&ea)
        );
        Ok(())
    });
}
