//! proto3 schemas as data: their tokens, their text and what a context must expose for them.

use crate::engine::*;
use crate::ensure;
use crate::model::Kind;
use protofish::context::*;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// Schemas

#[derive(Clone, Default)]
pub struct File
{
    pub package: Option<String>,
    /// The package statement stands before this item.
    pub package_at: usize,
    pub items: Vec<Item>,
}

/// A statement without visible effect.
pub type Raw = Vec<String>;

#[derive(Clone)]
pub enum Item
{
    Msg(Msg),
    Enum(Enum),
    Svc(Svc),
    Raw(Raw),
}

#[derive(Clone, Default)]
pub struct Msg
{
    pub name: String,
    pub members: Vec<Member>,
}

#[derive(Clone)]
pub enum Member
{
    Field(Field),
    Oneof(Oneof),
    Map(Map),
    Msg(Msg),
    Enum(Enum),
    Raw(Raw),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Lab
{
    Single,
    Optional,
    Repeated,
}

#[derive(Clone)]
pub struct Field
{
    pub lab: Lab,
    pub ty: Ty,
    pub name: String,
    pub num: Num,
    pub opts: Vec<Opt>,
}

#[derive(Clone)]
pub struct Map
{
    pub key: Kind,
    pub value: Ty,
    pub name: String,
    pub num: Num,
    pub opts: Vec<Opt>,
}

#[derive(Clone)]
pub enum Ty
{
    Scalar(Kind),
    Ref
    {
        spelled: String, target: Target
    },
}

#[derive(Clone, PartialEq, Debug)]
pub struct Target
{
    pub full: String,
    pub is_enum: bool,
}

#[derive(Clone)]
pub struct Oneof
{
    pub name: String,
    pub members: Vec<OneofMember>,
}

#[derive(Clone)]
pub enum OneofMember
{
    Field(Field),
    Opt(Opt),
    Raw(Raw),
}

#[derive(Clone, Default)]
pub struct Enum
{
    pub name: String,
    pub members: Vec<EnumMember>,
}

#[derive(Clone)]
pub enum EnumMember
{
    Value
    {
        name: String,
        num: Num,
        opts: Vec<Opt>,
    },
    Raw(Raw),
}

#[derive(Clone, Default)]
pub struct Svc
{
    pub name: String,
    pub members: Vec<SvcMember>,
}

#[derive(Clone)]
pub enum SvcMember
{
    Rpc(Rpc),
    Opt(Opt),
    Raw(Raw),
}

#[derive(Clone)]
pub struct Rpc
{
    pub name: String,
    pub input: Arg,
    pub output: Arg,
    pub body: Option<Vec<RpcMember>>,
}

#[derive(Clone)]
pub enum RpcMember
{
    Opt(Opt),
    Raw(Raw),
}

#[derive(Clone)]
pub struct Arg
{
    pub stream: bool,
    pub spelled: String,
    pub target: String,
}

/// An integer and its tokens.
#[derive(Clone)]
pub struct Num
{
    pub toks: Vec<String>,
    pub val: i64,
}

#[derive(Clone)]
pub struct Opt
{
    /// As reported.
    pub name: String,
    pub toks: Vec<String>,
    pub lit: Lit,
}

#[derive(Clone)]
pub struct Lit
{
    pub toks: Vec<String>,
    pub val: Constant,
}

pub fn num(val: i64) -> Num
{
    let mut toks = vec![];
    if val < 0 {
        toks.push("-".to_string());
    }
    toks.push(val.unsigned_abs().to_string());
    Num { toks, val }
}

/// Splits a text into tokens: words (with digits), strings, numbers and punctuation.
pub fn toks(s: &str) -> Vec<String>
{
    let b: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let start = i;
        if c.is_whitespace() {
            i += 1;
            continue;
        } else if c == '"' || c == '\'' {
            i += 1;
            while i < b.len() && b[i] != c {
                i += if b[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if c.is_ascii_alphabetic() || c == '_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else if c.is_ascii_digit() || (c == '.' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            while i < b.len()
                && (b[i].is_ascii_alphanumeric()
                    || b[i] == '.'
                    || ((b[i] == '+' || b[i] == '-') && (b[i - 1] == 'e' || b[i - 1] == 'E')))
            {
                i += 1;
            }
        } else {
            i += 1;
        }
        out.push(b[start..i.min(b.len())].iter().collect());
    }
    out
}

pub fn raw(s: &str) -> Raw
{
    toks(s)
}

pub fn opt(name: &str, text: &str, val: Constant) -> Opt
{
    Opt {
        name: name.to_string(),
        toks: toks(name),
        lit: Lit {
            toks: toks(text),
            val,
        },
    }
}

pub fn scalar(k: Kind, name: &str, n: i64) -> Field
{
    Field {
        lab: Lab::Single,
        ty: Ty::Scalar(k),
        name: name.to_string(),
        num: num(n),
        opts: vec![],
    }
}

pub fn to_ref(spelled: &str, full: &str, is_enum: bool) -> Ty
{
    Ty::Ref {
        spelled: spelled.to_string(),
        target: Target {
            full: full.to_string(),
            is_enum,
        },
    }
}

pub fn arg(stream: bool, spelled: &str, target: &str) -> Arg
{
    Arg {
        stream,
        spelled: spelled.to_string(),
        target: target.to_string(),
    }
}

// ---------------------------------------------------------------------------------------------
// Tokens

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TokKind
{
    Word,
    Int,
    Other,
}

#[derive(Clone)]
pub struct Tok
{
    pub text: String,
    pub kind: TokKind,
    /// Usually written without space before it.
    pub tight: bool,
}

#[derive(Default, Clone)]
pub struct Toks
{
    pub v: Vec<Tok>,
    /// An empty statement may stand before these tokens.
    pub empties: Vec<usize>,
}

impl Toks
{
    fn push(&mut self, text: &str, tight: bool)
    {
        let first = text.chars().next().unwrap_or(' ');
        let kind = if first.is_ascii_digit() {
            if text.starts_with("0x")
                || text.starts_with("0X")
                || text.chars().all(|c| c.is_ascii_digit())
            {
                TokKind::Int
            } else {
                TokKind::Other
            }
        } else if first.is_ascii_alphabetic() {
            TokKind::Word
        } else {
            TokKind::Other
        };
        self.v.push(Tok {
            text: text.to_string(),
            kind,
            tight,
        });
    }

    fn p(&mut self, text: &str)
    {
        self.push(text, false);
    }

    fn all(&mut self, t: &[String])
    {
        for (i, t) in t.iter().enumerate() {
            self.push(t, i > 0 && matches!(t.as_str(), "." | ";" | ","));
        }
    }

    fn dotted(&mut self, name: &str)
    {
        let mut first = true;
        let mut rest = name;
        if let Some(r) = rest.strip_prefix('.') {
            self.push(".", false);
            first = false;
            rest = r;
        }
        for (i, part) in rest.split('.').enumerate() {
            if i > 0 {
                self.push(".", true);
            }
            self.push(part, !first);
            first = false;
        }
    }

    fn end(&mut self)
    {
        self.push(";", true);
    }

    fn stop(&mut self)
    {
        self.empties.push(self.v.len());
    }

    fn opts(&mut self, opts: &[Opt])
    {
        if opts.is_empty() {
            return;
        }
        self.p("[");
        for (i, o) in opts.iter().enumerate() {
            if i > 0 {
                self.push(",", true);
            }
            self.option_body(o);
        }
        self.p("]");
    }

    fn option_body(&mut self, o: &Opt)
    {
        let from = self.v.len();
        self.all(&o.toks);
        for t in &mut self.v[from + 1..] {
            t.tight = true;
        }
        self.p("=");
        self.all(&o.lit.toks);
    }

    fn option(&mut self, o: &Opt)
    {
        self.p("option");
        self.option_body(o);
        self.end();
    }

    fn ty(&mut self, ty: &Ty)
    {
        match ty {
            Ty::Scalar(k) => self.p(k.keyword()),
            Ty::Ref { spelled, .. } => self.dotted(spelled),
        }
    }

    fn field(&mut self, f: &Field)
    {
        match f.lab {
            Lab::Single => {}
            Lab::Optional => self.p("optional"),
            Lab::Repeated => self.p("repeated"),
        }
        self.ty(&f.ty);
        self.p(&f.name);
        self.p("=");
        self.all(&f.num.toks);
        self.opts(&f.opts);
        self.end();
    }

    fn msg(&mut self, m: &Msg)
    {
        self.p("message");
        self.p(&m.name);
        self.p("{");
        for x in &m.members {
            self.stop();
            match x {
                Member::Field(f) => self.field(f),
                Member::Oneof(o) => {
                    self.p("oneof");
                    self.p(&o.name);
                    self.p("{");
                    for x in &o.members {
                        self.stop();
                        match x {
                            OneofMember::Field(f) => self.field(f),
                            OneofMember::Opt(o) => self.option(o),
                            OneofMember::Raw(r) => self.all(r),
                        }
                    }
                    self.stop();
                    self.p("}");
                }
                Member::Map(m) => {
                    self.p("map");
                    self.push("<", true);
                    self.push(m.key.keyword(), true);
                    self.push(",", true);
                    self.ty(&m.value);
                    self.push(">", true);
                    self.p(&m.name);
                    self.p("=");
                    self.all(&m.num.toks);
                    self.opts(&m.opts);
                    self.end();
                }
                Member::Msg(m) => self.msg(m),
                Member::Enum(e) => self.enum_(e),
                Member::Raw(r) => self.all(r),
            }
        }
        self.stop();
        self.p("}");
    }

    fn enum_(&mut self, e: &Enum)
    {
        self.p("enum");
        self.p(&e.name);
        self.p("{");
        for x in &e.members {
            self.stop();
            match x {
                EnumMember::Value { name, num, opts } => {
                    self.p(name);
                    self.p("=");
                    self.all(&num.toks);
                    self.opts(opts);
                    self.end();
                }
                EnumMember::Raw(r) => self.all(r),
            }
        }
        self.stop();
        self.p("}");
    }

    fn arg(&mut self, a: &Arg)
    {
        self.p("(");
        if a.stream {
            self.push("stream", true);
            self.dotted(&a.spelled);
        } else {
            let from = self.v.len();
            self.dotted(&a.spelled);
            self.v[from].tight = true;
        }
        self.push(")", true);
    }

    fn svc(&mut self, s: &Svc)
    {
        self.p("service");
        self.p(&s.name);
        self.p("{");
        for x in &s.members {
            self.stop();
            match x {
                SvcMember::Rpc(r) => {
                    self.p("rpc");
                    self.p(&r.name);
                    self.arg(&r.input);
                    self.p("returns");
                    self.arg(&r.output);
                    match &r.body {
                        None => self.end(),
                        Some(body) => {
                            self.p("{");
                            for x in body {
                                self.stop();
                                match x {
                                    RpcMember::Opt(o) => self.option(o),
                                    RpcMember::Raw(r) => self.all(r),
                                }
                            }
                            self.stop();
                            self.p("}");
                        }
                    }
                }
                SvcMember::Opt(o) => self.option(o),
                SvcMember::Raw(r) => self.all(r),
            }
        }
        self.stop();
        self.p("}");
    }

    pub fn text(&self) -> String
    {
        let mut o = String::new();
        for t in &self.v {
            if !t.tight && !o.is_empty() {
                o.push(match o.as_bytes()[o.len() - 1] {
                    b';' | b'{' | b'}' => '\n',
                    _ => ' ',
                });
            }
            o.push_str(&t.text);
        }
        o.push('\n');
        o
    }
}

pub fn tokens_of(f: &File) -> Toks
{
    let mut o = Toks::default();
    o.p("syntax");
    o.p("=");
    o.p("\"proto3\"");
    o.end();
    let package = |o: &mut Toks| {
        if let Some(p) = &f.package {
            o.stop();
            o.p("package");
            o.dotted(p);
            o.end();
        }
    };
    for (i, x) in f.items.iter().enumerate() {
        if i == f.package_at {
            package(&mut o);
        }
        o.stop();
        match x {
            Item::Msg(m) => o.msg(m),
            Item::Enum(e) => o.enum_(e),
            Item::Svc(s) => o.svc(s),
            Item::Raw(r) => o.all(r),
        }
    }
    if f.package_at >= f.items.len() {
        package(&mut o);
    }
    o.stop();
    o
}

pub fn text_of(f: &File) -> String
{
    tokens_of(f).text()
}

// ---------------------------------------------------------------------------------------------
// What the context must expose

#[derive(Clone, PartialEq, Debug)]
pub enum TyView
{
    Scalar(Kind),
    Msg(String),
    Enum(String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum LabView
{
    Single,
    Optional,
    Repeated,
    Packed,
    /// The choice is the subject of another property.
    AnyRepeated,
}

#[derive(Clone, Debug)]
pub struct FieldView
{
    pub name: String,
    pub ty: TyView,
    pub lab: LabView,
    pub opts: Vec<ProtoOption>,
    pub oneof: Option<String>,
}

#[derive(Clone, Default, Debug)]
pub struct MsgView
{
    pub name: String,
    /// Full name of the parent message.
    pub parent: Option<String>,
    pub fields: BTreeMap<u64, FieldView>,
    pub oneofs: BTreeMap<String, (BTreeSet<u64>, Vec<ProtoOption>)>,
    pub inner: BTreeSet<String>,
}

#[derive(Clone, Default, Debug)]
pub struct EnumView
{
    pub name: String,
    pub parent: Option<String>,
    /// Aliases have the same value.
    pub values: BTreeMap<i64, Vec<(String, Vec<ProtoOption>)>>,
}

#[derive(Clone, Debug)]
pub struct RpcView
{
    pub input: (bool, String),
    pub output: (bool, String),
    pub opts: Vec<ProtoOption>,
}

#[derive(Clone, Default, Debug)]
pub struct SvcView
{
    pub name: String,
    pub rpcs: BTreeMap<String, RpcView>,
    pub opts: Vec<ProtoOption>,
}

#[derive(Clone, Default, Debug)]
pub struct View
{
    pub msgs: BTreeMap<String, MsgView>,
    pub enums: BTreeMap<String, EnumView>,
    pub svcs: BTreeMap<String, SvcView>,
}

pub fn opts_view(opts: &[Opt]) -> Vec<ProtoOption>
{
    opts.iter().map(opt_view).collect()
}

fn opt_view(o: &Opt) -> ProtoOption
{
    ProtoOption {
        name: o.name.clone(),
        value: o.lit.val.clone(),
    }
}

pub fn join(scope: &str, name: &str) -> String
{
    if scope.is_empty() {
        name.to_string()
    } else {
        format!("{}.{}", scope, name)
    }
}

pub fn entry_name(field: &str) -> String
{
    let mut o = String::new();
    let mut up = true;
    for c in field.chars() {
        if c == '_' {
            up = true;
        } else {
            o.push(if up { c.to_ascii_uppercase() } else { c });
            up = false;
        }
    }
    o + "Entry"
}

fn ty_view(ty: &Ty) -> TyView
{
    match ty {
        Ty::Scalar(k) => TyView::Scalar(*k),
        Ty::Ref { target, .. } => {
            if target.is_enum {
                TyView::Enum(target.full.clone())
            } else {
                TyView::Msg(target.full.clone())
            }
        }
    }
}

pub fn label_view(lab: Lab, ty: &TyView, opts: &[Opt]) -> LabView
{
    match lab {
        Lab::Single => LabView::Single,
        Lab::Optional => LabView::Optional,
        Lab::Repeated => match ty {
            TyView::Enum(_) => LabView::AnyRepeated,
            TyView::Msg(_) | TyView::Scalar(Kind::Str) | TyView::Scalar(Kind::Bytes) => {
                LabView::Repeated
            }
            _ => match opts.iter().find(|o| o.name == "packed") {
                None => LabView::Packed,
                Some(o) if o.lit.val == Constant::Bool(true) => LabView::Packed,
                Some(_) => LabView::Repeated,
            },
        },
    }
}

impl View
{
    pub fn of(files: &[File]) -> View
    {
        let mut v = View::default();
        for f in files {
            let scope = f.package.clone().unwrap_or_default();
            for x in &f.items {
                match x {
                    Item::Msg(m) => v.msg(m, &scope, None),
                    Item::Enum(e) => v.enum_(e, &scope, None),
                    Item::Svc(s) => v.svc(s, &scope),
                    Item::Raw(_) => {}
                }
            }
        }
        v
    }

    fn field(m: &mut MsgView, f: &Field, oneof: Option<&str>)
    {
        let ty = ty_view(&f.ty);
        let lab = label_view(f.lab, &ty, &f.opts);
        m.fields.insert(
            f.num.val as u64,
            FieldView {
                name: f.name.clone(),
                ty,
                lab,
                opts: opts_view(&f.opts),
                oneof: oneof.map(|s| s.to_string()),
            },
        );
    }

    fn msg(&mut self, m: &Msg, scope: &str, parent: Option<&str>)
    {
        let full = join(scope, &m.name);
        let mut v = MsgView {
            name: m.name.clone(),
            parent: parent.map(|s| s.to_string()),
            ..Default::default()
        };
        for x in &m.members {
            match x {
                Member::Field(f) => Self::field(&mut v, f, None),
                Member::Oneof(o) => {
                    let mut nums = BTreeSet::new();
                    let mut opts = vec![];
                    for x in &o.members {
                        match x {
                            OneofMember::Field(f) => {
                                Self::field(&mut v, f, Some(&o.name));
                                nums.insert(f.num.val as u64);
                            }
                            OneofMember::Opt(o) => opts.push(opt_view(o)),
                            OneofMember::Raw(_) => {}
                        }
                    }
                    v.oneofs.insert(o.name.clone(), (nums, opts));
                }
                Member::Map(map) => {
                    let name = entry_name(&map.name);
                    let entry = join(&full, &name);
                    let part = |name: &str, ty: TyView| FieldView {
                        name: name.to_string(),
                        ty,
                        lab: LabView::Single,
                        opts: vec![],
                        oneof: None,
                    };
                    let mut e = MsgView {
                        name,
                        parent: Some(full.clone()),
                        ..Default::default()
                    };
                    e.fields.insert(1, part("key", TyView::Scalar(map.key)));
                    e.fields.insert(2, part("value", ty_view(&map.value)));
                    self.msgs.insert(entry.clone(), e);
                    v.inner.insert(entry.clone());
                    v.fields.insert(
                        map.num.val as u64,
                        FieldView {
                            name: map.name.clone(),
                            ty: TyView::Msg(entry),
                            lab: LabView::Repeated,
                            opts: opts_view(&map.opts),
                            oneof: None,
                        },
                    );
                }
                Member::Msg(x) => {
                    v.inner.insert(join(&full, &x.name));
                    self.msg(x, &full, Some(&full));
                }
                Member::Enum(x) => {
                    v.inner.insert(join(&full, &x.name));
                    self.enum_(x, &full, Some(&full));
                }
                Member::Raw(_) => {}
            }
        }
        self.msgs.insert(full, v);
    }

    fn enum_(&mut self, e: &Enum, scope: &str, parent: Option<&str>)
    {
        let mut v = EnumView {
            name: e.name.clone(),
            parent: parent.map(|s| s.to_string()),
            ..Default::default()
        };
        for x in &e.members {
            if let EnumMember::Value { name, num, opts } = x {
                v.values
                    .entry(num.val)
                    .or_default()
                    .push((name.clone(), opts_view(opts)));
            }
        }
        self.enums.insert(join(scope, &e.name), v);
    }

    fn svc(&mut self, s: &Svc, scope: &str)
    {
        let mut v = SvcView {
            name: s.name.clone(),
            ..Default::default()
        };
        for x in &s.members {
            match x {
                SvcMember::Rpc(r) => {
                    let mut opts = vec![];
                    for x in r.body.iter().flatten() {
                        if let RpcMember::Opt(o) = x {
                            opts.push(opt_view(o));
                        }
                    }
                    v.rpcs.insert(
                        r.name.clone(),
                        RpcView {
                            input: (r.input.stream, r.input.target.clone()),
                            output: (r.output.stream, r.output.target.clone()),
                            opts,
                        },
                    );
                }
                SvcMember::Opt(o) => v.opts.push(opt_view(o)),
                SvcMember::Raw(_) => {}
            }
        }
        self.svcs.insert(join(scope, &s.name), v);
    }

    pub fn size(&self) -> usize
    {
        self.msgs.values().map(|m| 1 + m.fields.len()).sum::<usize>()
            + self.enums.values().map(|e| 1 + e.values.len()).sum::<usize>()
            + self.svcs.values().map(|s| 1 + s.rpcs.len()).sum::<usize>()
    }
}

pub fn same_const(a: &Constant, b: &Constant) -> bool
{
    match (a, b) {
        (Constant::Float(a), Constant::Float(b)) => {
            a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
        }
        _ => a == b,
    }
}

pub fn same_opts(a: &[ProtoOption], b: &[ProtoOption]) -> bool
{
    a.len() == b.len()
        && a.iter()
            .zip(b)
            .all(|(a, b)| a.name == b.name && same_const(&a.value, &b.value))
}

fn parent_name<'c>(ctx: &'c Context, p: TypeParent) -> Option<&'c str>
{
    match p {
        TypeParent::Package(p) => {
            ctx.resolve_package(p);
            None
        }
        TypeParent::Message(m) => Some(&ctx.resolve_message(m).full_name),
    }
}

fn type_view(ctx: &Context, t: &ValueType) -> TyView
{
    match t {
        ValueType::Double => TyView::Scalar(Kind::Double),
        ValueType::Float => TyView::Scalar(Kind::Float),
        ValueType::Int32 => TyView::Scalar(Kind::Int32),
        ValueType::Int64 => TyView::Scalar(Kind::Int64),
        ValueType::UInt32 => TyView::Scalar(Kind::UInt32),
        ValueType::UInt64 => TyView::Scalar(Kind::UInt64),
        ValueType::SInt32 => TyView::Scalar(Kind::SInt32),
        ValueType::SInt64 => TyView::Scalar(Kind::SInt64),
        ValueType::Fixed32 => TyView::Scalar(Kind::Fixed32),
        ValueType::Fixed64 => TyView::Scalar(Kind::Fixed64),
        ValueType::SFixed32 => TyView::Scalar(Kind::SFixed32),
        ValueType::SFixed64 => TyView::Scalar(Kind::SFixed64),
        ValueType::Bool => TyView::Scalar(Kind::Bool),
        ValueType::String => TyView::Scalar(Kind::Str),
        ValueType::Bytes => TyView::Scalar(Kind::Bytes),
        ValueType::Message(m) => TyView::Msg(ctx.resolve_message(*m).full_name.clone()),
        ValueType::Enum(e) => TyView::Enum(ctx.resolve_enum(*e).full_name.clone()),
    }
}

/// Compares all the context exposes under the expected names (and their neighbours).
pub fn check_view(ctx: &Context, v: &View) -> R
{
    call("lookup", || check_view_inner(ctx, v))?
}

fn check_field(ctx: &Context, full: &str, m: &MessageInfo, n: u64, f: &FieldView, got: &MessageField) -> R
{
    ensure!(
        got.number == n,
        "field {} of {} has number {}",
        n,
        full,
        got.number
    );
    ensure!(
        got.name == f.name,
        "field {} of {} is named {:?}, not {:?}",
        n,
        full,
        got.name,
        f.name
    );
    let ty = type_view(ctx, &got.field_type);
    ensure!(
        ty == f.ty,
        "field {} of {} has type {:?}, not {:?}",
        n,
        full,
        ty,
        f.ty
    );
    let lab = match got.multiplicity {
        Multiplicity::Single => f.lab == LabView::Single,
        Multiplicity::Optional => f.lab == LabView::Optional,
        Multiplicity::Repeated => matches!(f.lab, LabView::Repeated | LabView::AnyRepeated),
        Multiplicity::RepeatedPacked => matches!(f.lab, LabView::Packed | LabView::AnyRepeated),
    };
    ensure!(
        lab,
        "field {} of {} is {:?}, not {:?}",
        n,
        full,
        got.multiplicity,
        f.lab
    );
    ensure!(
        same_opts(&got.options, &f.opts),
        "field {} of {} has options {:?}, not {:?}",
        n,
        full,
        got.options,
        f.opts
    );
    let oneof = match got.oneof {
        None => None,
        Some(o) => match m.get_oneof(o) {
            Some(o) => Some(o.name.as_str()),
            None => return fail(format!("the oneof of field {} of {} is not found", n, full)),
        },
    };
    ensure!(
        oneof == f.oneof.as_deref(),
        "field {} of {} is in oneof {:?}, not {:?}",
        n,
        full,
        oneof,
        f.oneof
    );
    Ok(())
}

fn check_msg(ctx: &Context, full: &str, v: &MsgView) -> R
{
    let m = match ctx.get_message(full) {
        Some(m) => m,
        None => return fail(format!("message {} is not found", full)),
    };
    match ctx.get_type(full) {
        Some(TypeInfo::Message(x)) if std::ptr::eq(x, m) => {}
        _ => return fail(format!("type {} is not the message", full)),
    }
    ensure!(m.full_name == full, "message {} is named {}", full, m.full_name);
    ensure!(m.name == v.name, "message {} has name {}", full, m.name);
    let parent = parent_name(ctx, m.parent);
    ensure!(
        parent == v.parent.as_deref(),
        "message {} has parent {:?}, not {:?}",
        full,
        parent,
        v.parent
    );
    ensure!(
        std::ptr::eq(ctx.resolve_message(m.self_ref), m),
        "message {} resolves to another",
        full
    );

    // Fields.
    let mut count = 0;
    for got in m.iter_fields() {
        let f = match v.fields.get(&got.number) {
            Some(f) => f,
            None => {
                return fail(format!(
                    "message {} has the unexpected field {:?}",
                    full, got
                ))
            }
        };
        check_field(ctx, full, m, got.number, f, got)?;
        count += 1;
    }
    ensure!(
        count == v.fields.len(),
        "message {} lists {} fields, not {}",
        full,
        count,
        v.fields.len()
    );
    for (n, f) in &v.fields {
        match m.get_field(*n) {
            Some(got) => check_field(ctx, full, m, *n, f, got)?,
            None => return fail(format!("field {} of {} is not found", n, full)),
        }
        match m.get_field_by_name(&f.name) {
            Some(got) => check_field(ctx, full, m, *n, f, got)?,
            None => return fail(format!("field {} of {} is not found", f.name, full)),
        }
        for x in [n.wrapping_sub(1), n + 1, 0] {
            ensure!(
                v.fields.contains_key(&x) || m.get_field(x).is_none(),
                "{} has the undeclared field {}",
                full,
                x
            );
        }
        if f.name.len() > 1 {
            let part = &f.name[..f.name.len() - 1];
            ensure!(
                v.fields.values().any(|f| f.name == part) || m.get_field_by_name(part).is_none(),
                "{} has the undeclared field {}",
                full,
                part
            );
        }
    }

    // Oneofs.
    ensure!(
        m.oneofs.len() == v.oneofs.len(),
        "message {} has {} oneofs, not {}",
        full,
        m.oneofs.len(),
        v.oneofs.len()
    );
    for o in &m.oneofs {
        let (nums, opts) = match v.oneofs.get(&o.name) {
            Some(x) => x,
            None => return fail(format!("message {} has the oneof {:?}", full, o.name)),
        };
        let got: BTreeSet<u64> = o.fields.iter().copied().collect();
        ensure!(
            got == *nums && o.fields.len() == nums.len(),
            "oneof {} of {} has the fields {:?}, not {:?}",
            o.name,
            full,
            o.fields,
            nums
        );
        ensure!(
            same_opts(&o.options, opts),
            "oneof {} of {} has options {:?}, not {:?}",
            o.name,
            full,
            o.options,
            opts
        );
        match m.get_oneof(o.self_ref) {
            Some(x) if std::ptr::eq(x, o) => {}
            _ => return fail(format!("oneof {} of {} resolves to another", o.name, full)),
        }
    }
    let names: BTreeSet<&str> = m.oneofs.iter().map(|o| o.name.as_str()).collect();
    ensure!(
        names.len() == m.oneofs.len(),
        "message {} lists a oneof twice",
        full
    );

    // Inner types.
    let mut inner = BTreeSet::new();
    for t in &m.inner_types {
        inner.insert(match t {
            TypeRef::Message(r) => ctx.resolve_message(*r).full_name.clone(),
            TypeRef::Enum(r) => ctx.resolve_enum(*r).full_name.clone(),
        });
    }
    ensure!(
        inner == v.inner && inner.len() == m.inner_types.len(),
        "message {} has inner types {:?}, not {:?}",
        full,
        inner,
        v.inner
    );
    Ok(())
}

fn check_enum(ctx: &Context, full: &str, v: &EnumView) -> R
{
    let e = match ctx.get_type(full) {
        Some(TypeInfo::Enum(e)) => e,
        _ => return fail(format!("enum {} is not found", full)),
    };
    ensure!(
        ctx.get_message(full).is_none(),
        "enum {} is found as message",
        full
    );
    ensure!(e.full_name == full, "enum {} is named {}", full, e.full_name);
    ensure!(e.name == v.name, "enum {} has name {}", full, e.name);
    let parent = parent_name(ctx, e.parent);
    ensure!(
        parent == v.parent.as_deref(),
        "enum {} has parent {:?}, not {:?}",
        full,
        parent,
        v.parent
    );
    ensure!(
        std::ptr::eq(ctx.resolve_enum(e.self_ref), e),
        "enum {} resolves to another",
        full
    );
    for (n, names) in &v.values {
        let got = match e.get_field_by_value(*n) {
            Some(f) => f,
            None => return fail(format!("value {} of {} is not found", n, full)),
        };
        ensure!(
            got.value == *n,
            "value {} of {} has number {}",
            n,
            full,
            got.value
        );
        ensure!(
            names
                .iter()
                .any(|(name, opts)| *name == got.name && same_opts(opts, &got.options)),
            "value {} of {} is {:?}, not one of {:?}",
            n,
            full,
            got,
            names
        );
        for x in [n.wrapping_sub(1), n.wrapping_add(1), n.wrapping_neg(), 0] {
            ensure!(
                v.values.contains_key(&x) || e.get_field_by_value(x).is_none(),
                "{} has the undeclared value {}",
                full,
                x
            );
        }
    }
    Ok(())
}

fn check_svc(ctx: &Context, full: &str, v: &SvcView) -> R
{
    let s = match ctx.get_service(full) {
        Some(s) => s,
        None => return fail(format!("service {} is not found", full)),
    };
    ensure!(s.full_name == full, "service {} is named {}", full, s.full_name);
    ensure!(s.name == v.name, "service {} has name {}", full, s.name);
    ctx.resolve_package(s.parent);
    ensure!(
        same_opts(&s.options, &v.opts),
        "service {} has options {:?}, not {:?}",
        full,
        s.options,
        v.opts
    );
    ensure!(
        s.rpcs.len() == v.rpcs.len(),
        "service {} has {} rpcs, not {}",
        full,
        s.rpcs.len(),
        v.rpcs.len()
    );
    for (name, r) in &v.rpcs {
        let got = match s.rpc_by_name(name) {
            Some(r) => r,
            None => return fail(format!("rpc {} of {} is not found", name, full)),
        };
        ensure!(
            s.rpcs.iter().any(|x| std::ptr::eq(x, got)),
            "rpc {} of {} is not listed",
            name,
            full
        );
        ensure!(got.name == *name, "rpc {} of {} is named {}", name, full, got.name);
        for (what, got, want) in [
            ("input", &got.input, &r.input),
            ("output", &got.output, &r.output),
        ] {
            let m = &ctx.resolve_message(got.message).full_name;
            ensure!(
                *m == want.1 && got.stream == want.0,
                "{} of rpc {} of {} is {} (stream: {}), not {:?}",
                what,
                name,
                full,
                m,
                got.stream,
                want
            );
        }
        ensure!(
            same_opts(&got.options, &r.opts),
            "rpc {} of {} has options {:?}, not {:?}",
            name,
            full,
            got.options,
            r.opts
        );
        let part = &name[..name.len() - 1];
        ensure!(
            v.rpcs.contains_key(part) || s.rpc_by_name(part).is_none(),
            "{} has the undeclared rpc {:?}",
            full,
            part
        );
    }
    Ok(())
}

fn check_absent(ctx: &Context, v: &View, name: &str) -> R
{
    let msg = v.msgs.contains_key(name);
    let en = v.enums.contains_key(name);
    if !msg {
        ensure!(
            ctx.get_message(name).is_none(),
            "the undeclared message {:?} is found",
            name
        );
    }
    if !msg && !en {
        ensure!(
            ctx.get_type(name).is_none(),
            "the undeclared type {:?} is found",
            name
        );
    }
    if !v.svcs.contains_key(name) {
        ensure!(
            ctx.get_service(name).is_none(),
            "the undeclared service {:?} is found",
            name
        );
    }
    Ok(())
}

fn check_view_inner(ctx: &Context, v: &View) -> R
{
    for (full, m) in &v.msgs {
        check_msg(ctx, full, m)?;
    }
    for (full, e) in &v.enums {
        check_enum(ctx, full, e)?;
    }
    for (full, s) in &v.svcs {
        check_svc(ctx, full, s)?;
    }
    check_absent(ctx, v, "")?;
    check_absent(ctx, v, ".")?;
    let names = v.msgs.keys().chain(v.enums.keys()).chain(v.svcs.keys());
    for full in names {
        check_absent(ctx, v, full)?;
        let mut rest = full.as_str();
        while let Some(i) = rest.find('.') {
            rest = &rest[i + 1..];
            check_absent(ctx, v, rest)?;
        }
        let mut rest = full.as_str();
        while let Some(i) = rest.rfind('.') {
            rest = &rest[..i];
            check_absent(ctx, v, rest)?;
        }
        check_absent(ctx, v, &format!(".{}", full))?;
        check_absent(ctx, v, &format!("{}.", full))?;
        check_absent(ctx, v, &full[..full.len() - 1])?;
    }
    Ok(())
}

pub fn parse(texts: &[String]) -> Result<Result<Context, ParseError>, Viol>
{
    call("Context::parse", || Context::parse(texts))
}

pub fn show(texts: &[String]) -> String
{
    let mut o = String::new();
    for (i, t) in texts.iter().enumerate() {
        o += &format!("--- file {}\n{}\n", i, t);
    }
    o
}

/// What to check for valid files.
#[derive(Clone, Copy, PartialEq)]
pub enum Conform
{
    /// That the context is what the files declare.
    View,
    /// That the context is consistent.
    Consistent,
    /// That a context built by hand is the same.
    HandBuilt,
}

static MODE: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);

pub fn set_mode(m: Conform)
{
    MODE.store(m as u8, std::sync::atomic::Ordering::SeqCst);
}

/// Parses valid files and compares with what they declare.
pub fn conform(files: &[File], st: &mut St) -> Result<Context, Viol>
{
    match MODE.load(std::sync::atomic::Ordering::Relaxed) {
        0 => {}
        1 => {
            crate::b::consistent_files(files, st)?;
            return Ok(Context::new());
        }
        _ => {
            crate::b::hand_built(files, st)?;
            return Ok(Context::new());
        }
    }
    let texts: Vec<String> = files.iter().map(text_of).collect();
    let v = View::of(files);
    st.traces += 1;
    st.steps += v.size() as u64;
    conform_text(&texts, &v)
}

pub fn conform_text(texts: &[String], v: &View) -> Result<Context, Viol>
{
    match parse(texts)? {
        Err(e) => fail(format!(
            "a valid schema is rejected: {:?}\n{}",
            e,
            show(texts)
        )),
        Ok(ctx) => match check_view(&ctx, v) {
            Ok(()) => Ok(ctx),
            Err(mut e) => {
                e.msg = format!("{}\n{}", e.msg, show(texts));
                Err(e)
            }
        },
    }
}
