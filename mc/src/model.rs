//! Schema model for the decode and encode checks, and its two renderings (text and API).

use crate::engine::*;
use protofish::context::*;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind
{
    Double,
    Float,
    Int32,
    Int64,
    UInt32,
    UInt64,
    SInt32,
    SInt64,
    Fixed32,
    Fixed64,
    SFixed32,
    SFixed64,
    Bool,
    Str,
    Bytes,
    Msg(usize),
    Enum(usize),
}
use Kind::*;

pub const SCALARS: [Kind; 15] = [
    Double, Float, Int32, Int64, UInt32, UInt64, SInt32, SInt64, Fixed32, Fixed64, SFixed32,
    SFixed64, Bool, Str, Bytes,
];
pub const NUMERIC: [Kind; 13] = [
    Double, Float, Int32, Int64, UInt32, UInt64, SInt32, SInt64, Fixed32, Fixed64, SFixed32,
    SFixed64, Bool,
];

impl Kind
{
    pub fn keyword(self) -> &'static str
    {
        match self {
            Double => "double",
            Float => "float",
            Int32 => "int32",
            Int64 => "int64",
            UInt32 => "uint32",
            UInt64 => "uint64",
            SInt32 => "sint32",
            SInt64 => "sint64",
            Fixed32 => "fixed32",
            Fixed64 => "fixed64",
            SFixed32 => "sfixed32",
            SFixed64 => "sfixed64",
            Bool => "bool",
            Str => "string",
            Bytes => "bytes",
            Msg(_) | Enum(_) => unreachable!(),
        }
    }

    /// Wire type of a single value.
    pub fn wire(self) -> u8
    {
        match self {
            Int32 | Int64 | UInt32 | UInt64 | SInt32 | SInt64 | Bool | Enum(_) => 0,
            Fixed64 | SFixed64 | Double => 1,
            Str | Bytes | Msg(_) => 2,
            Fixed32 | SFixed32 | Float => 5,
        }
    }

    /// Numeric scalars can be packed.
    pub fn packable(self) -> bool
    {
        !matches!(self, Str | Bytes | Msg(_) | Enum(_))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Label
{
    Single,
    Optional,
    Rep,
    RepPacked(bool),
    Oneof(usize),
    Map,
    /// A multiplicity only the API can declare for the type.
    Api(u8),
}

#[derive(Clone, Debug)]
pub struct Field
{
    pub num: u64,
    pub kind: Kind,
    pub label: Label,
}

impl Field
{
    pub fn name(&self) -> String
    {
        format!("f{}", self.num)
    }
    pub fn multiplicity(&self) -> Multiplicity
    {
        match self.label {
            Label::Single | Label::Oneof(_) => Multiplicity::Single,
            Label::Optional => Multiplicity::Optional,
            Label::Map => Multiplicity::Repeated,
            Label::Rep => match self.kind.packable() {
                true => Multiplicity::RepeatedPacked,
                false => Multiplicity::Repeated,
            },
            Label::RepPacked(p) => match p && self.kind.packable() {
                true => Multiplicity::RepeatedPacked,
                false => Multiplicity::Repeated,
            },
            Label::Api(m) => multiplicity(m),
        }
    }
    pub fn repeated(&self) -> bool
    {
        matches!(
            self.multiplicity(),
            Multiplicity::Repeated | Multiplicity::RepeatedPacked
        )
    }
}

pub fn multiplicity(m: u8) -> Multiplicity
{
    match m {
        0 => Multiplicity::Single,
        1 => Multiplicity::Optional,
        2 => Multiplicity::Repeated,
        _ => Multiplicity::RepeatedPacked,
    }
}

#[derive(Clone, Debug, Default)]
pub struct MsgDef
{
    pub name: String,
    pub fields: Vec<Field>,
    pub oneofs: usize,
    /// Set for the entry messages of map fields, which are not written out.
    pub entry_of: Option<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Schema
{
    pub msgs: Vec<MsgDef>,
    pub enums: Vec<(String, Vec<i64>)>,
}

pub fn fld(num: u64, kind: Kind, label: Label) -> Field
{
    Field { num, kind, label }
}

impl Schema
{
    pub fn msg(&mut self, name: &str) -> usize
    {
        self.msgs.push(MsgDef {
            name: name.to_string(),
            ..Default::default()
        });
        self.msgs.len() - 1
    }

    pub fn add(&mut self, m: usize, num: u64, kind: Kind, label: Label)
    {
        if let Label::Oneof(i) = label {
            self.msgs[m].oneofs = self.msgs[m].oneofs.max(i + 1);
        }
        self.msgs[m].fields.push(fld(num, kind, label));
    }

    pub fn add_map(&mut self, m: usize, num: u64, key: Kind, value: Kind)
    {
        self.msgs.push(MsgDef {
            name: format!("F{}Entry", num),
            fields: vec![fld(1, key, Label::Single), fld(2, value, Label::Single)],
            oneofs: 0,
            entry_of: Some(m),
        });
        let e = self.msgs.len() - 1;
        self.add(m, num, Msg(e), Label::Map);
    }

    pub fn full_name(&self, m: usize) -> String
    {
        match self.msgs[m].entry_of {
            Some(p) => format!("{}.{}", self.full_name(p), self.msgs[m].name),
            None => format!("T.{}", self.msgs[m].name),
        }
    }

    fn type_text(&self, kind: Kind) -> String
    {
        match kind {
            Msg(i) => self.msgs[i].name.clone(),
            Enum(i) => self.enums[i].0.clone(),
            k => k.keyword().to_string(),
        }
    }

    pub fn render(&self) -> String
    {
        let mut o = String::from("syntax = \"proto3\";\npackage T;\n");
        for (name, values) in &self.enums {
            o += &format!("enum {} {{\n", name);
            for v in values {
                o += &format!("  {}_{} = {};\n", name, v.to_string().replace('-', "n"), v);
            }
            o += "}\n";
        }
        for m in &self.msgs {
            if m.entry_of.is_some() {
                continue;
            }
            o += &format!("message {} {{\n", m.name);
            for f in &m.fields {
                let ty = self.type_text(f.kind);
                let (n, num) = (f.name(), f.num);
                o += &match f.label {
                    Label::Single | Label::Api(_) => format!("  {} {} = {};\n", ty, n, num),
                    Label::Optional => format!("  optional {} {} = {};\n", ty, n, num),
                    Label::Rep => format!("  repeated {} {} = {};\n", ty, n, num),
                    Label::RepPacked(p) => {
                        format!("  repeated {} {} = {} [packed={}];\n", ty, n, num, p)
                    }
                    Label::Map => {
                        let e = match f.kind {
                            Msg(e) => &self.msgs[e],
                            _ => unreachable!(),
                        };
                        format!(
                            "  map<{}, {}> {} = {};\n",
                            self.type_text(e.fields[0].kind),
                            self.type_text(e.fields[1].kind),
                            n,
                            num
                        )
                    }
                    Label::Oneof(_) => continue,
                };
            }
            for i in 0..m.oneofs {
                o += &format!("  oneof o{} {{\n", i);
                for f in &m.fields {
                    if f.label == Label::Oneof(i) {
                        let ty = self.type_text(f.kind);
                        o += &format!("    {} {} = {};\n", ty, f.name(), f.num);
                    }
                }
                o += "  }\n";
            }
            o += "}\n";
        }
        o
    }

    /// Compiles the schema: from text if that gives what the schema says, else through the API.
    pub fn compile(&self) -> Result<Compiled, Viol>
    {
        let text = self.render();
        let parsed = call("Context::parse", || Context::parse([text.as_str()]));
        let api_only = self
            .msgs
            .iter()
            .any(|m| m.fields.iter().any(|f| matches!(f.label, Label::Api(_))));
        if !api_only {
            if let Ok(Ok(ctx)) = parsed {
                if let Ok(c) = self.finish(ctx) {
                    return Ok(c);
                }
            }
        }
        self.compile_api()
    }

    pub fn compile_text(&self) -> Result<Compiled, Viol>
    {
        let text = self.render();
        match call("Context::parse", || Context::parse([text.as_str()]))? {
            Ok(ctx) => self.finish(ctx),
            Err(e) => fail(format!("valid schema rejected: {:?}\n{}", e, text)),
        }
    }

    pub fn compile_api(&self) -> Result<Compiled, Viol>
    {
        let build = || -> Result<Context, String> {
            let mut ctx = Context::new();
            let pkg = ctx
                .insert_package(Package::new(Some("T".to_string())))
                .map_err(|e| format!("{:?}", e))?;
            // References are handed out in order of insertion, so types that are used before they
            // are inserted need two passes. The first pass learns the references.
            let mut probe = Context::new();
            let probe_pkg = probe
                .insert_package(Package::new(Some("T".to_string())))
                .map_err(|e| format!("{:?}", e))?;
            let mut erefs = vec![];
            let mut mrefs: Vec<MessageRef> = vec![];
            for (name, _) in &self.enums {
                erefs.push(
                    probe
                        .insert_enum(EnumInfo::new(name.clone(), TypeParent::Package(probe_pkg)))
                        .map_err(|e| format!("{:?}", e))?,
                );
            }
            let parent = |m: &MsgDef, mrefs: &[MessageRef], pkg| match m.entry_of {
                Some(p) => TypeParent::Message(mrefs[p]),
                None => TypeParent::Package(pkg),
            };
            for m in &self.msgs {
                let p = parent(m, &mrefs, probe_pkg);
                mrefs.push(
                    probe
                        .insert_message(MessageInfo::new(m.name.clone(), p))
                        .map_err(|e| format!("{:?}", e))?,
                );
            }
            for (name, values) in &self.enums {
                let mut e = EnumInfo::new(name.clone(), TypeParent::Package(pkg));
                for v in values {
                    let n = format!("{}_{}", name, v.to_string().replace('-', "n"));
                    e.add_field(EnumField::new(n, *v))
                        .map_err(|e| format!("{:?}", e))?;
                }
                ctx.insert_enum(e).map_err(|e| format!("{:?}", e))?;
            }
            for m in &self.msgs {
                let mut info = MessageInfo::new(m.name.clone(), parent(m, &mrefs, pkg));
                let mut oneofs = vec![];
                for i in 0..m.oneofs {
                    oneofs.push(
                        info.add_oneof(Oneof::new(format!("o{}", i)))
                            .map_err(|e| format!("{:?}", e))?,
                    );
                }
                for f in &m.fields {
                    let vt = value_type(f.kind, &mrefs, &erefs);
                    let mut mf = MessageField::new(f.name(), f.num, vt);
                    mf.multiplicity = f.multiplicity();
                    if let Label::Oneof(i) = f.label {
                        mf.oneof = Some(oneofs[i]);
                    }
                    info.add_field(mf).map_err(|e| format!("{:?}", e))?;
                }
                ctx.insert_message(info).map_err(|e| format!("{:?}", e))?;
            }
            Ok(ctx)
        };
        match call("building a context through the API", build)? {
            Ok(ctx) => self.finish(ctx),
            Err(e) => fail(format!("building a context through the API failed: {}", e)),
        }
    }

    fn finish(&self, ctx: Context) -> Result<Compiled, Viol>
    {
        let mut mrefs = vec![];
        let mut erefs = vec![];
        for m in 0..self.msgs.len() {
            let name = self.full_name(m);
            match call("get_message", || ctx.get_message(&name).map(|m| m.self_ref))? {
                Some(m) => mrefs.push(m),
                None => return fail(format!("no message {}\n{}", name, self.render())),
            }
        }
        for (n, _) in &self.enums {
            let name = format!("T.{}", n);
            match ctx.get_type(&name) {
                Some(TypeInfo::Enum(e)) => erefs.push(e.self_ref),
                _ => return fail(format!("no enum {}\n{}", name, self.render())),
            }
        }
        for (i, m) in self.msgs.iter().enumerate() {
            let info = call("resolve_message", || ctx.resolve_message(mrefs[i]))?;
            for f in &m.fields {
                let vt = value_type(f.kind, &mrefs, &erefs);
                let ok = match info.get_field(f.num) {
                    Some(mf) => {
                        mf.field_type == vt
                            && (mf.multiplicity == f.multiplicity() || matches!(f.kind, Enum(_)))
                    }
                    None => false,
                };
                if !ok {
                    return fail(format!(
                        "field {} of {} is {:?}, declared as {:?}\n{}",
                        f.num,
                        m.name,
                        info.get_field(f.num),
                        f,
                        self.render()
                    ));
                }
            }
        }
        let index = self
            .msgs
            .iter()
            .map(|m| {
                m.fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| (f.num, i))
                    .collect::<HashMap<_, _>>()
            })
            .collect();
        let small = self
            .msgs
            .iter()
            .map(|m| {
                let mut v = vec![u16::MAX; 128];
                for (i, f) in m.fields.iter().enumerate() {
                    if f.num < 128 {
                        v[f.num as usize] = i as u16;
                    }
                }
                v
            })
            .collect();
        Ok(Compiled {
            schema: self.clone(),
            ctx,
            mrefs,
            erefs,
            index,
            small,
        })
    }
}

pub fn value_type(kind: Kind, m: &[MessageRef], e: &[EnumRef]) -> ValueType
{
    match kind {
        Double => ValueType::Double,
        Float => ValueType::Float,
        Int32 => ValueType::Int32,
        Int64 => ValueType::Int64,
        UInt32 => ValueType::UInt32,
        UInt64 => ValueType::UInt64,
        SInt32 => ValueType::SInt32,
        SInt64 => ValueType::SInt64,
        Fixed32 => ValueType::Fixed32,
        Fixed64 => ValueType::Fixed64,
        SFixed32 => ValueType::SFixed32,
        SFixed64 => ValueType::SFixed64,
        Bool => ValueType::Bool,
        Str => ValueType::String,
        Bytes => ValueType::Bytes,
        Msg(i) => ValueType::Message(m[i]),
        Enum(i) => ValueType::Enum(e[i]),
    }
}

pub struct Compiled
{
    pub schema: Schema,
    pub ctx: Context,
    pub mrefs: Vec<MessageRef>,
    pub erefs: Vec<EnumRef>,
    index: Vec<HashMap<u64, usize>>,
    small: Vec<Vec<u16>>,
}

impl Compiled
{
    pub fn field(&self, m: usize, num: u64) -> Option<(usize, &Field)>
    {
        if num < 128 {
            match self.small[m][num as usize] {
                u16::MAX => None,
                i => Some((i as usize, &self.schema.msgs[m].fields[i as usize])),
            }
        } else {
            self.index[m]
                .get(&num)
                .map(|i| (*i, &self.schema.msgs[m].fields[*i]))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The schemas of the decode and encode checks

pub const A: usize = 0;
pub const B: usize = 1;
pub const REP: usize = 2;
pub const REPF: usize = 3;
pub const OPT: usize = 4;
pub const N: usize = 5;
pub const BIG: usize = 6;

/// One schema with every kind of field; numbers below 16 have one-byte tags.
pub fn rich() -> Schema
{
    let mut s = Schema::default();
    s.enums.push(("E".to_string(), vec![0, 1, 2, -1, 300]));
    for n in ["A", "B", "Rep", "RepF", "Opt", "N", "Big"] {
        s.msg(n);
    }
    // A: singular scalars, the enum and messages.
    for (i, k) in SCALARS.iter().enumerate() {
        s.add(A, i as u64 + 1, *k, Label::Single);
    }
    s.add(A, 16, Enum(0), Label::Single);
    s.add(A, 17, Msg(N), Label::Single);
    s.add(A, 18, Msg(A), Label::Single);
    // B: a mix of labels with one-byte tags.
    s.add(B, 1, Enum(0), Label::Single);
    s.add(B, 2, Msg(N), Label::Single);
    s.add(B, 3, Msg(B), Label::Single);
    s.add(B, 4, Int32, Label::Rep);
    s.add(B, 5, Bool, Label::Rep);
    s.add(B, 6, Fixed32, Label::Rep);
    s.add(B, 7, Str, Label::Rep);
    s.add(B, 8, Msg(N), Label::Rep);
    s.add(B, 9, SInt64, Label::RepPacked(false));
    s.add(B, 10, UInt32, Label::Optional);
    s.add_map(B, 11, Str, Int32);
    s.add(B, 12, SInt32, Label::Oneof(0));
    s.add(B, 13, Msg(N), Label::Oneof(0));
    s.add(B, 14, Double, Label::Rep);
    s.add(B, 15, Bytes, Label::Rep);
    // Every scalar with every label.
    for (i, k) in SCALARS.iter().enumerate() {
        s.add(REP, i as u64 + 1, *k, Label::Rep);
        s.add(REPF, i as u64 + 1, *k, Label::RepPacked(i % 4 == 3));
        s.add(OPT, i as u64 + 1, *k, Label::Optional);
    }
    for m in [REP, OPT] {
        let l = if m == REP { Label::Rep } else { Label::Optional };
        s.add(m, 16, Enum(0), l);
        s.add(m, 17, Msg(N), l);
        s.add(m, 18, Msg(m), l);
    }
    // N: what the others embed.
    s.add(N, 1, Int32, Label::Single);
    s.add(N, 2, Str, Label::Single);
    s.add(N, 3, SInt32, Label::Rep);
    s.add(N, 4, Msg(N), Label::Single);
    s.add(N, 5, Msg(B), Label::Single);
    s.add(N, 6, Fixed64, Label::Single);
    // Numbers with long tags.
    for (i, n) in BIG_NUMBERS.iter().enumerate() {
        let kinds = [UInt32, Str, Fixed64, Msg(N), Float, SInt64];
        let labels = [Label::Single, Label::Rep, Label::Optional];
        s.add(BIG, *n, kinds[i % 6], labels[i % 3]);
    }
    s
}

pub const BIG_NUMBERS: [u64; 20] = [
    1, 15, 16, 127, 128, 255, 256, 2047, 2048, 16383, 16384, 18999, 19000, 65535, 65536, 262143,
    262144, 33554431, 33554432, 536870911,
];
