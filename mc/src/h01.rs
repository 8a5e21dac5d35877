//! H01: results depend only on the arguments.
//!
//! Every case is a history of calls, or two threads with a schedule, that runs in a process of its
//! own: a child forked from a process that has not called protofish yet. The result of every call
//! is compared with the result of the same call in a fresh process where nothing else ran (but for
//! the insertions that made its context).
//!
//! The scheduler owns both threads: only the thread that holds the baton runs. It can be taken away
//! between calls, at every call of the allocator and, by single-stepping the processor, before
//! every instruction.

use crate::engine::*;
use crate::ensure;
use crate::mem;
use crate::wire::*;
use protofish::context::*;
use protofish::decode::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::sync::OnceLock;

// ---------------------------------------------------------------------------------------------
// Operations

const TEXTS: [&str; 9] = [
    // 0: the usual one.
    r#"syntax = "proto3"; package a;
       message M { int32 f1 = 1; string f2 = 2; N f3 = 3 [deprecated = true]; repeated int32 f4 = 4;
                   repeated E f5 = 5; oneof o { sint64 f6 = 6; bytes f7 = 7; } map<string, int32> f8 = 8; }
       message N { M f1 = 1; uint64 f2 = 2; optional bool f3 = 3; }
       enum E { A = 0; B = 1 [(x) = 'y']; }
       service S { rpc R(M) returns (stream N); option (s) = 1; }"#,
    // 1: the same names and references, but other types.
    r#"syntax = "proto3"; package a;
       message M { sint32 f1 = 1; bytes f2 = 2; M f3 = 3; repeated int32 f4 = 4 [packed = false];
                   repeated string f5 = 5; oneof p { fixed64 f6 = 9; N f7 = 7; } map<int32, N> f8 = 8; }
       message N { string f1 = 1; sint64 f2 = 2; repeated bool f3 = 3; }
       enum E { B = 0; A = 1; C = -1; }
       service S { rpc R(stream N) returns (M); rpc Q(M) returns (M); }
       service T { rpc R(N) returns (N); } service U { }"#,
    // 2: the same names at other references, another number of items.
    r#"syntax = "proto3"; package a;
       enum E { Z = 0; B = 7; }
       message X { message M { uint32 f1 = 1; } M f1 = 1; }
       message N { M f1 = 1; double f2 = 2; E f3 = 3; }
       message M { X f1 = 1; string g2 = 2; N f3 = 3; repeated double f4 = 4; E f5 = 5; string f7 = 7; }
       service S { rpc R(X) returns (X.M); }"#,
    // 3..6: errors at every stage.
    "syntax = \"proto3\"; package a; message M { int32 f1 = ; }",
    "syntax = \"proto3\"; package a; message M { K f1 = 1; }",
    "syntax = \"proto3\"; package a; message M { } enum M { A = 0; }",
    "syntax = \"proto3\"; package a; message M { int32 f = 99999999999999999999999; option (o) = -9223372036854775808; }",
    // 7: another file.
    r#"syntax = "proto3"; package b.c;
       service V { rpc R(a.M) returns (N); rpc Q(N) returns (N); rpc P(N) returns (N) { option a = 1; option b = 2; } }
       service W { }
       message N { a.M f1 = 1; oneof o { a.E f2 = 2; N.O f3 = 3; } oneof p { bool f4 = 4; } message O { } enum F { Z = 0; Y = 1; } }
       enum G { X = 0; } service T { }"#,
    // 8: the same names in another order.
    r#"syntax = "proto3"; package a;
       enum D { D0 = 0; } enum E { A = 0; B = 2; } message N { sint32 f1 = 1; string f2 = 2; N f3 = 3; bytes f5 = 4; }
       message M { int64 f1 = 1; N f2 = 2; N f3 = 3; oneof q { bool f7 = 4; } oneof o { string f4 = 7; } message A { } }
       service T { rpc R(N) returns (N); } service S { rpc Q(N) returns (M); rpc R(N) returns (M); }"#,
];
/// Texts that leave out most of what a file can have.
const SPARSE: [&str; 6] = [
    "syntax = \"proto3\"; message M { int32 f1 = 1; }",
    "syntax = \"proto3\";",
    "syntax = \"proto3\"; package a; message M { message N { } N f1 = 1; } enum E { A = 0; }",
    "syntax = \"proto3\"; service S { rpc R(M) returns (M); } message M { }",
    "syntax = \"proto3\"; package b.c; message M { map<int32, int32> f1 = 1; oneof o { bool f2 = 2; } }",
    "",
];
/// The texts that come to the same place.
const PLACED: [usize; 3] = [0, 8, 2];
const CONTEXTS: usize = 3;
const NAMES: [&str; 19] = [
    "a.M", "a.N", "a.E", "a.X", "a.X.M", "a.M.F8Entry", "a.S", "M", "", ".a.M", "a", "a.A", "g.P0",
    "g.P1", "g.P0.Q", "g.E", "b.c.V", "b.c.N", "a.T",
];
const MEMBERS: [&str; 14] = [
    "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "g2", "", "R", "Q", "key", "value",
];

fn payloads() -> Vec<Vec<u8>>
{
    let mut deep = vec![];
    for i in 0..90 {
        deep = rec_ld(if i % 2 == 0 { 3 } else { 1 }, &deep);
    }
    let mut deeper = rec(2, 0, &varint(5));
    for i in 0..140 {
        deeper = rec_ld(if i % 2 == 0 { 3 } else { 1 }, &deeper);
    }
    let mut usual = rec(1, 0, &varint(300));
    usual.extend(rec_ld(2, b"text"));
    usual.extend(rec_ld(3, &rec(2, 0, &varint(7))));
    usual.extend(rec_ld(4, &[1, 2, 0x96, 1]));
    usual.extend(rec(5, 0, &varint(1)));
    usual.extend(rec_ld(7, &[8, 1]));
    usual.extend(rec_ld(8, &[10, 1, b'k', 16, 9]));
    let mut odd = rec(9, 1, &[1, 2, 3, 4, 5, 6, 7, 8]);
    odd.extend(rec(1, 5, &[1, 2, 3, 4]));
    odd.extend(rec_ld(2, b"\xff\xfe"));
    odd.extend(rec_ld(3, &[0x0a, 0x7f, 1]));
    odd.extend(rec(1, 0, &varint_padded(u64::MAX as u128, 10)));
    odd.extend(rec_ld(4, &[1, 0x80]));
    odd.extend(rec(1000, 0, &varint(1)));
    odd.extend([0x12, 0x20, b'c', b'u', b't']);
    let mut bad = rec(2, 0, &varint(1));
    bad.extend([0x0b, 1, 2]);
    let mut garbage = rec(1, 0, &varint(2));
    garbage.extend([0x80, 0x80]);
    vec![usual, odd, bad, garbage, deep, deeper]
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op
{
    /// Parses text i.
    Parse(usize),
    /// Parses texts i and j as two files.
    Parse2(usize, usize),
    /// Looks everything up in context i.
    Dump(usize),
    /// Looks one message up in context i.
    Look(usize),
    /// Decodes payload k as message "a.M" or "a.N" of context i.
    Decode(usize, usize, usize),
    /// Encodes payload k, decoded in context i as message "a.M".
    Encode(usize, usize),
    /// Encodes a value made by hand.
    EncodeMade(usize),
    /// Compares contexts.
    Compare(usize, usize),
    /// Parses texts i and j twice and compares.
    Again(usize, usize),
    /// Inserts item i into the growing context.
    Insert(usize),
    /// Looks everything up in the growing context.
    DumpGrown,
    /// Looks item i up in the growing context.
    LookGrown(usize),
    /// Decodes as the messages of the growing context.
    DecodeGrown,
    /// Puts a context of text PLACED[i] where the last one was, and payload k where the last one was, and uses them.
    Placed(usize, usize),
    /// Parses sparse text i.
    Sparse(usize),
    /// Decodes small payload k as "a.M" of context i, and encodes.
    Small(usize, usize),
    /// Parses texts 0 and 7, one of which is damaged at token t.
    Broken(usize, usize, usize),
    /// Decodes the first k bytes of payload p as "a.M" of context i.
    Cut(usize, usize, usize),
}
use Op::*;

pub const PAYLOADS: usize = 6;

/// Every operation. Operations are written as indexes into this list.
fn all_ops() -> Vec<Op>
{
    let mut v = vec![];
    for i in 0..TEXTS.len() {
        v.push(Parse(i));
    }
    v.push(Parse2(0, 1));
    v.push(Parse2(2, 4));
    v.push(Parse2(0, 7));
    v.push(Again(0, 7));
    v.push(Again(7, 1));
    for i in 0..CONTEXTS {
        v.push(Dump(i));
        v.push(Look(i));
        for m in 0..2 {
            for p in 0..PAYLOADS {
                v.push(Decode(i, m, p));
            }
        }
        for p in 0..PAYLOADS {
            v.push(Encode(i, p));
        }
    }
    for i in 0..2 {
        v.push(EncodeMade(i));
    }
    v.push(Compare(0, 1));
    v.push(Compare(0, 0));
    v.push(Compare(1, 1));
    v.push(Compare(2, 2));
    for i in 0..4 {
        v.push(Insert(i));
    }
    v.push(DumpGrown);
    v.push(LookGrown(0));
    v.push(LookGrown(1));
    v.push(DecodeGrown);
    for i in 0..PLACED.len() {
        for k in 0..2 {
            v.push(Placed(i, k));
        }
    }
    // The operations from here on are used in some spaces only.
    for i in 0..SPARSE.len() {
        v.push(Sparse(i));
    }
    for i in 0..2 {
        for k in 0..small_payloads().len() {
            v.push(Small(i, k));
        }
    }
    for which in 0..2 {
        let toks = crate::schema::toks(TEXTS[[0, 7][which]]);
        for t in 0..toks.len() {
            for kind in 0..4 {
                let number = toks[t].bytes().all(|b| b.is_ascii_digit());
                let word = toks[t].bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && !number;
                if kind < 2 || (kind == 2 && number) || (kind == 3 && word) {
                    v.push(Broken(which, t, kind));
                }
            }
        }
    }
    let p = payloads();
    for i in 0..2 {
        for k in 0..4 {
            for cut in 0..p[k].len() {
                v.push(Cut(i, k, cut));
            }
        }
    }
    v
}

fn small_payloads() -> Vec<Vec<u8>>
{
    vec![
        vec![],
        rec(1, 0, &varint(5)),
        rec(1000, 0, &varint(1)),
        rec_ld(3, &[]),
        rec_ld(4, &[1]),
    ]
}

/// Text 0 or 7 with token t deleted, the rest deleted, or token t replaced.
fn broken(which: usize, t: usize, kind: usize) -> [String; 2]
{
    let mut toks = crate::schema::toks(TEXTS[[0, 7][which]]);
    match kind {
        0 => drop(toks.remove(t)),
        1 => toks.truncate(t),
        2 => toks[t] = "99999999999999999999".to_string(),
        _ => toks[t] = "Kx".to_string(),
    }
    let mut texts = [TEXTS[0].to_string(), TEXTS[7].to_string()];
    texts[which] = toks.join(" ");
    texts
}

/// The operations that histories of depth three and more are made of.
fn core(op: &Op) -> bool
{
    match op {
        Parse(i) => matches!(i, 0 | 1 | 3 | 4),
        Parse2(..) => false,
        Dump(_) => true,
        Look(i) => *i == 0,
        Decode(i, m, p) => {
            (*m == 0 && matches!(p, 0 | 1 | 4) && *i < 2) || (*i == 2 && *p == 0 && *m == 0)
                || (*i == 0 && *m == 1 && matches!(p, 0 | 5))
        }
        Encode(i, p) => *i < 2 && matches!(p, 0 | 1),
        EncodeMade(_) => true,
        Compare(..) | Again(..) => false,
        Insert(i) => *i < 2,
        DumpGrown => true,
        LookGrown(i) => *i == 1,
        DecodeGrown => true,
        Placed(i, k) => *i < 2 && i + k < 2,
        Sparse(_) | Small(..) | Broken(..) | Cut(..) => false,
    }
}

fn is_insert(op: &Op) -> bool
{
    matches!(op, Insert(_))
}
fn uses_grown(op: &Op) -> bool
{
    matches!(op, DumpGrown | LookGrown(_) | DecodeGrown | Insert(_))
}

#[derive(Default)]
struct World
{
    ctxs: [OnceLock<Context>; CONTEXTS],
    again: [OnceLock<Context>; CONTEXTS],
    grown: Mutex<Option<Context>>,
    placed: Mutex<(Option<Context>, Vec<u8>)>,
}

fn parsed(i: usize) -> Context
{
    match Context::parse([TEXTS[i]]) {
        Ok(c) => c,
        Err(e) => panic!("text {} was rejected: {:?}", i, e),
    }
}

impl World
{
    fn ctx(&self, i: usize) -> &Context
    {
        self.ctxs[i].get_or_init(|| parsed(i))
    }

    /// Contexts other than the ones that are read, for comparison.
    fn unchanged(&self) -> String
    {
        let mut o = String::new();
        for i in 0..CONTEXTS {
            if let Some(c) = self.ctxs[i].get() {
                let again = self.again[i].get_or_init(|| parsed(i));
                let _ = writeln!(o, "{}", c == again);
            }
        }
        o
    }

    fn grow<T>(&self, f: impl FnOnce(&mut Context) -> T) -> T
    {
        let mut g = self.grown.lock().unwrap_or_else(|e| e.into_inner());
        let c = g.get_or_insert_with(|| {
            let mut c = Context::new();
            let _ = c.insert_package(Package::new(Some("g".to_string())));
            c
        });
        f(c)
    }

    fn run(&self, op: &Op, out: &mut Out)
    {
        match op {
            Parse(i) => dump_parsed(out.call(|| Context::parse([TEXTS[*i]])), out),
            Parse2(i, j) => dump_parsed(out.call(|| Context::parse([TEXTS[*i], TEXTS[*j]])), out),
            Sparse(i) => dump_parsed(out.call(|| Context::parse([SPARSE[*i]])), out),
            Broken(which, t, kind) => {
                let texts = broken(*which, *t, *kind);
                dump_parsed(out.call(|| Context::parse(&texts)), out)
            }
            Small(i, k) => {
                let c = self.ctx(*i);
                let p = &small_payloads()[*k];
                let s = out.call(|| {
                    let v = c.get_message("a.M").map(|m| m.decode(p, c));
                    let e = v.as_ref().map(|v| hex(&v.encode(c)));
                    format!("{:?} {:?}", v, e)
                });
                out.put(s);
            }
            Cut(i, p, k) => {
                let c = self.ctx(*i);
                let p = &payloads()[*p][..*k];
                let s = out.call(|| format!("{:?}", c.get_message("a.M").map(|m| m.decode(p, c))));
                out.put(s);
            }
            Dump(i) => {
                let c = self.ctx(*i);
                let s = out.call(|| dump(c));
                out.put(s);
            }
            Look(i) => {
                let c = self.ctx(*i);
                let s = out.call(|| {
                    let m = c.get_message("a.M").map(|m| m.self_ref);
                    let again = m.map(|m| c.resolve_message(m).full_name.clone());
                    format!("{:?} {:?} {:?}", m, again, c.get_message("a.Z").is_some())
                });
                out.put(s);
            }
            Decode(i, m, p) => {
                let c = self.ctx(*i);
                let info = c.get_message(["a.M", "a.N"][*m]);
                let p = &payloads()[*p];
                let v = out.call(|| info.map(|i| i.decode(p, c)));
                let v2 = out.call(|| info.map(|i| c.decode(i.self_ref, p)));
                out.put(format!("{:?} {:?}", v, v == v2 || format!("{:?}", v) == format!("{:?}", v2)));
            }
            Encode(i, p) => {
                let c = self.ctx(*i);
                let info = c.get_message("a.M");
                let p = &payloads()[*p];
                let v = info.map(|i| i.decode(p, c));
                let b = out.call(|| v.as_ref().map(|v| v.encode(c)));
                out.put(format!("{:?}", b.map(|b| hex(&b))));
            }
            EncodeMade(k) => {
                let c = self.ctx(0);
                let r = c.get_message("a.M").map(|m| m.self_ref);
                let v = r.map(|msg_ref| made(msg_ref, *k));
                let b = out.call(|| v.as_ref().map(|v| v.encode(c)));
                out.put(format!("{:?}", b.map(|b| hex(&b))));
            }
            Compare(i, j) => {
                let (a, b) = (self.ctx(*i), parsed(*j));
                let r = out.call(|| *a == b);
                out.put(format!("{}", r));
            }
            Again(i, j) => {
                let r = out.call(|| {
                    let texts = [TEXTS[*i], TEXTS[*j]];
                    match (Context::parse(texts), Context::parse(texts)) {
                        (Ok(a), Ok(b)) => a == b && b == a,
                        _ => false,
                    }
                });
                out.put(format!("{}", r));
            }
            Insert(k) => {
                let s = self.grow(|c| out.call(|| insert(c, *k)));
                out.put(s);
            }
            DumpGrown => {
                let s = self.grow(|c| out.call(|| dump(c)));
                out.put(s);
            }
            LookGrown(k) => {
                let s = self.grow(|c| {
                    out.call(|| {
                        let name = NAMES[12 + k];
                        match c.get_type(name) {
                            None => "none".to_string(),
                            Some(t) => format!("{} {:?}", t.full_name(), t.parent()),
                        }
                    })
                });
                out.put(s);
            }
            DecodeGrown => {
                let p = rec(1, 0, &varint(300));
                let s = self.grow(|c| {
                    out.call(|| {
                        let mut s = String::new();
                        for m in ["g.P0", "g.P1", "g.P0.Q"] {
                            let v = c.get_message(m).map(|m| m.decode(&p, c));
                            let b = v.as_ref().map(|v| hex(&v.encode(c)));
                            let _ = writeln!(s, "{:?} {:?}", v, b);
                        }
                        s
                    })
                });
                out.put(s);
            }
            Placed(i, k) => {
                let mut p = self.placed.lock().unwrap_or_else(|e| e.into_inner());
                let p = &mut *p;
                p.0 = None;
                p.0 = Some(parsed(PLACED[*i]));
                p.1.clear();
                p.1.extend(rec(1, 0, &varint([300, 301][*k])));
                p.1.extend(rec_ld(2, [b"text", b"next"][*k]));
                p.1.extend(rec_ld(3, &rec(2, 0, &varint(7 + *k as u128))));
                let (c, b) = (p.0.as_ref().unwrap(), &p.1);
                let s = out.call(|| {
                    let both = || {
                        let v = c.get_message("a.M").map(|m| m.decode(b, c));
                        let e = v.as_ref().map(|v| hex(&v.encode(c)));
                        format!("{:?} {:?}\n", v, e)
                    };
                    // The last use of anything here is the first one of the next operation.
                    let mut s = both();
                    for pass in 0..2 {
                        for i in 0..NAMES.len() {
                            let n = NAMES[if pass == 0 { i } else { NAMES.len() - 1 - i }];
                            s += &glance(c, n, pass == 1);
                        }
                    }
                    s + &both()
                });
                out.put(s);
            }
        }
    }
}

fn made(msg_ref: MessageRef, k: usize) -> MessageValue
{
    let inner = |fields| {
        Value::Message(Box::new(MessageValue {
            msg_ref,
            fields,
            garbage: None,
        }))
    };
    let f = |number, value| FieldValue { number, value };
    match k {
        0 => MessageValue {
            msg_ref,
            fields: vec![
                f(1, Value::Int32(-1)),
                f(2, Value::String("s".repeat(130))),
                f(4, Value::Packed(PackedArray::Int32(vec![1, -2, 300]))),
                f(6, Value::SInt64(i64::MIN)),
                f(3, inner(vec![f(2, Value::UInt64(u64::MAX)), f(3, Value::Bool(true))])),
            ],
            garbage: None,
        },
        _ => MessageValue {
            msg_ref,
            fields: vec![
                f(3, inner(vec![f(1, inner(vec![f(1, Value::SFixed32(-7))]))])),
                f(9, Value::Unknown(UnknownValue::Varint(u64::MAX as u128))),
                f(7, Value::Incomplete(2, bytes::Bytes::from_static(&[9, 1]))),
            ],
            garbage: Some(bytes::Bytes::from_static(&[0x80])),
        },
    }
}

fn insert(c: &mut Context, k: usize) -> String
{
    let pkg = match c.insert_package(Package::new(Some("g".to_string()))) {
        Ok(p) | Err(p) => p,
    };
    let mut made = |name: &str, parent, ty| {
        let mut m = MessageInfo::new(name.to_string(), parent);
        let a = m.add_field(MessageField::new("f1".to_string(), 1, ty));
        let b = m.add_field(MessageField::new("f1".to_string(), 2, ValueType::Bool));
        let r = c.insert_message(m);
        format!("{:?} {:?} {:?}", a, b, r)
    };
    match k {
        0 => made("P0", TypeParent::Package(pkg), ValueType::Int32),
        1 => made("P1", TypeParent::Package(pkg), ValueType::String),
        2 => match c.get_message("g.P0").map(|m| m.self_ref) {
            Some(m) => {
                let mut q = MessageInfo::new("Q".to_string(), TypeParent::Message(m));
                let a = q.add_field(MessageField::new("f1".to_string(), 1, ValueType::Message(m)));
                let r = c.insert_message(q);
                format!("{:?} {:?}", a, r)
            }
            None => "no parent".to_string(),
        },
        _ => {
            let mut e = EnumInfo::new("E".to_string(), TypeParent::Package(pkg));
            let a = e.add_field(EnumField::new("A".to_string(), 0));
            format!("{:?} {:?}", a, c.insert_enum(e))
        }
    }
}

fn dump_parsed(r: Result<Context, ParseError>, out: &mut Out)
{
    match r {
        Ok(c) => {
            let s = dump(&c);
            out.put(s);
        }
        Err(e) => out.put(format!("{:?} {}", e, e)),
    }
}

/// Everything that can be looked up by the names above.
fn dump(c: &Context) -> String
{
    let mut o = String::new();
    for n in NAMES {
        match c.get_type(n) {
            None => {}
            Some(TypeInfo::Message(m)) => {
                let _ = writeln!(
                    o,
                    "{}: message {} {} {:?} {:?} {:?}",
                    n, m.name, m.full_name, m.parent, m.self_ref, m.inner_types
                );
                for i in &m.oneofs {
                    let _ = writeln!(o, " {:?} {:?}", i, m.get_oneof(i.self_ref).map(|o| &o.name));
                }
                for f in m.iter_fields() {
                    let _ = writeln!(o, " {:?}", f);
                }
                for i in 0..10 {
                    let _ = write!(o, " {:?}", m.get_field(i).map(|f| &f.name));
                }
                for i in MEMBERS {
                    let _ = write!(o, " {:?}", m.get_field_by_name(i).map(|f| f.number));
                }
                let again = c.resolve_message(m.self_ref);
                let _ = writeln!(o, "{}", again.full_name);
            }
            Some(TypeInfo::Enum(e)) => {
                let _ = writeln!(
                    o,
                    "{}: enum {} {} {:?} {:?}",
                    n, e.name, e.full_name, e.parent, e.self_ref
                );
                for i in -1..9 {
                    let _ = write!(o, " {:?}", e.get_field_by_value(i));
                }
                let again = c.resolve_enum(e.self_ref);
                let _ = writeln!(o, "{}", again.full_name);
            }
        }
        if let Some(s) = c.get_service(n) {
            let _ = writeln!(o, "{}: service {} {} {:?} {:?}", n, s.name, s.full_name, s.parent, s.options);
            for r in &s.rpcs {
                let _ = writeln!(o, " {:?}", r);
            }
            for i in MEMBERS {
                let _ = write!(o, " {:?}", s.rpc_by_name(i).map(|r| &r.name));
            }
        }
    }
    o
}

/// What a few lookups of one name give, in one order or the other.
fn glance(c: &Context, n: &str, back: bool) -> String
{
    let mut list: Vec<Box<dyn Fn() -> String + '_>> = vec![];
    list.push(Box::new(move || {
        format!("{:?}", c.get_type(n).map(|t| (t.full_name(), t.parent())))
    }));
    list.push(Box::new(move || format!("{:?}", c.get_message(n).map(|m| (&m.full_name, m.self_ref)))));
    list.push(Box::new(move || {
        format!("{:?}", c.get_service(n).map(|s| (&s.full_name, s.rpc_by_name("R"), s.rpc_by_name("Q"))))
    }));
    match c.get_type(n) {
        Some(TypeInfo::Message(m)) => {
            let r = m.self_ref;
            list.push(Box::new(move || c.resolve_message(r).full_name.clone()));
            for k in 0..10 {
                list.push(Box::new(move || format!("{:?}", m.get_field(k).map(|f| &f.name))));
            }
            for k in MEMBERS {
                list.push(Box::new(move || format!("{:?}", m.get_field_by_name(k))));
            }
            for o in &m.oneofs {
                list.push(Box::new(move || format!("{:?}", m.get_oneof(o.self_ref))));
            }
        }
        Some(TypeInfo::Enum(e)) => {
            let r = e.self_ref;
            list.push(Box::new(move || c.resolve_enum(r).full_name.clone()));
            for k in -1..9 {
                list.push(Box::new(move || format!("{:?}", e.get_field_by_value(k))));
            }
        }
        None => {}
    }
    if back {
        list.reverse();
    }
    list.iter().map(|f| f() + "\n").collect()
}

// ---------------------------------------------------------------------------------------------
// The scheduler, in the child

/// What can take the baton from a thread that is inside a call.
const BETWEEN: u8 = 0;
const ALLOC: u8 = 1;
const STEP: u8 = 2;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static TURN: AtomicU32 = AtomicU32::new(0);
static DONE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
/// Points passed by each thread.
static POINTS: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
/// Points at which to hand over, ascending, for each thread. u64::MAX ends.
static SWITCH: [[AtomicU64; 4]; 2] = [const { [const { AtomicU64::new(u64::MAX) }; 4] }; 2];
static NEXT_SWITCH: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
/// Hand over at every point of thread 0.
static DENSE: AtomicBool = AtomicBool::new(false);
/// Two scheduled threads are running.
static SCHEDULED: AtomicBool = AtomicBool::new(false);
static HANDOVERS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<u32> = const { Cell::new(u32::MAX) };
    static INSIDE: Cell<u8> = const { Cell::new(0) };
    static KIND: Cell<u8> = const { Cell::new(BETWEEN) };
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(secs: u32) -> u32;
    fn sigaction(sig: i32, new: *const Sigaction, old: *mut Sigaction) -> i32;
}

#[repr(C)]
struct Sigaction
{
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

const SYS_FUTEX: i64 = 202;
/// A child that takes longer hangs.
const CHILD_SECS: u64 = 60;

fn futex_wait(a: &AtomicU32, v: u32)
{
    // FUTEX_WAIT_PRIVATE
    unsafe { raw_syscall(SYS_FUTEX, [a.as_ptr() as u64, 128, v as u64, 0, 0, 0]) };
}
fn futex_wake(a: &AtomicU32)
{
    // FUTEX_WAKE_PRIVATE
    unsafe { raw_syscall(SYS_FUTEX, [a.as_ptr() as u64, 129, 2, 0, 0, 0]) };
}

fn wait_turn(me: u32)
{
    loop {
        let t = TURN.load(SeqCst);
        if t == me {
            return;
        }
        futex_wait(&TURN, t);
    }
}

/// Lets the other thread run until it hands over or ends.
fn hand_over(me: u32)
{
    if DONE[1 - me as usize].load(SeqCst) {
        return;
    }
    HANDOVERS.fetch_add(1, Relaxed);
    TURN.store(1 - me, SeqCst);
    futex_wake(&TURN);
    wait_turn(me);
}

/// A point where the scheduler may intervene.
fn point()
{
    let me = ME.with(|m| m.get());
    let n = POINTS[me as usize].fetch_add(1, Relaxed);
    if DENSE.load(Relaxed) {
        if me == 0 {
            hand_over(me);
        }
        return;
    }
    let i = NEXT_SWITCH[me as usize].load(Relaxed);
    if let Some(s) = SWITCH[me as usize].get(i as usize) {
        if s.load(Relaxed) == n {
            NEXT_SWITCH[me as usize].store(i + 1, Relaxed);
            hand_over(me);
        }
    }
}

pub struct Alloc;

/// While a thread is single-stepped, it may stop inside the allocator. Its memory comes from a
/// region of its own, so that no lock of the allocator is held then.
const REGION: usize = 1 << 30;
static REGIONS: AtomicU64 = AtomicU64::new(0);
static USED: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

fn make_regions()
{
    extern "C" {
        fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), 2 * REGION, 3, 0x4022, -1, 0) };
    assert!(p as isize != -1, "mmap");
    REGIONS.store(p as u64, SeqCst);
}

#[inline(always)]
fn special() -> bool
{
    ACTIVE.load(Relaxed)
}

/// Memory of the region of this thread, if it is single-stepped.
unsafe fn from_region(l: Layout) -> Option<*mut u8>
{
    let base = REGIONS.load(Relaxed);
    if base == 0 || INSIDE.try_with(|i| i.get()).unwrap_or(0) != STEP {
        return None;
    }
    let me = ME.with(|m| m.get()) as usize;
    let at = USED[me].load(Relaxed) as usize;
    let at = (at + l.align() - 1) & !(l.align() - 1);
    if at + l.size() > REGION {
        return Some(std::ptr::null_mut());
    }
    USED[me].store((at + l.size()) as u64, Relaxed);
    Some((base as usize + me * REGION + at) as *mut u8)
}

fn in_region(p: *mut u8) -> bool
{
    let base = REGIONS.load(Relaxed) as usize;
    base != 0 && (p as usize) >= base && (p as usize) < base + 2 * REGION
}

unsafe impl GlobalAlloc for Alloc
{
    unsafe fn alloc(&self, l: Layout) -> *mut u8
    {
        if mem::metering() {
            mem::allocated(l);
        }
        if special() {
            alloc_point();
            if let Some(p) = from_region(l) {
                return p;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout)
    {
        if mem::metering() {
            mem::freed(l);
        }
        if special() {
            alloc_point();
            if INSIDE.try_with(|i| i.get()).unwrap_or(0) == STEP {
                return;
            }
        }
        if in_region(p) {
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8
    {
        if mem::metering() {
            mem::allocated(l);
        }
        if special() {
            alloc_point();
            if let Some(p) = from_region(l) {
                return p;
            }
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8
    {
        if mem::metering() {
            mem::grown(l.size(), n);
        }
        if special() {
            alloc_point();
            if let Some(q) = from_region(Layout::from_size_align_unchecked(n, l.align())) {
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                }
                return q;
            }
        }
        if in_region(p) {
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

#[cold]
fn alloc_point()
{
    let inside = INSIDE.try_with(|i| i.get()).unwrap_or(0);
    if inside == ALLOC {
        INSIDE.with(|i| i.set(0));
        point();
        INSIDE.with(|i| i.set(ALLOC));
    }
}

/// System call without anything around it.
unsafe fn raw_syscall(n: i64, a: [u64; 6]) -> i64
{
    let r: i64;
    asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
    );
    r
}

/// Replaces the function of the C library. The locks of the Rust standard library wait through it:
/// a thread that would wait for a lock that the other one holds lets it run instead.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64
{
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    let futex_wait = n == SYS_FUTEX && matches!(b & 0x7f, 0 | 9);
    if futex_wait && SCHEDULED.load(Relaxed) && a != TURN.as_ptr() as u64 {
        let me = ME.try_with(|m| m.get()).unwrap_or(u32::MAX);
        if me < 2 && !DONE[1 - me as usize].load(SeqCst) {
            let inside = INSIDE.with(|i| i.replace(0));
            hand_over(me);
            INSIDE.with(|i| i.set(inside));
            // EINTR
            *__errno_location() = 4;
            return -1;
        }
    }
    let r = raw_syscall(n, [a, b, c, d, e, f]);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// Offset of the flags register in ucontext_t.
const UC_EFLAGS: usize = 40 + 17 * 8;
const TRAP_FLAG: u64 = 0x100;

extern "C" fn on_trap(_sig: i32, _info: *mut u8, uc: *mut u8)
{
    let inside = INSIDE.with(|i| i.get());
    if inside != STEP {
        return;
    }
    INSIDE.with(|i| i.set(0));
    let me = ME.with(|m| m.get()) as usize;
    point();
    INSIDE.with(|i| i.set(STEP));
    // Nothing is left to do for this thread: run at full speed.
    if !DENSE.load(Relaxed) {
        let i = NEXT_SWITCH[me].load(Relaxed) as usize;
        if SWITCH[me].get(i).map_or(true, |s| s.load(Relaxed) == u64::MAX) {
            unsafe {
                let e = uc.add(UC_EFLAGS) as *mut u64;
                *e &= !TRAP_FLAG;
            }
        }
    }
}

fn install_trap()
{
    let a = Sigaction {
        handler: on_trap as extern "C" fn(i32, *mut u8, *mut u8) as usize,
        mask: [0; 16],
        flags: 4 | 0x4000_0000,
        restorer: 0,
    };
    let r = unsafe { sigaction(5, &a, std::ptr::null_mut()) };
    assert_eq!(r, 0, "sigaction");
}

/// Seeds of the hash tables in the child. Without a seed, the kernel is asked.
static SEED: AtomicU64 = AtomicU64::new(u64::MAX);

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize
{
    let seed = SEED.load(Relaxed);
    if seed == u64::MAX {
        // SYS_getrandom
        return unsafe { raw_syscall(318, [buf as u64, len as u64, flags as u64, 0, 0, 0]) } as isize;
    }
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 32) as u8 };
    }
    len as isize
}

/// Collects results and controls the calls.
#[derive(Default)]
struct Out
{
    results: Vec<String>,
    failed: bool,
}

impl Out
{
    fn put(&mut self, s: String)
    {
        if !self.failed {
            self.results.push(s);
        }
    }

    /// Calls into protofish under the control of the scheduler.
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> T
    {
        let kind = KIND.with(|k| k.get());
        if kind == BETWEEN {
            return f();
        }
        INSIDE.with(|i| i.set(kind));
        if kind == STEP {
            unsafe {
                asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            }
        }
        let r = f();
        if kind == STEP {
            unsafe {
                asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            }
        }
        INSIDE.with(|i| i.set(0));
        r
    }
}

fn run_op(w: &World, op: &Op) -> String
{
    let mut out = Out::default();
    match call("call", || w.run(op, &mut out)) {
        Ok(()) => out.results.join("\n"),
        Err(v) => {
            INSIDE.with(|i| i.set(0));
            unsafe {
                asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            }
            v.msg
        }
    }
}

/// What a child does.
#[derive(Clone, Debug)]
struct Case
{
    seed: u64,
    kind: u8,
    dense: bool,
    /// Operations of the first and of the second thread. Without a second thread, the first one
    /// is a history.
    ops: [Vec<usize>; 2],
    repeat: usize,
    switches: [Vec<u64>; 2],
    /// Return only hashes.
    brief: bool,
}

impl Case
{
    fn history(ops: Vec<usize>) -> Case
    {
        Case {
            seed: 1,
            kind: BETWEEN,
            dense: false,
            ops: [ops, vec![]],
            repeat: 1,
            switches: [vec![], vec![]],
            brief: true,
        }
    }

    fn line(&self) -> String
    {
        let list = |v: Vec<String>| match v.is_empty() {
            true => "-".to_string(),
            false => v.join(","),
        };
        let ops = |v: &Vec<usize>| list(v.iter().map(|x| x.to_string()).collect());
        let nums = |v: &Vec<u64>| list(v.iter().map(|x| x.to_string()).collect());
        format!(
            "{} {} {} {} {} {} {} {} {}\n",
            self.seed,
            self.kind,
            self.dense as u8,
            ops(&self.ops[0]),
            ops(&self.ops[1]),
            self.repeat,
            nums(&self.switches[0]),
            nums(&self.switches[1]),
            self.brief as u8
        )
    }

    fn read(line: &str) -> Case
    {
        let mut t = line.split_whitespace();
        let mut word = move || t.next().expect("case").to_string();
        fn list<T: std::str::FromStr>(s: String) -> Vec<T>
        {
            match s.as_str() {
                "-" => vec![],
                s => s.split(',').map(|x| x.parse().ok().expect("number")).collect(),
            }
        }
        Case {
            seed: word().parse().unwrap(),
            kind: word().parse().unwrap(),
            dense: word() == "1",
            ops: [list(word()), list(word())],
            repeat: word().parse().unwrap(),
            switches: [list(word()), list(word())],
            brief: word() == "1",
        }
    }
}

fn reply(fd: i32, case: &Case, results: Vec<Vec<String>>)
{
    let mut o = Vec::new();
    for i in 0..2 {
        o.extend(POINTS[i].load(SeqCst).to_le_bytes());
    }
    o.extend(HANDOVERS.load(SeqCst).to_le_bytes());
    for list in results {
        o.extend((list.len() as u64).to_le_bytes());
        for r in list {
            if case.brief {
                o.extend(hash_of(r.as_str()).to_le_bytes());
            } else {
                o.extend((r.len() as u64).to_le_bytes());
                o.extend(r.as_bytes());
            }
        }
    }
    let mut rest = &o[..];
    while !rest.is_empty() {
        let n = unsafe { write(fd, rest.as_ptr(), rest.len()) };
        if n <= 0 {
            unsafe { _exit(3) };
        }
        rest = &rest[n as usize..];
    }
}

fn child(case: &Case, ops: &[Op], fd: i32)
{
    SEED.store(case.seed, SeqCst);
    let w = World::default();
    if case.ops[1].is_empty() {
        KIND.with(|k| k.set(case.kind));
        ME.with(|m| m.set(0));
        if case.kind == STEP {
            install_trap();
            make_regions();
        }
        // Only counting points: a switch that is never reached keeps the steps going.
        SWITCH[0][0].store(u64::MAX - 1, SeqCst);
        if case.kind != BETWEEN {
            prepare(&w);
            ACTIVE.store(true, SeqCst);
        }
        let mut results = vec![];
        for (i, op) in case.ops[0].iter().enumerate() {
            // All operations but the last one are repeated.
            let n = if i + 1 < case.ops[0].len() { case.repeat } else { 1 };
            for _ in 1..n {
                let r = run_op(&w, &ops[*op]);
                std::hint::black_box(r);
            }
            results.push(run_op(&w, &ops[*op]));
        }
        ACTIVE.store(false, SeqCst);
        let u = if case.kind == BETWEEN { w.unchanged() } else { String::new() };
        reply(fd, case, vec![results, vec![u]]);
        return;
    }

    // Two threads.
    for i in 0..2 {
        for (j, s) in case.switches[i].iter().enumerate() {
            SWITCH[i][j].store(*s, SeqCst);
        }
    }
    if case.kind != BETWEEN {
        prepare(&w);
    }
    if case.kind == STEP {
        install_trap();
        make_regions();
    }
    DENSE.store(case.dense, SeqCst);
    let w = &w;
    let results = std::thread::scope(|s| {
        let mut threads = vec![];
        for t in 0..2 {
            threads.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        ME.with(|m| m.set(t as u32));
                        wait_turn(t as u32);
                        // The second thread of a dense schedule is not preempted.
                        let kind = match case.dense && t == 1 {
                            true => BETWEEN,
                            false => case.kind,
                        };
                        KIND.with(|k| k.set(kind));
                        let mut results = vec![];
                        if case.dense && t == 1 {
                            let mut last = String::new();
                            while !DONE[0].load(SeqCst) {
                                let r = run_op(w, &ops[case.ops[1][0]]);
                                if r != last {
                                    results.push(r.clone());
                                    last = r;
                                }
                                hand_over(1);
                            }
                        } else {
                            for op in &case.ops[t] {
                                results.push(run_op(w, &ops[*op]));
                                if case.kind == BETWEEN {
                                    point();
                                }
                            }
                        }
                        DONE[t].store(true, SeqCst);
                        TURN.store(1 - t as u32, SeqCst);
                        futex_wake(&TURN);
                        results
                    })
                    .expect("thread"),
            );
        }
        ACTIVE.store(true, SeqCst);
        SCHEDULED.store(true, SeqCst);
        let r: Vec<Vec<String>> = threads
            .into_iter()
            .map(|t| t.join().unwrap_or_else(|_| vec!["thread panicked".to_string()]))
            .collect();
        r
    });
    ACTIVE.store(false, SeqCst);
    SCHEDULED.store(false, SeqCst);
    reply(fd, case, results);
}

fn prepare(w: &World)
{
    for i in 0..CONTEXTS {
        w.ctx(i);
    }
    w.grow(|_| ());
    payloads();
}

/// Waits for cases and runs each of them in a child of its own.
pub fn zygote() -> !
{
    install_panic_hook();
    let ops = all_ops();
    let stdin = std::io::stdin();
    let mut stdin = BufReader::new(stdin.lock());
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.read_line(&mut line).unwrap_or(0) == 0 {
            std::process::exit(0);
        }
        let case = Case::read(&line);
        let mut fds = [0i32; 2];
        assert_eq!(unsafe { pipe(fds.as_mut_ptr()) }, 0, "pipe");
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                close(fds[0]);
                alarm(CHILD_SECS as u32);
            }
            child(&case, &ops, fds[1]);
            unsafe { _exit(0) };
        }
        unsafe { close(fds[1]) };
        let mut data = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = unsafe { read(fds[0], buf.as_mut_ptr(), buf.len()) };
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        unsafe { close(fds[0]) };
        let mut status = 0;
        unsafe { waitpid(pid, &mut status, 0) };
        let mut o = vec![];
        o.extend((status as u64).to_le_bytes());
        o.extend((data.len() as u64).to_le_bytes());
        o.extend(data);
        let mut out = std::io::stdout().lock();
        if out.write_all(&o).and_then(|_| out.flush()).is_err() {
            std::process::exit(0);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The checker

struct Zygote
{
    stdin: ChildStdin,
    stdout: ChildStdout,
}

thread_local! {
    static ZYGOTE: RefCell<Option<Zygote>> = const { RefCell::new(None) };
}

/// Zygotes outlive the threads of a space.
static IDLE: Mutex<Vec<Zygote>> = Mutex::new(vec![]);

#[derive(Debug, Clone)]
struct Reply
{
    status: u64,
    points: [u64; 2],
    handovers: u64,
    hashes: Vec<Vec<u64>>,
    texts: Vec<Vec<String>>,
}

fn u64_of(d: &mut &[u8]) -> u64
{
    let (a, b) = d.split_at(8);
    *d = b;
    u64::from_le_bytes(a.try_into().unwrap())
}

struct Lease(Option<Zygote>);
impl Drop for Lease
{
    fn drop(&mut self)
    {
        if let Some(z) = self.0.take() {
            IDLE.lock().unwrap().push(z);
        }
    }
}

fn run_case(case: &Case) -> Reply
{
    let z = IDLE.lock().unwrap().pop();
    let z = match z {
        Some(z) => z,
        None => {
            let exe = std::env::current_exe().expect("exe");
            let mut c = Command::new(exe)
                .arg("zygote")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("zygote");
            Zygote {
                stdin: c.stdin.take().unwrap(),
                stdout: c.stdout.take().unwrap(),
            }
        }
    };
    let mut z = Lease(Some(z));
    let zz = z.0.as_mut().unwrap();
    zz.stdin.write_all(case.line().as_bytes()).expect("zygote");
    zz.stdin.flush().expect("zygote");
    let mut head = [0u8; 16];
    zz.stdout.read_exact(&mut head).expect("zygote");
    let mut h = &head[..];
    let status = u64_of(&mut h);
    let mut data = vec![0u8; u64_of(&mut h) as usize];
    zz.stdout.read_exact(&mut data).expect("zygote");
    let mut r = Reply {
        status,
        points: [0; 2],
        handovers: 0,
        hashes: vec![],
        texts: vec![],
    };
    let mut d = &data[..];
    if status == 0 {
        r.points = [u64_of(&mut d), u64_of(&mut d)];
        r.handovers = u64_of(&mut d);
        while !d.is_empty() {
            let n = u64_of(&mut d);
            let mut hashes = vec![];
            let mut texts = vec![];
            for _ in 0..n {
                let x = u64_of(&mut d);
                if case.brief {
                    hashes.push(x);
                } else {
                    let (a, b) = d.split_at(x as usize);
                    d = b;
                    let t = String::from_utf8_lossy(a).into_owned();
                    hashes.push(hash_of(t.as_str()));
                    texts.push(t);
                }
            }
            r.hashes.push(hashes);
            r.texts.push(texts);
        }
    }
    r
}

/// Results of isolated calls: the insertions before them on the growing context, the call.
struct Refs
{
    ops: Vec<Op>,
    known: Mutex<HashMap<Vec<usize>, (u64, String)>>,
    ones: HashMap<usize, (u64, String)>,
}

fn ended(status: u64) -> String
{
    match status & 0x7f {
        0 => format!("the process ended with code {}", status >> 8),
        14 => format!("no result within {} s", CHILD_SECS),
        s => format!("the process ended with signal {}", s),
    }
}

impl Refs
{
    fn isolated(&self, before: &[usize], op: usize) -> Result<(u64, String), Viol>
    {
        let keep: Vec<usize> = match uses_grown(&self.ops[op]) {
            true => before.iter().copied().filter(|o| is_insert(&self.ops[*o])).collect(),
            false => vec![],
        };
        if keep.is_empty() {
            if let Some(r) = self.ones.get(&op) {
                return Ok(r.clone());
            }
        }
        let mut key = keep;
        key.push(op);
        if let Some(r) = self.known.lock().unwrap().get(&key) {
            return Ok(r.clone());
        }
        let mut c = Case::history(key.clone());
        c.brief = false;
        let r = run_case(&c);
        if r.status != 0 {
            return fail(format!("{:?} alone: {}", self.ops[op], ended(r.status)));
        }
        let r = (
            *r.hashes[0].last().unwrap(),
            r.texts[0].last().unwrap().clone(),
        );
        self.known.lock().unwrap().insert(key, r.clone());
        Ok(r)
    }

    fn hash(&self, before: &[usize], op: usize) -> Result<u64, Viol>
    {
        if !uses_grown(&self.ops[op]) || !before.iter().any(|o| is_insert(&self.ops[*o])) {
            if let Some(r) = self.ones.get(&op) {
                return Ok(r.0);
            }
        }
        Ok(self.isolated(before, op)?.0)
    }

    fn describe(&self, case: &Case) -> String
    {
        let names = |v: &Vec<usize>| {
            v.iter()
                .map(|o| format!("{:?}", self.ops[*o]))
                .collect::<Vec<_>>()
                .join(", ")
        };
        let mut s = names(&case.ops[0]);
        if case.repeat > 1 {
            s += &format!(" with all but the last repeated {} times", case.repeat);
        }
        if !case.ops[1].is_empty() {
            s += &format!(" in one thread, {} in another, ", names(&case.ops[1]));
            if case.dense {
                s += "the second one run at every point of the first";
            } else {
                s += &format!("switching at points {:?}", case.switches);
            }
            s += [" (between calls)", " (allocations)", " (instructions)"][case.kind as usize];
        }
        if case.seed != 1 {
            s += &format!(" with hash seed {}", case.seed);
        }
        s
    }

    /// Compares result i of a thread with what is expected.
    fn mismatch(&self, case: &Case, thread: usize, i: usize, before: &[usize], op: usize) -> R
    {
        let (_, want) = self.isolated(before, op)?;
        let mut c = case.clone();
        c.brief = false;
        let r = run_case(&c);
        let got = r
            .texts
            .get(thread)
            .and_then(|t| t.get(i))
            .cloned()
            .unwrap_or_else(|| ended(r.status));
        let at = got
            .bytes()
            .zip(want.bytes())
            .take_while(|(a, b)| a == b)
            .count()
            .saturating_sub(20);
        let cut = |s: &str| {
            let mut at = at.min(s.len());
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s[at..].chars().take(160).collect::<String>()
        };
        fail(format!(
            "{:?} gives another result than alone, in {}: ...{} instead of ...{}",
            self.ops[op],
            self.describe(case),
            cut(&got),
            cut(&want)
        ))
    }

    fn check_history(&self, case: &Case, st: &mut St) -> R
    {
        let r = run_case(case);
        st.traces += 1;
        st.steps += (case.ops[0].len() * case.repeat) as u64;
        if r.status != 0 {
            return fail(format!("{}: {}", self.describe(case), ended(r.status)));
        }
        for (i, op) in case.ops[0].iter().enumerate() {
            let before = &case.ops[0][..i];
            let want = self.hash(before, *op)?;
            // Repeated insertions are not modelled.
            if r.hashes[0][i] != want {
                return self.mismatch(case, 0, i, before, *op);
            }
        }
        if case.kind == BETWEEN {
            let mut same = String::new();
            let mut used = [false; CONTEXTS];
            for o in &case.ops[0] {
                match self.ops[*o] {
                    Dump(i) | Look(i) | Decode(i, ..) | Encode(i, _) | Compare(i, _) | Small(i, _) | Cut(i, ..) => {
                        used[i] = true
                    }
                    EncodeMade(_) => used[0] = true,
                    _ => {}
                }
            }
            for _ in used.iter().filter(|u| **u) {
                same += "true\n";
            }
            ensure!(
                r.hashes[1][0] == hash_of(same.as_str()),
                "a context is not equal to the context of the same text after {}",
                self.describe(case)
            );
        }
        Ok(())
    }

    fn check_threads(&self, case: &Case, st: &mut St) -> Result<Reply, Viol>
    {
        let r = run_case(case);
        st.traces += 1;
        st.steps += r.handovers + 1;
        if r.status != 0 {
            return fail(format!("{}: {}", self.describe(case), ended(r.status)));
        }
        if case.dense {
            let want = self.hash(&[], case.ops[0][0])?;
            if r.hashes[0] != [want] {
                self.mismatch(case, 0, 0, &[], case.ops[0][0])?;
            }
            let want = self.hash(&[], case.ops[1][0])?;
            for i in 0..r.hashes[1].len() {
                if r.hashes[1][i] != want {
                    self.mismatch(case, 1, i, &[], case.ops[1][0])?;
                }
            }
            return Ok(r);
        }
        for t in 0..2 {
            for (i, op) in case.ops[t].iter().enumerate() {
                let want = self.hash(&[], *op)?;
                if r.hashes[t].get(i) != Some(&want) {
                    self.mismatch(case, t, i, &[], *op)?;
                }
            }
        }
        Ok(r)
    }
}

pub fn h01(r: &mut Runner)
{
    WATCH_SECS.store(2 * CHILD_SECS, SeqCst);
    let ops = all_ops();
    let n = ops.iter().position(|o| matches!(o, Sparse(_))).unwrap_or(0);
    let refs = r.setup("references", || {
        let mut refs = Refs {
            ops: all_ops(),
            known: Mutex::new(HashMap::new()),
            ones: HashMap::new(),
        };
        for op in 0..n {
            let x = refs.isolated(&[], op)?;
            if std::env::var_os("MC_SHOW").is_some() {
                eprintln!("{} {:?}: {}", op, refs.ops[op], x.1.chars().take(300).collect::<String>());
            }
            let equal = match refs.ops[op] {
                Compare(i, j) => i == j,
                Again(..) => true,
                _ => false,
            };
            ensure!(
                !equal || x.1.trim() == "true",
                "{:?}: the contexts of the same files are not equal",
                refs.ops[op]
            );
            refs.ones.insert(op, x);
        }
        Ok(refs)
    });
    let refs = match refs {
        Some(refs) => refs,
        None => return,
    };
    let refs = &refs;
    let mut reads: Vec<usize> = (0..n).filter(|o| !uses_grown(&ops[*o])).collect();
    let cores: Vec<usize> = (0..n).filter(|o| core(&ops[*o])).collect();

    // The environment: what the hash tables are seeded with.
    let seeds = r.by(64, 2000);
    r.space(
        "hash-seeds",
        0,
        &format!("every operation alone under {} seeds of the hash tables", seeds),
        |ch, st| {
            let op = ch.pick(n);
            let mut c = Case::history(vec![op]);
            c.seed = 2 + ch.pick(seeds) as u64;
            st.state(&op);
            st.outcome("seed");
            refs.check_history(&c, st)
        },
    );

    let history = |name: &str, r: &mut Runner, list: &[usize], depth: usize| {
        r.space(
            name,
            0,
            &format!("all histories of {} calls out of {}, each in a new process", depth, list.len()),
            |ch, st| {
                let h: Vec<usize> = (0..depth).map(|_| *ch.of(list)).collect();
                for k in 1..=h.len() {
                    st.state(&h[..k]);
                    st.edges.insert(hash_of(&(&h[..k - 1], h[k - 1])));
                }
                let c = Case::history(h);
                st.sample(|| refs.describe(&c));
                st.outcome("history");
                refs.check_history(&c, st)
            },
        );
    };
    let all: Vec<usize> = (0..n).collect();
    history("pairs", r, &all, 2);
    history("histories-3", r, &cores, 3);
    if r.thorough() {
        history("triples", r, &all, 3);
        history("histories-4", r, &cores, 4);
    }

    // What is left behind by calls that come to an early end.
    let pickall = |f: fn(&Op) -> bool| -> Vec<usize> { (0..ops.len()).filter(|o| f(&ops[*o])).collect() };
    let after = |name: &str, r: &mut Runner, what: &str, first: Vec<usize>, second: Vec<usize>| {
        r.space(name, 0, what, |ch, st| {
            let h = vec![*ch.of(&first), *ch.of(&second)];
            st.state(&h);
            st.edges.insert(hash_of(&h));
            let c = Case::history(h);
            st.sample(|| refs.describe(&c));
            st.outcome("history");
            refs.check_history(&c, st)
        })
    };
    let sparse = pickall(|o| matches!(o, Sparse(_)));
    let small_decodes = pickall(|o| matches!(o, Small(..)));
    let brokens = pickall(|o| matches!(o, Broken(..)));
    let cuts = pickall(|o| matches!(o, Cut(..)));
    after(
        "after-refusals",
        r,
        &format!("parsing two files with one of {} damages at every token, then one of {} texts that leave most things out", brokens.len(), sparse.len()),
        brokens,
        sparse.clone(),
    );
    after(
        "after-cuts",
        r,
        &format!("decoding one of {} payloads that are cut short, then one of {} small ones", cuts.len(), small_decodes.len()),
        cuts,
        small_decodes.clone(),
    );
    let mixed: Vec<usize> = (0..n).chain(sparse.iter().copied()).chain(small_decodes.iter().copied()).collect();
    let ends: Vec<usize> = sparse.into_iter().chain(small_decodes).collect();
    after(
        "after-anything",
        r,
        &format!("each of {} operations, then each of {} small ones", mixed.len(), ends.len()),
        mixed,
        ends,
    );

    // What accumulates.
    let counts: Vec<usize> = r.by(vec![40, 300], vec![40, 130, 300, 1100, 5000]);
    r.space(
        "repetitions",
        0,
        &format!("one call repeated {:?} times, then another one", counts),
        |ch, st| {
            let a = *ch.of(&reads);
            let b = *ch.of(&reads);
            let mut c = Case::history(vec![a, b]);
            c.repeat = *ch.of(&counts);
            st.state(&(a, b, c.repeat));
            st.outcome("repetition");
            refs.check_history(&c, st)
        },
    );

    // Threads. What is placed serves one thread.
    reads.retain(|o| !matches!(ops[*o], Placed(..)));
    let small: Vec<usize> = reads.iter().copied().filter(|o| core(&ops[*o])).collect();
    let pickout = |f: fn(&Op) -> bool| -> Vec<usize> { (0..n).filter(|o| f(&ops[*o])).collect() };
    let few = pickout(|o| {
        matches!(
            o,
            Parse(1) | Dump(0) | Decode(0, 0, 0) | Decode(1, 0, 0) | Decode(0, 0, 4) | Encode(0, 0)
        )
    });
    if r.thorough() {
        calls_space(r, refs, "schedules-calls-2+1", &reads, [2, 1]);
        calls_space(r, refs, "schedules-calls-2+2", &small, [2, 2]);
        calls_space(r, refs, "schedules-calls-3+3", &few, [3, 3]);
    } else {
        calls_space(r, refs, "schedules-calls-2+1", &small, [2, 1]);
        calls_space(r, refs, "schedules-calls-2+2", &few, [2, 2]);
    }

    let first = if r.thorough() { &reads } else { &small };
    points_space(r, refs, "schedules-allocations-1", first, &small, ALLOC, 1);
    let tiny = match r.tier {
        Tier::Quick => pickout(|o| matches!(o, Decode(0, 0, 0) | Decode(1, 0, 0) | Encode(0, 0) | EncodeMade(1))),
        Tier::Thorough => pickout(|o| {
            matches!(
                o,
                Look(0) | Decode(0, 0, 0) | Decode(0, 0, 1) | Decode(1, 0, 0) | Encode(0, 0)
                    | EncodeMade(1) | Parse(3)
            )
        }),
    };
    points_space(r, refs, "schedules-allocations-2", &tiny, &tiny, ALLOC, 2);
    let second = pickout(|o| {
        matches!(
            o,
            Look(0) | Decode(0, 0, 0) | Decode(1, 0, 0) | Decode(0, 0, 1) | Encode(1, 0) | Parse(3)
        )
    });
    dense_space(r, refs, "schedules-allocations-all", &reads, &second, ALLOC);

    let (stepped, second) = match r.tier {
        Tier::Quick => (
            pickout(|o| matches!(o, Look(0) | Decode(0, 0, 0) | Decode(0, 0, 2) | Encode(0, 1) | EncodeMade(1))),
            pickout(|o| matches!(o, Decode(1, 0, 0) | Encode(1, 0))),
        ),
        Tier::Thorough => (
            pickout(|o| match o {
                Decode(i, m, p) => *i < 2 && *m == 0 && *p < 5,
                Encode(i, _) => *i < 2,
                EncodeMade(_) | Look(_) => true,
                Parse(i) => matches!(i, 3 | 4),
                _ => false,
            }),
            pickout(|o| matches!(o, Decode(1, 0, 0) | Encode(1, 0) | Parse(3))),
        ),
    };
    dense_space(r, refs, "schedules-instructions-all", &stepped, &second, STEP);
    let tiny = match r.tier {
        Tier::Quick => pickout(|o| matches!(o, Decode(1, 0, 3))),
        Tier::Thorough => pickout(|o| matches!(o, Look(0) | Decode(0, 0, 0) | Decode(1, 0, 3) | EncodeMade(1))),
    };
    points_space(r, refs, "schedules-instructions-1", &tiny, &tiny, STEP, 1);
}

/// All ways to interleave the calls of two threads.
fn calls_space(r: &mut Runner, refs: &Refs, name: &str, list: &[usize], lens: [usize; 2])
{
    r.space(
        name,
        0,
        &format!(
            "two threads of {} and {} calls out of {}, all interleavings of the calls",
            lens[0],
            lens[1],
            list.len()
        ),
        |ch, st| {
            let a: Vec<usize> = (0..lens[0]).map(|_| *ch.of(list)).collect();
            let b: Vec<usize> = (0..lens[1]).map(|_| *ch.of(list)).collect();
            // Which thread makes the next call. The first call is the first thread's.
            let mut left = [lens[0] - 1, lens[1]];
            let mut turn = 0;
            let mut passed = [1u64, 0];
            let mut switches = [vec![], vec![]];
            while left[0] > 0 && left[1] > 0 {
                if ch.flag() {
                    switches[turn].push(passed[turn] - 1);
                    turn = 1 - turn;
                }
                left[turn] -= 1;
                passed[turn] += 1;
            }
            st.state(&(&a, &b, &switches));
            let mut c = Case::history(a);
            c.ops[1] = b;
            c.switches = switches;
            st.sample(|| refs.describe(&c));
            st.outcome("schedule");
            refs.check_threads(&c, st).map(|_| ())
        },
    );
}

/// Preemptions at points within the calls: one call per thread.
fn points_space(
    r: &mut Runner,
    refs: &Refs,
    name: &str,
    first: &[usize],
    second: &[usize],
    kind: u8,
    bound: usize,
)
{
    let counts = r.setup(name, || {
        let mut counts = HashMap::new();
        for op in first.iter().chain(second) {
            let mut c = Case::history(vec![*op]);
            c.kind = kind;
            let x = run_case(&c);
            ensure!(x.status == 0, "{:?}: {}", refs.ops[*op], ended(x.status));
            counts.insert(*op, x.points[0]);
        }
        if std::env::var_os("MC_SHOW").is_some() {
            for (op, n) in &counts {
                eprintln!("{} {:?}: {} points", op, refs.ops[*op], n);
            }
        }
        Ok(counts)
    });
    let counts = match counts {
        Some(c) => c,
        None => return,
    };
    let total: u64 = first.iter().map(|o| counts[o]).sum();
    let what = ["", "call of the allocator", "instruction"][kind as usize];
    r.space(
        name,
        0,
        &format!(
            "one call per thread, {} x {} operations, up to {} preemptions, each before every {} ({} of them in the first threads)",
            first.len(), second.len(), bound, what, total
        ),
        |ch, st| {
            let a = *ch.of(first);
            let b = *ch.of(second);
            let mut c = Case::history(vec![a]);
            c.kind = kind;
            c.ops[1] = vec![b];
            if counts[&a] == 0 {
                return Ok(());
            }
            c.switches[0].push(ch.pick(counts[&a] as usize) as u64);
            if bound > 1 && counts[&b] > 0 {
                c.switches[1].push(ch.pick(counts[&b] as usize) as u64);
            }
            st.state(&(a, b, &c.switches));
            st.sample(|| refs.describe(&c));
            let x = refs.check_threads(&c, st)?;
            st.outcome(match x.handovers {
                0 => "not preempted",
                _ => "preempted",
            });
            Ok(())
        },
    );
}

/// The second thread runs its call at every point of the call of the first thread.
fn dense_space(r: &mut Runner, refs: &Refs, name: &str, list: &[usize], second: &[usize], kind: u8)
{
    let what = ["", "call of the allocator", "instruction"][kind as usize];
    r.space(
        name,
        0,
        &format!(
            "{} x {} operations, the second one run by another thread before every {} of the first one",
            list.len(), second.len(), what
        ),
        |ch, st| {
            let a = *ch.of(list);
            let b = *ch.of(second);
            let mut c = Case::history(vec![a]);
            c.kind = kind;
            c.dense = true;
            c.ops[1] = vec![b];
            st.state(&(a, b));
            st.sample(|| refs.describe(&c));
            let x = refs.check_threads(&c, st)?;
            st.steps += x.points[0];
            st.outcome(match x.handovers {
                0 => "not preempted",
                _ => "preempted",
            });
            Ok(())
        },
    );
}
