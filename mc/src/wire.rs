//! Reference decoder and encoder of the wire format.

use crate::engine::*;
use crate::model::*;
use bytes::Bytes as Buf;
use protofish::decode::*;

// ---------------------------------------------------------------------------------------------
// Writing

pub fn put_varint(out: &mut Vec<u8>, mut v: u128)
{
    while v >= 128 {
        out.push((v % 128) as u8 + 128);
        v /= 128;
    }
    out.push(v as u8);
}

pub fn varint(v: u128) -> Vec<u8>
{
    let mut o = vec![];
    put_varint(&mut o, v);
    o
}

/// The varint padded to the given number of bytes.
pub fn varint_padded(v: u128, len: usize) -> Vec<u8>
{
    let mut o = varint(v);
    while o.len() < len {
        let last = o.len() - 1;
        o[last] |= 0x80;
        o.push(0);
    }
    o
}

pub fn tag(num: u64, wt: u8) -> Vec<u8>
{
    varint(num as u128 * 8 + wt as u128)
}

pub fn ld(data: &[u8]) -> Vec<u8>
{
    let mut o = varint(data.len() as u128);
    o.extend_from_slice(data);
    o
}

pub fn rec(num: u64, wt: u8, payload: &[u8]) -> Vec<u8>
{
    let mut o = tag(num, wt);
    o.extend_from_slice(payload);
    o
}

pub fn rec_ld(num: u64, data: &[u8]) -> Vec<u8>
{
    rec(num, 2, &ld(data))
}

// ---------------------------------------------------------------------------------------------
// Reference encoder

fn zz32(v: i32) -> u128
{
    // 0, -1, 1, -2, ... are 0, 1, 2, 3, ...
    let v = v as i128;
    (if v < 0 { -2 * v - 1 } else { 2 * v }) as u128
}

fn zz64(v: i64) -> u128
{
    let v = v as i128;
    (if v < 0 { -2 * v - 1 } else { 2 * v }) as u128
}

/// Sign extended to 64 bits.
fn signed(v: i64) -> u128
{
    (if v < 0 {
        v as i128 + (1i128 << 64)
    } else {
        v as i128
    }) as u128
}

pub fn enc_msg(m: &MessageValue) -> Vec<u8>
{
    let mut o = vec![];
    for f in &m.fields {
        let (wt, bytes) = enc_value(&f.value);
        put_varint(&mut o, f.number as u128 * 8 + wt as u128);
        o.extend_from_slice(&bytes);
    }
    if let Some(g) = &m.garbage {
        o.extend_from_slice(g);
    }
    o
}

pub fn enc_value(v: &Value) -> (u8, Vec<u8>)
{
    match v {
        Value::Double(x) => (1, x.to_bits().to_le_bytes().to_vec()),
        Value::Float(x) => (5, x.to_bits().to_le_bytes().to_vec()),
        Value::Int32(x) => (0, varint(signed(*x as i64))),
        Value::Int64(x) => (0, varint(signed(*x))),
        Value::UInt32(x) => (0, varint(*x as u128)),
        Value::UInt64(x) => (0, varint(*x as u128)),
        Value::SInt32(x) => (0, varint(zz32(*x))),
        Value::SInt64(x) => (0, varint(zz64(*x))),
        Value::Fixed32(x) => (5, x.to_le_bytes().to_vec()),
        Value::Fixed64(x) => (1, x.to_le_bytes().to_vec()),
        Value::SFixed32(x) => (5, x.to_le_bytes().to_vec()),
        Value::SFixed64(x) => (1, x.to_le_bytes().to_vec()),
        Value::Bool(x) => (0, vec![if *x { 1 } else { 0 }]),
        Value::String(s) => (2, ld(s.as_bytes())),
        Value::Bytes(b) => (2, ld(b)),
        Value::Enum(e) => (0, varint(signed(e.value))),
        Value::Message(m) => (2, ld(&enc_msg(m))),
        Value::Packed(p) => (2, ld(&enc_packed(p))),
        Value::Incomplete(wt, b) => (*wt, b.to_vec()),
        Value::Unknown(u) => match u {
            UnknownValue::Varint(x) => (0, varint(*x)),
            UnknownValue::Fixed64(x) => (1, x.to_le_bytes().to_vec()),
            UnknownValue::VariableLength(b) => (2, ld(b)),
            UnknownValue::Fixed32(x) => (5, x.to_le_bytes().to_vec()),
            UnknownValue::Invalid(wt, b) => (*wt, b.to_vec()),
        },
    }
}

pub fn packed_values(p: &PackedArray) -> Vec<Value>
{
    match p {
        PackedArray::Double(v) => v.iter().map(|x| Value::Double(*x)).collect(),
        PackedArray::Float(v) => v.iter().map(|x| Value::Float(*x)).collect(),
        PackedArray::Int32(v) => v.iter().map(|x| Value::Int32(*x)).collect(),
        PackedArray::Int64(v) => v.iter().map(|x| Value::Int64(*x)).collect(),
        PackedArray::UInt32(v) => v.iter().map(|x| Value::UInt32(*x)).collect(),
        PackedArray::UInt64(v) => v.iter().map(|x| Value::UInt64(*x)).collect(),
        PackedArray::SInt32(v) => v.iter().map(|x| Value::SInt32(*x)).collect(),
        PackedArray::SInt64(v) => v.iter().map(|x| Value::SInt64(*x)).collect(),
        PackedArray::Fixed32(v) => v.iter().map(|x| Value::Fixed32(*x)).collect(),
        PackedArray::Fixed64(v) => v.iter().map(|x| Value::Fixed64(*x)).collect(),
        PackedArray::SFixed32(v) => v.iter().map(|x| Value::SFixed32(*x)).collect(),
        PackedArray::SFixed64(v) => v.iter().map(|x| Value::SFixed64(*x)).collect(),
        PackedArray::Bool(v) => v.iter().map(|x| Value::Bool(*x)).collect(),
    }
}

fn enc_packed(p: &PackedArray) -> Vec<u8>
{
    packed_values(p)
        .iter()
        .flat_map(|v| enc_value(v).1)
        .collect()
}

/// Makes a packed array out of scalars of one kind.
pub fn pack(kind: Kind, values: &[Value]) -> PackedArray
{
    macro_rules! arr {
        ($v:ident) => {
            PackedArray::$v(
                values
                    .iter()
                    .map(|v| match v {
                        Value::$v(x) => *x,
                        _ => unreachable!(),
                    })
                    .collect(),
            )
        };
    }
    match kind {
        Kind::Double => arr!(Double),
        Kind::Float => arr!(Float),
        Kind::Int32 => arr!(Int32),
        Kind::Int64 => arr!(Int64),
        Kind::UInt32 => arr!(UInt32),
        Kind::UInt64 => arr!(UInt64),
        Kind::SInt32 => arr!(SInt32),
        Kind::SInt64 => arr!(SInt64),
        Kind::Fixed32 => arr!(Fixed32),
        Kind::Fixed64 => arr!(Fixed64),
        Kind::SFixed32 => arr!(SFixed32),
        Kind::SFixed64 => arr!(SFixed64),
        Kind::Bool => arr!(Bool),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------------------------------
// Reference decoder

/// What happened to a record.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Ev
{
    Typed,
    Packed,
    Unknown,
    Invalid,
    ShortVarint,
    LongVarint,
    ShortFixed,
    ShortData,
    BadLength,
    BadPacked,
    GarbageShort,
    GarbageLong,
    End,
}

impl Ev
{
    pub fn name(self) -> &'static str
    {
        match self {
            Ev::Typed => "typed value",
            Ev::Packed => "packed array",
            Ev::Unknown => "unknown value",
            Ev::Invalid => "invalid wire type",
            Ev::ShortVarint => "varint cut short",
            Ev::LongVarint => "over-long varint",
            Ev::ShortFixed => "fixed-width value cut short",
            Ev::ShortData => "length beyond the data",
            Ev::BadLength => "unreadable length",
            Ev::BadPacked => "undecodable packed array",
            Ev::GarbageShort => "tag cut short",
            Ev::GarbageLong => "over-long tag",
            Ev::End => "end",
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Span
{
    pub start: usize,
    pub value: usize,
    pub end: usize,
    pub ev: Ev,
}

pub struct Dec<'c>
{
    pub c: &'c Compiled,
    /// Everything so far is encoded canonically.
    pub canon: bool,
    /// Everything so far is well formed.
    pub well: bool,
    /// Records of the outermost message.
    pub spans: Vec<Span>,
    pub steps: u64,
    pub max_depth: usize,
    /// Abstract states in order of occurrence.
    pub visited: Vec<u64>,
}

fn read_varint(d: &[u8]) -> Result<(u128, usize), Ev>
{
    let mut v: u128 = 0;
    let mut scale: u128 = 1;
    for i in 0..10 {
        match d.get(i) {
            None => return Err(Ev::ShortVarint),
            Some(b) => {
                v += (*b as u128 % 128) * scale;
                scale *= 128;
                if *b < 128 {
                    return Ok((v, i + 1));
                }
            }
        }
    }
    Err(Ev::LongVarint)
}

fn minimal(v: u128, len: usize) -> bool
{
    let bits = 128 - v.leading_zeros() as usize;
    len == ((bits + 6) / 7).max(1)
}

/// Documented limit on embedded messages: those nested deeper are not decoded.
pub const MAX_LEVELS: usize = 100;

const M32: u128 = 1 << 32;
const M64: u128 = 1 << 64;

fn low64s(v: u128) -> i64
{
    (v % M64) as u64 as i64
}
fn low32s(v: u128) -> i32
{
    (v % M32) as u32 as i32
}
fn unzz(v: u128) -> i128
{
    if v % 2 == 0 {
        (v / 2) as i128
    } else {
        -((v / 2) as i128) - 1
    }
}

impl<'c> Dec<'c>
{
    pub fn new(c: &'c Compiled) -> Self
    {
        Dec {
            c,
            canon: true,
            well: true,
            spans: vec![],
            steps: 0,
            max_depth: 0,
            visited: vec![],
        }
    }

    pub fn decode(&mut self, mi: usize, d: &[u8]) -> MessageValue
    {
        self.message(mi, d, 0)
    }

    /// Decodes a message that is embedded at some depth.
    pub fn decode_at(&mut self, mi: usize, d: &[u8], depth: usize) -> MessageValue
    {
        self.message(mi, d, depth)
    }

    fn mark(&mut self, mi: usize, field: usize, wt: u8, ev: Ev, depth: usize)
    {
        self.steps += 1;
        self.visited.push(
            (mi as u64) << 32
                | (field.min(0xffff) as u64) << 16
                | (wt as u64) << 12
                | (ev as u64) << 4
                | depth.min(8) as u64,
        );
    }

    fn message(&mut self, mi: usize, d: &[u8], depth: usize) -> MessageValue
    {
        self.max_depth = self.max_depth.max(depth);
        let mut m = MessageValue {
            msg_ref: self.c.mrefs[mi],
            fields: vec![],
            garbage: None,
        };
        let mut pos = 0;
        while pos < d.len() {
            let start = pos;
            let t = match read_varint(&d[pos..]) {
                Ok((t, n)) if t < M64 => {
                    if !minimal(t, n) {
                        self.canon = false;
                    }
                    pos += n;
                    t as u64
                }
                other => {
                    let ev = match other {
                        Err(Ev::ShortVarint) => Ev::GarbageShort,
                        _ => Ev::GarbageLong,
                    };
                    self.well = false;
                    self.mark(mi, 0xffff, 0, ev, depth);
                    m.garbage = Some(Buf::copy_from_slice(&d[start..]));
                    if depth == 0 {
                        self.spans.push(Span {
                            start,
                            value: start,
                            end: d.len(),
                            ev,
                        });
                    }
                    return m;
                }
            };
            let (num, wt) = (t / 8, (t % 8) as u8);
            let rest = &d[pos..];
            let (fi, v) = match self.c.field(mi, num) {
                Some((fi, f)) => {
                    let f = f.clone();
                    let v = if f.kind.wire() == wt {
                        self.typed(f.kind, rest, depth)
                    } else if wt == 2 && f.repeated() && f.kind.packable() {
                        self.packed(f.kind, rest)
                    } else {
                        self.unknown(wt, rest)
                    };
                    (fi, v)
                }
                None => (0xfffe, self.unknown(wt, rest)),
            };
            let (value, used, ev) = match v {
                Ok(v) => v,
                Err(ev) => {
                    self.well = false;
                    let b = Buf::copy_from_slice(rest);
                    (Value::Incomplete(wt, b), rest.len(), ev)
                }
            };
            self.mark(mi, fi, wt, ev, depth);
            pos += used;
            if depth == 0 {
                self.spans.push(Span {
                    start,
                    value: start + (d[start..].len() - rest.len()),
                    end: pos,
                    ev,
                });
            }
            m.fields.push(FieldValue { number: num, value });
        }
        self.mark(mi, 0xffff, 0, Ev::End, depth);
        m
    }

    fn vint(&mut self, d: &[u8]) -> Result<(u128, usize), Ev>
    {
        let (v, n) = read_varint(d)?;
        if !minimal(v, n) {
            self.canon = false;
        }
        if v >= M64 {
            self.well = false;
        }
        Ok((v, n))
    }

    /// Length and data of a length-delimited value.
    fn data<'d>(&mut self, d: &'d [u8]) -> Result<(&'d [u8], usize), Ev>
    {
        let (len, n) = match read_varint(d) {
            Ok(x) => x,
            Err(_) => return Err(Ev::BadLength),
        };
        if len > (d.len() - n) as u128 {
            return Err(Ev::ShortData);
        }
        if !minimal(len, n) {
            self.canon = false;
        }
        let len = len as usize;
        Ok((&d[n..n + len], n + len))
    }

    /// A scalar number.
    fn number(&mut self, kind: Kind, d: &[u8]) -> Result<(Value, usize), Ev>
    {
        if kind.wire() == 0 {
            let (v, n) = self.vint(d)?;
            let (value, back) = match kind {
                Kind::Int32 => {
                    let x = low32s(v);
                    (Value::Int32(x), signed(x as i64))
                }
                Kind::Int64 => {
                    let x = low64s(v);
                    (Value::Int64(x), signed(x))
                }
                Kind::UInt32 => (Value::UInt32((v % M32) as u32), v % M32),
                Kind::UInt64 => (Value::UInt64((v % M64) as u64), v % M64),
                Kind::SInt32 => (Value::SInt32(unzz(v % M32) as i32), v % M32),
                Kind::SInt64 => (Value::SInt64(unzz(v % M64) as i64), v % M64),
                Kind::Bool => {
                    let b = v % M64 != 0;
                    (Value::Bool(b), b as u128)
                }
                Kind::Enum(e) => {
                    let x = low64s(v);
                    (
                        Value::Enum(EnumValue {
                            enum_ref: self.c.erefs[e],
                            value: x,
                        }),
                        signed(x),
                    )
                }
                _ => unreachable!(),
            };
            if back != v {
                self.canon = false;
            }
            return Ok((value, n));
        }
        let n = if kind.wire() == 1 { 8 } else { 4 };
        if d.len() < n {
            return Err(Ev::ShortFixed);
        }
        let mut x: u64 = 0;
        for i in (0..n).rev() {
            x = x * 256 + d[i] as u64;
        }
        let value = match kind {
            Kind::Double => Value::Double(f64::from_bits(x)),
            Kind::Float => Value::Float(f32::from_bits(x as u32)),
            Kind::Fixed32 => Value::Fixed32(x as u32),
            Kind::Fixed64 => Value::Fixed64(x),
            Kind::SFixed32 => Value::SFixed32(x as u32 as i32),
            Kind::SFixed64 => Value::SFixed64(x as i64),
            _ => unreachable!(),
        };
        Ok((value, n))
    }

    fn typed(&mut self, kind: Kind, d: &[u8], depth: usize) -> Result<(Value, usize, Ev), Ev>
    {
        if kind.wire() != 2 {
            let (v, n) = self.number(kind, d)?;
            return Ok((v, n, Ev::Typed));
        }
        let (data, n) = self.data(d)?;
        let v = match kind {
            Kind::Bytes => Value::Bytes(Buf::copy_from_slice(data)),
            Kind::Str => Value::String(match std::str::from_utf8(data) {
                Ok(s) => s.to_string(),
                Err(_) => {
                    self.canon = false;
                    String::from_utf8_lossy(data).into_owned()
                }
            }),
            // Not decoded, says the documentation of decode.
            Kind::Msg(_) if depth >= MAX_LEVELS => {
                Value::Unknown(UnknownValue::VariableLength(Buf::copy_from_slice(data)))
            }
            Kind::Msg(m) => Value::Message(Box::new(self.message(m, data, depth + 1))),
            _ => unreachable!(),
        };
        Ok((v, n, Ev::Typed))
    }

    fn packed(&mut self, kind: Kind, d: &[u8]) -> Result<(Value, usize, Ev), Ev>
    {
        let canon = self.canon;
        let (mut data, n) = self.data(d)?;
        let mut values = vec![];
        while !data.is_empty() {
            match self.number(kind, data) {
                Ok((v, k)) => {
                    values.push(v);
                    data = &data[k..];
                }
                Err(_) => {
                    // The whole record, and only that, is undecodable.
                    self.canon = canon;
                    self.well = false;
                    let b = Buf::copy_from_slice(&d[..n]);
                    return Ok((Value::Incomplete(2, b), n, Ev::BadPacked));
                }
            }
        }
        Ok((Value::Packed(pack(kind, &values)), n, Ev::Packed))
    }

    fn unknown(&mut self, wt: u8, d: &[u8]) -> Result<(Value, usize, Ev), Ev>
    {
        let (u, n) = match wt {
            0 => {
                let (v, n) = self.vint(d)?;
                (UnknownValue::Varint(v), n)
            }
            1 => match self.number(Kind::Fixed64, d)? {
                (Value::Fixed64(v), n) => (UnknownValue::Fixed64(v), n),
                _ => unreachable!(),
            },
            2 => {
                let (data, n) = self.data(d)?;
                (UnknownValue::VariableLength(Buf::copy_from_slice(data)), n)
            }
            5 => match self.number(Kind::Fixed32, d)? {
                (Value::Fixed32(v), n) => (UnknownValue::Fixed32(v), n),
                _ => unreachable!(),
            },
            _ => {
                self.well = false;
                let u = UnknownValue::Invalid(wt, Buf::copy_from_slice(d));
                return Ok((Value::Unknown(u), d.len(), Ev::Invalid));
            }
        };
        Ok((Value::Unknown(u), n, Ev::Unknown))
    }

    /// Adds the visited states to the statistics.
    pub fn flush(&mut self, st: &mut St)
    {
        st.steps += self.steps;
        let mut prev = 0u64;
        for v in self.visited.drain(..) {
            if prev != v {
                st.states.insert(v);
                st.edges
                    .insert(prev.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ v);
            }
            prev = v;
        }
        self.steps = 0;
    }
}

// ---------------------------------------------------------------------------------------------
// Comparison. Floats are compared by their bits.

pub fn same_msg(a: &MessageValue, b: &MessageValue) -> bool
{
    a.msg_ref == b.msg_ref
        && a.garbage == b.garbage
        && a.fields.len() == b.fields.len()
        && a.fields
            .iter()
            .zip(&b.fields)
            .all(|(x, y)| x.number == y.number && same_value(&x.value, &y.value))
}

pub fn same_fields(a: &[FieldValue], b: &[FieldValue]) -> bool
{
    a.len() == b.len()
        && a.iter()
            .zip(b)
            .all(|(x, y)| x.number == y.number && same_value(&x.value, &y.value))
}

pub fn same_value(a: &Value, b: &Value) -> bool
{
    match (a, b) {
        (Value::Double(x), Value::Double(y)) => x.to_bits() == y.to_bits(),
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Message(x), Value::Message(y)) => same_msg(x, y),
        (Value::Packed(PackedArray::Double(x)), Value::Packed(PackedArray::Double(y))) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.to_bits() == y.to_bits())
        }
        (Value::Packed(PackedArray::Float(x)), Value::Packed(PackedArray::Float(y))) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.to_bits() == y.to_bits())
        }
        (x, y) => x == y,
    }
}

pub fn hex(b: &[u8]) -> String
{
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 200 {
            s += &format!("... ({} bytes)", b.len());
            break;
        }
        s += &format!("{:02x}", x);
    }
    if b.is_empty() {
        s.push_str("(empty)");
    }
    s
}

pub fn short(m: &impl std::fmt::Debug) -> String
{
    let mut s = format!("{:?}", m);
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s += "...";
    }
    s
}
