//! How things travel: the library's serialization impls behind the supported formats, and a small
//! self-describing format of our own (fields and variants by name) for serde.
use mirror_mirror::key_path::{Key, KeyPath};
use mirror_mirror::{ScalarOwned, TypeDescriptor, Value};
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use speedy::{Endianness, Readable, Writable};
use std::fmt;
use std::io::{Read, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Codec {
    SpeedyLe,
    SpeedyBe,
    Bincode,
    BincodeVar,
    Tree,
}
pub const CODECS: [Codec; 5] = [
    Codec::SpeedyLe,
    Codec::Bincode,
    Codec::Tree,
    Codec::SpeedyBe,
    Codec::BincodeVar,
];

pub trait Thing:
    Sized + Clone + fmt::Debug + serde::Serialize + serde::de::DeserializeOwned
{
    fn speedy_write<W: Write>(&self, e: Endianness, w: W) -> Result<(), String>;
    fn speedy_vec(&self, e: Endianness) -> Result<Vec<u8>, String>;
    fn speedy_stream<R: Read>(e: Endianness, r: R, buffered: bool) -> Result<Self, String>;
    fn speedy_buf(e: Endianness, b: &[u8]) -> Result<(Self, usize), String>;
}
macro_rules! thing {
    ($($t:ty),*) => {$(
        impl Thing for $t {
            fn speedy_write<W: Write>(&self, e: Endianness, w: W) -> Result<(), String> {
                self.write_to_stream_with_ctx(e, w).map_err(|e| e.to_string())
            }
            fn speedy_vec(&self, e: Endianness) -> Result<Vec<u8>, String> {
                self.write_to_vec_with_ctx(e).map_err(|e| e.to_string())
            }
            fn speedy_stream<R: Read>(e: Endianness, r: R, buffered: bool) -> Result<Self, String> {
                if buffered {
                    <$t>::read_from_stream_buffered_with_ctx(e, r).map_err(|e| e.to_string())
                } else {
                    <$t>::read_from_stream_unbuffered_with_ctx(e, r).map_err(|e| e.to_string())
                }
            }
            fn speedy_buf(e: Endianness, b: &[u8]) -> Result<(Self, usize), String> {
                let (r, n) = <$t>::read_with_length_from_buffer_with_ctx(e, b);
                r.map(|v| (v, n)).map_err(|e| e.to_string())
            }
        }
    )*};
}
thing!(Value, KeyPath, Key, ScalarOwned, TypeDescriptor);

fn endian(c: Codec) -> Endianness {
    if c == Codec::SpeedyBe {
        Endianness::BigEndian
    } else {
        Endianness::LittleEndian
    }
}
fn var() -> impl bincode::Options {
    use bincode::Options;
    bincode::DefaultOptions::new().allow_trailing_bytes()
}

/// Writes to a stream; an error if the stream reports one.
pub fn write<T: Thing, W: Write>(c: Codec, v: &T, mut w: W) -> Result<(), String> {
    use bincode::Options;
    match c {
        Codec::SpeedyLe | Codec::SpeedyBe => v.speedy_write(endian(c), w),
        Codec::Bincode => bincode::serialize_into(w, v).map_err(|e| e.to_string()),
        Codec::BincodeVar => var().serialize_into(w, v).map_err(|e| e.to_string()),
        Codec::Tree => {
            let n = to_tree(v)?;
            let mut b = vec![];
            n.put(&mut b);
            w.write_all(&(b.len() as u32).to_le_bytes())
                .map_err(|e| e.to_string())?;
            w.write_all(&b).map_err(|e| e.to_string())
        }
    }
}
pub fn to_vec<T: Thing>(c: Codec, v: &T) -> Result<Vec<u8>, String> {
    use bincode::Options;
    match c {
        Codec::SpeedyLe | Codec::SpeedyBe => v.speedy_vec(endian(c)),
        Codec::Bincode => bincode::serialize(v).map_err(|e| e.to_string()),
        Codec::BincodeVar => var().serialize(v).map_err(|e| e.to_string()),
        Codec::Tree => {
            let mut b = vec![];
            write(c, v, &mut b)?;
            Ok(b)
        }
    }
}
/// Reads one thing from a stream, taking no more bytes than it needs.
pub fn read<T: Thing, R: Read>(c: Codec, mut r: R) -> Result<T, String> {
    use bincode::Options;
    match c {
        Codec::SpeedyLe | Codec::SpeedyBe => T::speedy_stream(endian(c), r, false),
        Codec::Bincode => bincode::deserialize_from(r).map_err(|e| e.to_string()),
        Codec::BincodeVar => var().deserialize_from(r).map_err(|e| e.to_string()),
        Codec::Tree => {
            let mut l = [0; 4];
            r.read_exact(&mut l).map_err(|e| e.to_string())?;
            let mut b = vec![];
            r.take(u32::from_le_bytes(l) as u64)
                .read_to_end(&mut b)
                .map_err(|e| e.to_string())?;
            if b.len() != u32::from_le_bytes(l) as usize {
                return Err("end of stream".into());
            }
            from_tree(Node::take_all(&b)?)
        }
    }
}
/// Reads one thing from the start of a buffer.
pub fn from_buf<T: Thing>(c: Codec, b: &[u8]) -> Result<(T, usize), String> {
    use bincode::Options;
    match c {
        Codec::SpeedyLe | Codec::SpeedyBe => T::speedy_buf(endian(c), b),
        Codec::Bincode => {
            let mut r = b;
            let limit = b.len() as u64;
            // a limit keeps bincode from trusting lengths, as its documentation advises
            let v = bincode::DefaultOptions::new()
                .with_fixint_encoding()
                .allow_trailing_bytes()
                .with_limit(limit)
                .deserialize_from(&mut r)
                .map_err(|e| e.to_string())?;
            Ok((v, b.len() - r.len()))
        }
        Codec::BincodeVar => {
            let mut r = b;
            let v = var()
                .with_limit(b.len() as u64)
                .deserialize_from(&mut r)
                .map_err(|e| e.to_string())?;
            Ok((v, b.len() - r.len()))
        }
        Codec::Tree => {
            let mut r = b;
            let v = read(c, &mut r)?;
            Ok((v, b.len() - r.len()))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the self-describing format

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Unit,
    Bool(bool),
    Char(char),
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Node>),
    Seq(Vec<Node>),
    Map(Vec<(Node, Node)>),
    Struct(Vec<(String, Node)>),
    Variant(String, Box<Node>),
}

#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

pub fn to_tree<T: Serialize + ?Sized>(v: &T) -> Result<Node, String> {
    v.serialize(Ser).map_err(|e| e.0)
}
pub fn from_tree<T: de::DeserializeOwned>(n: Node) -> Result<T, String> {
    T::deserialize(De(n, 0)).map_err(|e| e.0)
}

impl Node {
    pub fn put(&self, o: &mut Vec<u8>) {
        fn n(o: &mut Vec<u8>, n: usize) {
            o.extend((n as u32).to_le_bytes());
        }
        fn s(o: &mut Vec<u8>, v: &[u8]) {
            n(o, v.len());
            o.extend(v);
        }
        match self {
            Node::Unit => o.push(0),
            Node::Bool(b) => o.extend([1, *b as u8]),
            Node::Char(c) => {
                o.push(2);
                n(o, *c as usize)
            }
            Node::U(v) => {
                o.push(3);
                o.extend(v.to_le_bytes())
            }
            Node::I(v) => {
                o.push(4);
                o.extend(v.to_le_bytes())
            }
            Node::F32(v) => {
                o.push(5);
                o.extend(v.to_le_bytes())
            }
            Node::F64(v) => {
                o.push(6);
                o.extend(v.to_le_bytes())
            }
            Node::Str(v) => {
                o.push(7);
                s(o, v.as_bytes())
            }
            Node::Bytes(v) => {
                o.push(8);
                s(o, v)
            }
            Node::None => o.push(9),
            Node::Some(v) => {
                o.push(10);
                v.put(o)
            }
            Node::Seq(v) => {
                o.push(11);
                n(o, v.len());
                v.iter().for_each(|v| v.put(o));
            }
            Node::Map(v) => {
                o.push(12);
                n(o, v.len());
                v.iter().for_each(|(k, v)| {
                    k.put(o);
                    v.put(o)
                });
            }
            Node::Struct(v) => {
                o.push(13);
                n(o, v.len());
                v.iter().for_each(|(k, v)| {
                    s(o, k.as_bytes());
                    v.put(o)
                });
            }
            Node::Variant(k, v) => {
                o.push(14);
                s(o, k.as_bytes());
                v.put(o)
            }
        }
    }
    pub fn take_all(mut b: &[u8]) -> Result<Node, String> {
        let n = Node::take(&mut b, 0)?;
        if b.is_empty() {
            Ok(n)
        } else {
            Err("bytes left over".into())
        }
    }
    fn take(b: &mut &[u8], depth: u32) -> Result<Node, String> {
        fn raw<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], String> {
            if b.len() < n {
                return Err("too short".into());
            }
            let (x, y) = b.split_at(n);
            *b = y;
            Ok(x)
        }
        fn num(b: &mut &[u8]) -> Result<usize, String> {
            Ok(u32::from_le_bytes(raw(b, 4)?.try_into().unwrap()) as usize)
        }
        fn bytes(b: &mut &[u8]) -> Result<Vec<u8>, String> {
            let n = num(b)?;
            Ok(raw(b, n)?.to_vec())
        }
        fn text(b: &mut &[u8]) -> Result<String, String> {
            String::from_utf8(bytes(b)?).map_err(|e| e.to_string())
        }
        if depth > 200 {
            return Err("too deep".into());
        }
        let d = depth + 1;
        Ok(match raw(b, 1)?[0] {
            0 => Node::Unit,
            1 => Node::Bool(raw(b, 1)?[0] != 0),
            2 => Node::Char(char::from_u32(num(b)? as u32).ok_or("bad char")?),
            3 => Node::U(u128::from_le_bytes(raw(b, 16)?.try_into().unwrap())),
            4 => Node::I(i128::from_le_bytes(raw(b, 16)?.try_into().unwrap())),
            5 => Node::F32(u32::from_le_bytes(raw(b, 4)?.try_into().unwrap())),
            6 => Node::F64(u64::from_le_bytes(raw(b, 8)?.try_into().unwrap())),
            7 => Node::Str(text(b)?),
            8 => Node::Bytes(bytes(b)?),
            9 => Node::None,
            10 => Node::Some(Box::new(Node::take(b, d)?)),
            11 => {
                let mut v = vec![];
                for _ in 0..num(b)? {
                    v.push(Node::take(b, d)?);
                }
                Node::Seq(v)
            }
            12 => {
                let mut v = vec![];
                for _ in 0..num(b)? {
                    v.push((Node::take(b, d)?, Node::take(b, d)?));
                }
                Node::Map(v)
            }
            13 => {
                let mut v = vec![];
                for _ in 0..num(b)? {
                    v.push((text(b)?, Node::take(b, d)?));
                }
                Node::Struct(v)
            }
            14 => Node::Variant(text(b)?, Box::new(Node::take(b, d)?)),
            _ => return Err("bad tag".into()),
        })
    }
    pub fn size(&self) -> usize {
        1 + match self {
            Node::Some(v) | Node::Variant(_, v) => v.size(),
            Node::Seq(v) => v.iter().map(|v| v.size()).sum(),
            Node::Map(v) => v.iter().map(|(k, v)| k.size() + v.size()).sum(),
            Node::Struct(f) => f.iter().map(|(_, v)| v.size()).sum(),
            _ => 0,
        }
    }
    pub fn each(&mut self, f: &mut dyn FnMut(&mut Node)) {
        match self {
            Node::Some(v) | Node::Variant(_, v) => f(v),
            Node::Seq(v) => v.iter_mut().for_each(f),
            Node::Map(v) => v.iter_mut().for_each(|(k, v)| {
                f(k);
                f(v)
            }),
            Node::Struct(x) => x.iter_mut().for_each(|(_, v)| f(v)),
            _ => {}
        }
    }
    /// Changes something about this node.
    pub fn damage(&mut self, draw: &mut dyn FnMut(u32) -> u32) {
        match self {
            Node::Seq(v) if !v.is_empty() => {
                let k = draw(v.len() as u32) as usize;
                match draw(4) {
                    0 => drop(v.remove(k)),
                    1 => v.insert(k, v[k].clone()),
                    2 => v.rotate_left(k),
                    _ => v.truncate(k),
                }
            }
            Node::Map(v) if !v.is_empty() => {
                let k = draw(v.len() as u32) as usize;
                match draw(4) {
                    0 => drop(v.remove(k)),
                    1 => v.insert(k, v[k].clone()),
                    2 => {
                        let j = draw(v.len() as u32) as usize;
                        v[k].0 = v[j].0.clone()
                    }
                    _ => v[k].0 = Node::Str(["", "a", "b", "nope"][draw(4) as usize].into()),
                }
            }
            Node::Struct(v) if !v.is_empty() => {
                let k = draw(v.len() as u32) as usize;
                match draw(4) {
                    0 => drop(v.remove(k)),
                    1 => v.insert(k, v[k].clone()),
                    2 => {
                        let j = draw(v.len() as u32) as usize;
                        v[k].1 = v[j].1.clone()
                    }
                    _ => v[k].0.push('x'),
                }
            }
            Node::Variant(n, _) if draw(2) == 0 => {
                *n = [
                    "Struct", "Tuple", "Unit", "List", "Map", "usize", "f32", "Named", "Variant",
                    "Nope",
                ][draw(10) as usize]
                    .into()
            }
            Node::Str(s) if draw(2) == 0 => {
                s.pop();
            }
            n => {
                *n = match draw(10) {
                    0 => Node::Unit,
                    1 => Node::Bool(true),
                    2 => Node::U(u128::MAX),
                    3 => Node::U(draw(5) as u128),
                    4 => Node::I(-1),
                    5 => Node::Str("a".into()),
                    6 => Node::None,
                    7 => Node::Seq(vec![]),
                    8 => Node::Seq(vec![n.clone(), n.clone()]),
                    _ => Node::Map(vec![]),
                }
            }
        }
    }
    /// Puts the fields of all structs in another order, as a peer with another map type would.
    pub fn shuffle(&mut self, draw: &mut dyn FnMut(u32) -> u32) {
        match self {
            Node::Some(v) | Node::Variant(_, v) => v.shuffle(draw),
            Node::Seq(v) => v.iter_mut().for_each(|v| v.shuffle(draw)),
            Node::Map(e) => {
                e.iter_mut().for_each(|(k, v)| {
                    k.shuffle(draw);
                    v.shuffle(draw)
                });
                if e.len() > 1 {
                    let k = draw(e.len() as u32) as usize;
                    e.rotate_left(k);
                }
            }
            Node::Struct(f) => {
                f.iter_mut().for_each(|(_, v)| v.shuffle(draw));
                if f.len() > 1 {
                    let k = draw(f.len() as u32) as usize;
                    f.rotate_left(k);
                }
            }
            _ => {}
        }
    }
}

struct Ser;
pub struct Seq(Vec<Node>, Option<&'static str>);
pub struct Mp(Vec<(Node, Node)>, Option<Node>);
pub struct St(Vec<(String, Node)>, Option<&'static str>);

fn wrap(v: Option<&'static str>, n: Node) -> Node {
    match v {
        Some(v) => Node::Variant(v.to_string(), Box::new(n)),
        None => n,
    }
}

impl ser::Serializer for Ser {
    type Ok = Node;
    type Error = E;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Mp;
    type SerializeStruct = St;
    type SerializeStructVariant = St;
    fn serialize_bool(self, v: bool) -> Result<Node, E> {
        Ok(Node::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Node, E> {
        Ok(Node::I(v as i128))
    }
    fn serialize_i16(self, v: i16) -> Result<Node, E> {
        Ok(Node::I(v as i128))
    }
    fn serialize_i32(self, v: i32) -> Result<Node, E> {
        Ok(Node::I(v as i128))
    }
    fn serialize_i64(self, v: i64) -> Result<Node, E> {
        Ok(Node::I(v as i128))
    }
    fn serialize_i128(self, v: i128) -> Result<Node, E> {
        Ok(Node::I(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Node, E> {
        Ok(Node::U(v as u128))
    }
    fn serialize_u16(self, v: u16) -> Result<Node, E> {
        Ok(Node::U(v as u128))
    }
    fn serialize_u32(self, v: u32) -> Result<Node, E> {
        Ok(Node::U(v as u128))
    }
    fn serialize_u64(self, v: u64) -> Result<Node, E> {
        Ok(Node::U(v as u128))
    }
    fn serialize_u128(self, v: u128) -> Result<Node, E> {
        Ok(Node::U(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Node, E> {
        Ok(Node::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<Node, E> {
        Ok(Node::F64(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<Node, E> {
        Ok(Node::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<Node, E> {
        Ok(Node::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Node, E> {
        Ok(Node::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Node, E> {
        Ok(Node::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Node, E> {
        Ok(Node::Some(Box::new(v.serialize(Ser)?)))
    }
    fn serialize_unit(self) -> Result<Node, E> {
        Ok(Node::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Node, E> {
        Ok(Node::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Node, E> {
        Ok(Node::Variant(v.to_string(), Box::new(Node::Unit)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        v: &T,
    ) -> Result<Node, E> {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        n: &'static str,
        v: &T,
    ) -> Result<Node, E> {
        Ok(Node::Variant(n.to_string(), Box::new(v.serialize(Ser)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        v: &'static str,
        _: usize,
    ) -> Result<Seq, E> {
        Ok(Seq(vec![], Some(v)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Mp, E> {
        Ok(Mp(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<St, E> {
        Ok(St(vec![], None))
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        v: &'static str,
        _: usize,
    ) -> Result<St, E> {
        Ok(St(vec![], Some(v)))
    }
}
macro_rules! seq {
    ($($tr:ident $f:ident),*) => {$(
        impl ser::$tr for Seq {
            type Ok = Node;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                self.0.push(v.serialize(Ser)?);
                Ok(())
            }
            fn end(self) -> Result<Node, E> {
                Ok(wrap(self.1, Node::Seq(self.0)))
            }
        }
    )*};
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for Mp {
    type Ok = Node;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.1 = Some(v.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.1.take().ok_or(E("value without key".into()))?;
        self.0.push((k, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<Node, E> {
        Ok(Node::Map(self.0))
    }
}
macro_rules! st {
    ($($tr:ident),*) => {$(
        impl ser::$tr for St {
            type Ok = Node;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                self.0.push((k.to_string(), v.serialize(Ser)?));
                Ok(())
            }
            fn end(self) -> Result<Node, E> {
                Ok(wrap(self.1, Node::Struct(self.0)))
            }
        }
    )*};
}
st!(SerializeStruct, SerializeStructVariant);

struct De(Node, u32);

impl<'de> de::Deserializer<'de> for De {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let d = self.1 + 1;
        match self.0 {
            Node::Unit => v.visit_unit(),
            Node::Bool(b) => v.visit_bool(b),
            Node::Char(c) => v.visit_char(c),
            Node::U(n) => match u64::try_from(n) {
                Ok(n) => v.visit_u64(n),
                Err(_) => v.visit_u128(n),
            },
            Node::I(n) => match i64::try_from(n) {
                Ok(n) => v.visit_i64(n),
                Err(_) => v.visit_i128(n),
            },
            Node::F32(b) => v.visit_f32(f32::from_bits(b)),
            Node::F64(b) => v.visit_f64(f64::from_bits(b)),
            Node::Str(s) => v.visit_string(s),
            Node::Bytes(b) => v.visit_byte_buf(b),
            Node::None => v.visit_none(),
            Node::Some(n) => v.visit_some(De(*n, d)),
            Node::Seq(s) => v.visit_seq(SeqDe(s.into_iter(), d)),
            Node::Map(m) => v.visit_map(MapDe(m.into_iter(), None, d)),
            Node::Struct(f) => v.visit_map(MapDe(
                f.into_iter()
                    .map(|(k, v)| (Node::Str(k), v))
                    .collect::<Vec<_>>()
                    .into_iter(),
                None,
                d,
            )),
            Node::Variant(..) => Err(E("a variant where none is expected".into())),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Node::None => v.visit_none(),
            Node::Some(n) => v.visit_some(De(*n, self.1 + 1)),
            _ => Err(E("no option".into())),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        v: V,
    ) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, E> {
        match self.0 {
            Node::Variant(k, n) => v.visit_enum(VarDe(k, *n, self.1 + 1)),
            _ => Err(E("no variant".into())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
        unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
struct SeqDe(std::vec::IntoIter<Node>, u32);
impl<'de> de::SeqAccess<'de> for SeqDe {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        self.0
            .next()
            .map(|n| s.deserialize(De(n, self.1)))
            .transpose()
    }
}
struct MapDe(std::vec::IntoIter<(Node, Node)>, Option<Node>, u32);
impl<'de> de::MapAccess<'de> for MapDe {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(De(k, self.2)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(De(
            self.1.take().ok_or(E("value before key".into()))?,
            self.2,
        ))
    }
}
struct VarDe(String, Node, u32);
impl<'de> de::EnumAccess<'de> for VarDe {
    type Error = E;
    type Variant = VarDe;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, VarDe), E> {
        let k: de::value::StrDeserializer<'_, E> = self.0.as_str().into_deserializer();
        Ok((s.deserialize(k)?, self))
    }
}
impl<'de> de::VariantAccess<'de> for VarDe {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.1 {
            Node::Unit => Ok(()),
            _ => Err(E("not a unit variant".into())),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(De(self.1, self.2))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        de::Deserializer::deserialize_any(De(self.1, self.2), v)
    }
    fn struct_variant<V: Visitor<'de>>(
        self,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, E> {
        de::Deserializer::deserialize_any(De(self.1, self.2), v)
    }
}
