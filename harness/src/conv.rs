//! Between the model and the library: building values, reading documents, reaching their parts.
use crate::model::*;
use mirror_mirror::enum_::{EnumValue, VariantField, VariantFieldMut, VariantKind};
use mirror_mirror::get_field::{GetField, GetFieldMut};
use mirror_mirror::key_path::{GetPath, Key, KeyPath};
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::{
    Reflect, ReflectMut, ReflectOwned, ReflectRef, ScalarMut, ScalarOwned, ScalarRef, Value,
};
use simrt::{draw, violate};
use std::collections::BTreeMap;
use std::fmt;

fn way(a: usize, b: usize) -> usize {
    (a + b) % 3
}

pub fn to_value(m: &M) -> Value {
    match m {
        M::Sc(t, b) => match t {
            T::Usize => Value::usize(*b as usize),
            T::U8 => Value::u8(*b as u8),
            T::U16 => Value::u16(*b as u16),
            T::U32 => Value::u32(*b as u32),
            T::U64 => Value::u64(*b as u64),
            T::U128 => Value::u128(*b),
            T::I8 => Value::i8(*b as i8),
            T::I16 => Value::i16(*b as i16),
            T::I32 => Value::i32(*b as i32),
            T::I64 => Value::i64(*b as i64),
            T::I128 => Value::i128(*b as i128),
            T::Bool => Value::bool(*b != 0),
            T::Char => Value::char(char::from_u32(*b as u32).unwrap()),
            T::F32 => Value::f32(f32::from_bits(*b as u32)),
            T::F64 => Value::f64(f64::from_bits(*b as u64)),
        },
        M::Str(s) => Value::String(s.clone()),
        // (the ways to put a value together take turns)
        M::Struct(f) => match way(f.len(), f.first().map_or(0, |f| f.0.len())) {
            0 => {
                let mut v = StructValue::new();
                for (n, m) in f {
                    v.set_field(n.as_str(), to_value(m));
                }
                v.into()
            }
            1 => f
                .iter()
                .fold(StructValue::with_capacity(f.len() / 2), |v, (n, m)| {
                    v.with_field(n.as_str(), to_value(m))
                })
                .into(),
            _ => f
                .iter()
                .map(|(n, m)| (n.as_str(), to_value(m)))
                .collect::<StructValue>()
                .into(),
        },
        M::TStruct(f) => match way(f.len(), 0) {
            0 => {
                let mut v = TupleStructValue::new();
                for m in f {
                    v.push_field(to_value(m));
                }
                v.into()
            }
            1 => f
                .iter()
                .fold(TupleStructValue::with_capacity(f.len()), |v, m| {
                    v.with_field(to_value(m))
                })
                .into(),
            _ => f.iter().map(to_value).collect::<TupleStructValue>().into(),
        },
        M::Tuple(f) => match way(f.len(), 0) {
            0 => {
                let mut v = TupleValue::new();
                for m in f {
                    v.push_field(to_value(m));
                }
                v.into()
            }
            1 => f
                .iter()
                .fold(TupleValue::with_capacity(f.len() + 1), |v, m| {
                    v.with_field(to_value(m))
                })
                .into(),
            _ => f.iter().map(to_value).collect::<TupleValue>().into(),
        },
        M::Enum(n, K::Unit) => EnumValue::new_unit_variant(n.as_str()).into(),
        M::Enum(n, K::Tuple(f)) => match way(f.len(), n.len()) {
            0 => {
                let mut b = EnumValue::new_tuple_variant(n.as_str());
                for m in f {
                    b.push_tuple_field(to_value(m));
                }
                b.finish().into()
            }
            1 => f
                .iter()
                .fold(
                    EnumValue::new_tuple_variant_with_capacity(n.as_str(), f.len()),
                    |b, m| b.with_tuple_field(to_value(m)),
                )
                .finish()
                .into(),
            _ => f
                .iter()
                .fold(EnumValue::new_tuple_variant(n.as_str()).finish(), |v, m| {
                    v.with_tuple_field(to_value(m))
                })
                .into(),
        },
        M::Enum(n, K::Struct(f)) => match way(f.len(), n.len()) {
            0 => {
                let mut b = EnumValue::new_struct_variant(n.as_str());
                for (n, m) in f {
                    b.set_struct_field(n.as_str(), to_value(m));
                }
                b.finish().into()
            }
            1 => f
                .iter()
                .fold(
                    EnumValue::new_struct_variant_with_capacity(n.as_str(), f.len()),
                    |b, (n, m)| b.with_struct_field(n.as_str(), to_value(m)),
                )
                .finish()
                .into(),
            _ => f
                .iter()
                .fold(
                    EnumValue::new_struct_variant(n.as_str()).finish(),
                    |v, (n, m)| v.with_struct_field(n.as_str(), to_value(m)),
                )
                .into(),
        },
        M::List(f) => match (way(f.len(), 0), &f[..]) {
            (0, _) => Value::List(f.iter().map(to_value).collect()),
            (_, [a]) => Value::from([to_value(a)]),
            (_, [a, b]) => Value::from([to_value(a), to_value(b)]),
            (_, _) => Value::from(f.iter().map(to_value).collect::<Vec<Value>>()),
        },
        M::Map(e) => {
            let e = e.iter().map(|(k, v)| (to_value(k), to_value(v)));
            let e = e.collect::<BTreeMap<Value, Value>>();
            match e.len() % 2 {
                0 => Value::Map(e),
                _ => Value::from(e),
            }
        }
    }
}

fn sc_ref(s: ScalarRef<'_>) -> M {
    match s {
        ScalarRef::usize(x) => int(T::Usize, x as i128),
        ScalarRef::u8(x) => int(T::U8, x as i128),
        ScalarRef::u16(x) => int(T::U16, x as i128),
        ScalarRef::u32(x) => int(T::U32, x as i128),
        ScalarRef::u64(x) => int(T::U64, x as i128),
        ScalarRef::u128(x) => M::Sc(T::U128, x),
        ScalarRef::i8(x) => int(T::I8, x as i128),
        ScalarRef::i16(x) => int(T::I16, x as i128),
        ScalarRef::i32(x) => int(T::I32, x as i128),
        ScalarRef::i64(x) => int(T::I64, x as i128),
        ScalarRef::i128(x) => int(T::I128, x),
        ScalarRef::bool(x) => M::Sc(T::Bool, x as u128),
        ScalarRef::char(x) => M::Sc(T::Char, x as u32 as u128),
        ScalarRef::f32(x) => M::Sc(T::F32, x.to_bits() as u128),
        ScalarRef::f64(x) => M::Sc(T::F64, x.to_bits() as u128),
        ScalarRef::String(x) => M::Str(x.clone()),
    }
}
pub fn sc_owned(s: &ScalarOwned) -> M {
    match s {
        ScalarOwned::usize(x) => int(T::Usize, *x as i128),
        ScalarOwned::u8(x) => int(T::U8, *x as i128),
        ScalarOwned::u16(x) => int(T::U16, *x as i128),
        ScalarOwned::u32(x) => int(T::U32, *x as i128),
        ScalarOwned::u64(x) => int(T::U64, *x as i128),
        ScalarOwned::u128(x) => M::Sc(T::U128, *x),
        ScalarOwned::i8(x) => int(T::I8, *x as i128),
        ScalarOwned::i16(x) => int(T::I16, *x as i128),
        ScalarOwned::i32(x) => int(T::I32, *x as i128),
        ScalarOwned::i64(x) => int(T::I64, *x as i128),
        ScalarOwned::i128(x) => int(T::I128, *x),
        ScalarOwned::bool(x) => M::Sc(T::Bool, *x as u128),
        ScalarOwned::char(x) => M::Sc(T::Char, *x as u32 as u128),
        ScalarOwned::f32(x) => M::Sc(T::F32, x.to_bits() as u128),
        ScalarOwned::f64(x) => M::Sc(T::F64, x.to_bits() as u128),
        ScalarOwned::String(x) => M::Str(x.clone()),
    }
}
pub fn to_scalar(m: &M) -> Option<ScalarOwned> {
    Some(match m {
        M::Sc(t, b) => match t {
            T::Usize => ScalarOwned::usize(*b as usize),
            T::U8 => ScalarOwned::u8(*b as u8),
            T::U16 => ScalarOwned::u16(*b as u16),
            T::U32 => ScalarOwned::u32(*b as u32),
            T::U64 => ScalarOwned::u64(*b as u64),
            T::U128 => ScalarOwned::u128(*b),
            T::I8 => ScalarOwned::i8(*b as i8),
            T::I16 => ScalarOwned::i16(*b as i16),
            T::I32 => ScalarOwned::i32(*b as i32),
            T::I64 => ScalarOwned::i64(*b as i64),
            T::I128 => ScalarOwned::i128(*b as i128),
            T::Bool => ScalarOwned::bool(*b != 0),
            T::Char => ScalarOwned::char(char::from_u32(*b as u32).unwrap()),
            T::F32 => ScalarOwned::f32(f32::from_bits(*b as u32)),
            T::F64 => ScalarOwned::f64(f64::from_bits(*b as u64)),
        },
        M::Str(s) => ScalarOwned::String(s.clone()),
        _ => return None,
    })
}

/// A value as a tree, map entries in iteration order.
pub fn from_value(v: &Value) -> M {
    match v {
        Value::usize(x) => int(T::Usize, *x as i128),
        Value::u8(x) => int(T::U8, *x as i128),
        Value::u16(x) => int(T::U16, *x as i128),
        Value::u32(x) => int(T::U32, *x as i128),
        Value::u64(x) => int(T::U64, *x as i128),
        Value::u128(x) => M::Sc(T::U128, *x),
        Value::i8(x) => int(T::I8, *x as i128),
        Value::i16(x) => int(T::I16, *x as i128),
        Value::i32(x) => int(T::I32, *x as i128),
        Value::i64(x) => int(T::I64, *x as i128),
        Value::i128(x) => int(T::I128, *x),
        Value::bool(x) => M::Sc(T::Bool, *x as u128),
        Value::char(x) => M::Sc(T::Char, *x as u32 as u128),
        Value::f32(x) => M::Sc(T::F32, x.to_bits() as u128),
        Value::f64(x) => M::Sc(T::F64, x.to_bits() as u128),
        Value::String(x) => M::Str(x.clone()),
        Value::List(l) => M::List(l.iter().map(from_value).collect()),
        Value::Map(e) => M::Map(
            e.iter()
                .map(|(k, v)| (from_value(k), from_value(v)))
                .collect(),
        ),
        Value::StructValue(s) => raw(&**s),
        Value::EnumValue(s) => raw(&**s),
        Value::TupleStructValue(s) => raw(s),
        Value::TupleValue(s) => raw(s),
    }
}

fn addr(r: &dyn Reflect) -> *const u8 {
    r as *const dyn Reflect as *const u8
}

fn same(a: Option<&dyn Reflect>, b: &dyn Reflect, what: &str) {
    match a {
        // through boxes: the contents of one need not be read once more for each way to it
        Some(a)
            if std::ptr::eq(addr(a.as_reflect()), addr(b.as_reflect()))
                && a.as_any().type_id() == b.as_any().type_id() => {}
        Some(a) => {
            let (x, y) = (raw(a), raw(b));
            if x != y {
                violate!(
                    "accessors",
                    "{what} gives {} where another route gives {}",
                    show(&x),
                    show(&y)
                );
            }
        }
        None => violate!(
            "accessors",
            "{what} gives nothing where another route gives {}",
            show(&raw(b))
        ),
    }
}
fn none(a: Option<&dyn Reflect>, what: &str) {
    if let Some(a) = a {
        violate!(
            "accessors",
            "{what} gives {} where nothing exists",
            show(&raw(a))
        );
    }
}

/// Reads a document through the library, checking that all ways to look at it agree. Map entries
/// are in iteration order.
pub fn raw(r: &dyn Reflect) -> M {
    let kind = match r.reflect_ref() {
        ReflectRef::Struct(_) => 0,
        ReflectRef::TupleStruct(_) => 1,
        ReflectRef::Tuple(_) => 2,
        ReflectRef::Enum(_) => 3,
        ReflectRef::Array(_) => 4,
        ReflectRef::List(_) => 5,
        ReflectRef::Map(_) => 6,
        ReflectRef::Scalar(_) => 7,
        ReflectRef::Opaque(_) => 8,
    };
    let is = [
        r.as_struct().is_some(),
        r.as_tuple_struct().is_some(),
        r.as_tuple().is_some(),
        r.as_enum().is_some(),
        r.as_array().is_some(),
        r.as_list().is_some(),
        r.as_map().is_some(),
        r.as_scalar().is_some(),
    ];
    for (i, is) in is.iter().enumerate() {
        if *is != (i == kind) {
            violate!(
                "accessors",
                "a value of kind {kind} answers {is} when asked for kind {i}"
            );
        }
    }
    match r.reflect_ref() {
        ReflectRef::Scalar(s) => sc_ref(s),
        ReflectRef::Opaque(_) => violate!("accessors", "an opaque value"),
        ReflectRef::Struct(s) => {
            let n = s.fields_len();
            let mut out = vec![];
            let mut it = s.fields();
            for i in 0..n {
                let (Some(v), Some(name)) = (s.field_at(i), s.name_at(i)) else {
                    violate!("accessors", "struct of {n} fields has no field {i}")
                };
                same(s.field(name), v, "field by name");
                match it.next() {
                    Some((m, w)) if m == name => same(Some(w), v, "iteration over fields"),
                    _ => violate!("accessors", "iteration over fields lacks field {i} {name}"),
                }
                out.push((name.to_string(), raw(v)));
            }
            if it.next().is_some() || s.name_at(n).is_some() {
                violate!("accessors", "struct of {n} fields has a field more");
            }
            none(s.field_at(n), "field by index");
            none(s.field_at(usize::MAX), "field by index");
            none(s.field("\u{0}no such field"), "field by name");
            M::Struct(out)
        }
        ReflectRef::TupleStruct(s) => {
            let n = s.fields_len();
            let mut it = s.fields();
            let mut out = vec![];
            for i in 0..n {
                let Some(v) = s.field_at(i) else {
                    violate!("accessors", "tuple struct of {n} fields has no field {i}")
                };
                same(it.next(), v, "iteration over fields");
                out.push(raw(v));
            }
            none(it.next(), "iteration over fields");
            none(s.field_at(n), "field by index");
            none(s.field_at(usize::MAX), "field by index");
            M::TStruct(out)
        }
        ReflectRef::Tuple(s) => {
            let n = s.fields_len();
            let mut it = s.fields();
            let mut out = vec![];
            for i in 0..n {
                let Some(v) = s.field_at(i) else {
                    violate!("accessors", "tuple of {n} fields has no field {i}")
                };
                same(it.next(), v, "iteration over fields");
                out.push(raw(v));
            }
            none(it.next(), "iteration over fields");
            none(s.field_at(n), "field by index");
            none(s.field_at(usize::MAX), "field by index");
            M::Tuple(out)
        }
        ReflectRef::Enum(e) => {
            let n = e.fields_len();
            let name = e.variant_name().to_string();
            let mut it = e.fields();
            none(e.field_at(n), "variant field by index");
            none(e.field_at(usize::MAX), "variant field by index");
            none(e.field("\u{0}no such field"), "variant field by name");
            if e.name_at(n).is_some() {
                violate!("accessors", "variant of {n} fields names one more");
            }
            let k = match e.variant_kind() {
                VariantKind::Unit => {
                    if n != 0 {
                        violate!("accessors", "unit variant {name} has {n} fields");
                    }
                    K::Unit
                }
                VariantKind::Tuple => {
                    let mut out = vec![];
                    for i in 0..n {
                        let Some(v) = e.field_at(i) else {
                            violate!("accessors", "variant {name} of {n} fields has no field {i}")
                        };
                        match it.next() {
                            Some(VariantField::Tuple(w)) => {
                                same(Some(w), v, "iteration over variant fields")
                            }
                            _ => violate!(
                                "accessors",
                                "iteration over the fields of {name} lacks field {i}"
                            ),
                        }
                        out.push(raw(v));
                    }
                    K::Tuple(out)
                }
                VariantKind::Struct => {
                    let mut out = vec![];
                    for i in 0..n {
                        let (Some(v), Some(f)) = (e.field_at(i), e.name_at(i)) else {
                            violate!("accessors", "variant {name} of {n} fields has no field {i}")
                        };
                        same(e.field(f), v, "variant field by name");
                        match it.next() {
                            Some(VariantField::Struct(g, w)) if f == g => {
                                same(Some(w), v, "iteration over variant fields")
                            }
                            _ => violate!(
                                "accessors",
                                "iteration over the fields of {name} lacks field {i} {f}"
                            ),
                        }
                        out.push((f.to_string(), raw(v)));
                    }
                    K::Struct(out)
                }
            };
            if it.next().is_some() {
                violate!(
                    "accessors",
                    "iteration over the fields of {name} gives more than {n}"
                );
            }
            M::Enum(name, k)
        }
        ReflectRef::Array(a) => {
            let n = a.len();
            let mut it = a.iter();
            let mut out = vec![];
            for i in 0..n {
                let Some(v) = a.get(i) else {
                    violate!("accessors", "array of {n} has no element {i}")
                };
                same(it.next(), v, "iteration over elements");
                out.push(raw(v));
            }
            if it.next().is_some() || a.get(n).is_some() || a.is_empty() != (n == 0) {
                violate!(
                    "accessors",
                    "array of {n} has an element more, or is_empty is wrong"
                );
            }
            M::List(out)
        }
        ReflectRef::List(a) => {
            let n = a.len();
            let mut it = a.iter();
            let mut out = vec![];
            for i in 0..n {
                let Some(v) = a.get(i) else {
                    violate!("accessors", "list of {n} has no element {i}")
                };
                same(it.next(), v, "iteration over elements");
                out.push(raw(v));
            }
            if it.next().is_some() || a.get(n).is_some() || a.is_empty() != (n == 0) {
                violate!(
                    "accessors",
                    "list of {n} has an element more, or is_empty is wrong"
                );
            }
            M::List(out)
        }
        ReflectRef::Map(m) => {
            let n = m.len();
            let mut out = vec![];
            for (k, v) in m.iter() {
                same(m.get(k), v, "map entry by key");
                out.push((raw(k), raw(v)));
            }
            if out.len() != n || m.is_empty() != (n == 0) {
                violate!(
                    "accessors",
                    "map of {n} iterates over {}, or is_empty is wrong",
                    out.len()
                );
            }
            M::Map(out)
        }
    }
}

/// Reads a document through the library.
pub fn read(r: &dyn Reflect) -> M {
    let mut m = raw(r);
    norm(&mut m);
    m
}

/// Reads a document by taking it apart as an owned value.
pub fn read_owned(r: Box<dyn Reflect>) -> M {
    match r.reflect_owned() {
        ReflectOwned::Scalar(s) => sc_owned(&s),
        ReflectOwned::Struct(x) => read(x.as_reflect()),
        ReflectOwned::TupleStruct(x) => read(x.as_reflect()),
        ReflectOwned::Tuple(x) => read(x.as_reflect()),
        ReflectOwned::Enum(x) => read(x.as_reflect()),
        ReflectOwned::Array(x) => read(x.as_reflect()),
        ReflectOwned::List(x) => read(x.as_reflect()),
        ReflectOwned::Map(x) => read(x.as_reflect()),
        ReflectOwned::Opaque(x) => read(&*x),
    }
}

// Typed access to the parts of a container agrees with the untyped one, whatever the type asked for.
macro_rules! typed {
    ($c:expr, $k:expr, $v:expr, $what:expr; $($t:ty),*) => {{$(
        let want: Option<*const $t> = $v.and_then(|v: &dyn Reflect| v.downcast_ref::<$t>()).map(|x| x as *const $t);
        let got: Option<*const $t> = $c.get_field::<$t>($k).map(|x| x as *const $t);
        if got != want {
            violate!("accessors", "typed access to {} as {}: found {}, should be {}", $what, stringify!($t), got.is_some(), want.is_some());
        }
    )*}};
    ($c:expr, $k:expr, $v:expr, $what:expr) => {
        typed!($c, $k, $v, $what; usize, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, f32, f64, String,
            StructValue, TupleStructValue, TupleValue, EnumValue, Vec<Value>, BTreeMap<Value, Value>, Option<i32>, Vec<u8>)
    };
}
macro_rules! typed_mut {
    ($c:expr, $k:expr, $v:expr, $what:expr; $($t:ty),*) => {{$(
        let want: Option<*const $t> = $v.and_then(|v: &dyn Reflect| v.downcast_ref::<$t>()).map(|x| x as *const $t);
        let got: Option<*const $t> = $c.get_field_mut::<$t>($k).map(|x| x as *const $t);
        if got != want {
            violate!("accessors", "typed mutable access to {} as {}: found {}, should be {}", $what, stringify!($t), got.is_some(), want.is_some());
        }
    )*}};
    ($c:expr, $k:expr, $v:expr, $what:expr) => {
        typed_mut!($c, $k, $v, $what; usize, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, f32, f64, String,
            StructValue, TupleStructValue, TupleValue, EnumValue, Vec<Value>, BTreeMap<Value, Value>, Option<i32>, Vec<u8>)
    };
}

macro_rules! typed_at {
    ($c:expr, $m:expr, $p:expr, $what:expr; $get:ident $($t:ty),*) => {{$(
        let want: Option<*const $t> = $c.at($p).and_then(|v: &dyn Reflect| v.downcast_ref::<$t>()).map(|x| x as *const $t);
        let got: Option<*const $t> = $m.$get::<$t>($p).map(|x| x as *const $t);
        if got != want {
            violate!("accessors", "typed access to {} as {}: found {}, should be {}", $what, stringify!($t), got.is_some(), want.is_some());
        }
    )*}};
    ($c:expr, $m:expr, $p:expr, $what:expr) => {
        typed_at!($c, $m, $p, $what; get_at usize, u8, u32, i8, i32, i128, bool, char, f32, f64, String,
            StructValue, TupleStructValue, TupleValue, EnumValue, Vec<Value>, BTreeMap<Value, Value>, Option<i32>, Vec<u8>)
    };
    (mut $c:expr, $m:expr, $p:expr, $what:expr) => {
        typed_at!($c, $m, $p, $what; get_at_mut usize, u8, u32, i8, i32, i128, bool, char, f32, f64, String,
            StructValue, TupleStructValue, TupleValue, EnumValue, Vec<Value>, BTreeMap<Value, Value>, Option<i32>, Vec<u8>)
    };
}

/// What `raw` leaves out: every part as an owned value, through its printed form and by typed access.
/// A list, array or map, to be printed as the standard library prints one of the same parts.
struct Parts<'a>(&'a dyn Reflect);

impl fmt::Debug for Parts<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0.reflect_ref() {
            ReflectRef::Array(a) => {
                let parts = (0..a.len()).filter_map(|i| a.get(i));
                f.debug_list().entries(parts).finish()
            }
            ReflectRef::List(a) => {
                let parts = (0..a.len()).filter_map(|i| a.get(i));
                f.debug_list().entries(parts).finish()
            }
            ReflectRef::Map(m) => {
                let mut f = f.debug_map();
                for (k, v) in m.iter() {
                    f.entry(&k, &v);
                }
                f.finish()
            }
            _ => Ok(()),
        }
    }
}

/// Prints of lists, arrays and maps show all of their parts.
fn prints(r: &dyn Reflect) {
    let n = match r.reflect_ref() {
        ReflectRef::Array(a) => a.len(),
        ReflectRef::List(a) => a.len(),
        ReflectRef::Map(m) => m.len(),
        _ => return,
    };
    // (a dynamic value, boxed or not, prints what variant of `Value` it is)
    let p = format!("{r:?}");
    if n > 40 || p.starts_with("Map(") || p.starts_with("List(") {
        return;
    }
    let p = Parts(r);
    for (got, want) in [
        (format!("{r:?}"), format!("{p:?}")),
        (format!("{r:#?}"), format!("{p:#?}")),
    ] {
        if got != want {
            violate!("accessors", "{n} parts print as {got} instead of {want}");
        }
    }
}

/// What an iterator says of how many parts it has left.
fn lens(mut it: impl ExactSizeIterator, n: usize) {
    for left in (n.saturating_sub(70)..=n).rev() {
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            violate!(
                "accessors",
                "an iterator with {left} of {n} parts left says {} and {:?}",
                it.len(),
                it.size_hint()
            );
        }
        if it.next().is_some() != (left > 0) {
            violate!("accessors", "an iterator with {left} of {n} parts left");
        }
    }
    if n <= 70 && (it.next().is_some() || it.len() != 0) {
        violate!("accessors", "an iterator past its end");
    }
}

pub fn audit(r: &dyn Reflect) {
    let want = raw(r);
    let differs = |got: Option<M>, what: &str| {
        if got.as_ref() != Some(&want) {
            violate!(
                "accessors",
                "{what} of {} gives {}",
                show(&want),
                got.as_ref().map_or("nothing".to_string(), show)
            );
        }
    };
    prints(r);
    differs(Some(raw(&*r.clone_reflect())), "a clone");
    let c = r.clone_reflect();
    // (the first clone may lack hidden fields, or be of the dynamic form)
    let d = c.clone_reflect();
    if format!("{c:?}") != format!("{d:?}") || format!("{c:#?}") != format!("{d:#?}") {
        violate!(
            "accessors",
            "a clone of {} prints {c:?} and a clone of that {d:?}",
            show(&want)
        );
    }
    let kind = match r.reflect_ref() {
        ReflectRef::Struct(_) => 0,
        ReflectRef::TupleStruct(_) => 1,
        ReflectRef::Tuple(_) => 2,
        ReflectRef::Enum(_) => 3,
        ReflectRef::Array(_) => 4,
        ReflectRef::List(_) => 5,
        ReflectRef::Map(_) => 6,
        ReflectRef::Scalar(_) => 7,
        ReflectRef::Opaque(_) => 8,
    };
    let into = |kind: u32, c: Box<dyn Reflect>| match kind {
        0 => c.into_struct().map(|x| raw(x.as_reflect())),
        1 => c.into_tuple_struct().map(|x| raw(x.as_reflect())),
        2 => c.into_tuple().map(|x| raw(x.as_reflect())),
        3 => c.into_enum().map(|x| raw(x.as_reflect())),
        4 => c.into_array().map(|x| raw(x.as_reflect())),
        5 => c.into_list().map(|x| raw(x.as_reflect())),
        6 => c.into_map().map(|x| raw(x.as_reflect())),
        7 => c.into_scalar().map(|x| sc_owned(&x)),
        _ => c.reflect_owned().into_opaque().map(|x| raw(&*x)),
    };
    differs(into(kind, r.clone_reflect()), "the owned form");
    let other = (kind + 1 + draw(8)) % 9;
    if let Some(got) = into(other, c) {
        violate!(
            "accessors",
            "{} of kind {kind} taken as kind {other} gives {}",
            show(&want),
            show(&got)
        );
    }
    for k in keys(r) {
        let k = step(r, &k);
        let p = key_path_plain(&[k.clone()]);
        typed_at!(r, r, &p, show_path(&[k]));
    }
    let value = r.to_value();
    match r.reflect_ref() {
        ReflectRef::Struct(s) => {
            let names = (0..s.fields_len()).filter_map(|i| s.name_at(i));
            for n in names.chain(["", "no such"]) {
                typed!(s, n, s.field(n), n);
                typed!((&value), n, value.as_struct().and_then(|s| s.field(n)), n);
                typed!(
                    (&value),
                    n.to_string(),
                    value.as_struct().and_then(|s| s.field(n)),
                    n
                );
            }
            lens(s.fields(), s.fields_len());
            s.fields().for_each(|(_, v)| audit(v));
        }
        ReflectRef::TupleStruct(s) => {
            for i in 0..s.fields_len() + 1 {
                typed!(s, i, s.field_at(i), i);
                typed!(
                    (&value),
                    i,
                    value.as_tuple_struct().and_then(|s| s.field_at(i)),
                    i
                );
            }
            lens(s.fields(), s.fields_len());
            s.fields().for_each(audit);
        }
        ReflectRef::Tuple(s) => {
            for i in 0..s.fields_len() + 1 {
                typed!(s, i, s.field_at(i), i);
                typed!((&value), i, value.as_tuple().and_then(|s| s.field_at(i)), i);
            }
            lens(s.fields(), s.fields_len());
            s.fields().for_each(audit);
        }
        ReflectRef::Enum(e) => {
            for i in 0..e.fields_len() + 1 {
                typed!(e, i, e.field_at(i), i);
                typed!((&value), i, value.as_enum().and_then(|e| e.field_at(i)), i);
                let n = match e.variant_kind() {
                    VariantKind::Struct => e.name_at(i).unwrap_or("no such"),
                    _ => "no such",
                };
                typed!(e, n, e.field(n), n);
                typed!((&value), n, value.as_enum().and_then(|e| e.field(n)), n);
            }
            e.fields().for_each(|f| match f {
                VariantField::Struct(_, v) | VariantField::Tuple(v) => audit(v),
            });
        }
        ReflectRef::Array(a) => {
            for i in 0..a.len().min(4) + 1 {
                typed!(a, i, a.get(i), i);
                typed!((&value), i, value.as_list().and_then(|a| a.get(i)), i);
            }
            lens(a.iter(), a.len());
            a.iter().take(4).for_each(audit);
        }
        ReflectRef::List(a) => {
            for i in [0, 1, 2, 3, a.len().wrapping_sub(1), a.len()] {
                typed!(a, i, a.get(i), i);
                typed!((&value), i, value.as_list().and_then(|a| a.get(i)), i);
            }
            lens(a.iter(), a.len());
            a.iter().take(4).for_each(audit);
        }
        ReflectRef::Map(m) => {
            for (k, v) in m.iter().take(4) {
                let k = k.to_value();
                typed!(m, k.clone(), Some(v), show(&from_value(&k)));
                match &k {
                    Value::String(k) => {
                        typed!(m, k.as_str(), Some(v), k);
                        typed!(
                            (&value),
                            k.as_str(),
                            value.as_map().and_then(|m| m.get(k)),
                            k
                        );
                        typed!(
                            (&value),
                            k.clone(),
                            value.as_map().and_then(|m| m.get(k)),
                            k
                        );
                    }
                    Value::usize(k) => {
                        typed!((&value), *k, value.as_map().and_then(|m| m.get(k)), k)
                    }
                    k => typed!(
                        (&value),
                        k.clone(),
                        value.as_map().and_then(|m| m.get(k)),
                        show(&from_value(k))
                    ),
                }
            }
            m.iter().take(4).for_each(|(k, v)| {
                audit(k);
                audit(v)
            });
        }
        ReflectRef::Scalar(_) | ReflectRef::Opaque(_) => {}
    }
}

fn at<'a>(r: &'a dyn Reflect, k: &Kx) -> Option<&'a dyn Reflect> {
    match (r.reflect_ref(), k) {
        (ReflectRef::Struct(s), Kx::Name(n)) => s.field(n),
        (ReflectRef::Enum(s), Kx::Name(n)) => s.field(n),
        (ReflectRef::Enum(s), Kx::Num(i)) => s.field_at(*i),
        (ReflectRef::TupleStruct(s), Kx::Num(i)) => s.field_at(*i),
        (ReflectRef::Tuple(s), Kx::Num(i)) => s.field_at(*i),
        (ReflectRef::List(s), Kx::Num(i)) => s.get(*i),
        (ReflectRef::Array(s), Kx::Num(i)) => s.get(*i),
        (ReflectRef::Map(s), Kx::Get(m)) => s.get(&to_value(m)),
        _ => None,
    }
}

fn keys(r: &dyn Reflect) -> Vec<Kx> {
    // the keys of the parts one step down, and one of none
    let names = |n: usize, f: &dyn Fn(usize) -> Option<String>| -> Vec<Kx> {
        (0..n).filter_map(f).map(Kx::Name).chain([Kx::Name("no such".into())]).collect()
    };
    let numbers = |n: usize| -> Vec<Kx> { (0..n.min(4) + 1).map(Kx::Num).collect() };
    match r.reflect_ref() {
        ReflectRef::Struct(s) => names(s.fields_len(), &|i| s.name_at(i).map(String::from)),
        ReflectRef::Enum(s) => match s.variant_kind() {
            VariantKind::Struct => names(s.fields_len(), &|i| s.name_at(i).map(String::from)),
            _ => numbers(s.fields_len()),
        },
        ReflectRef::TupleStruct(s) => numbers(s.fields_len()),
        ReflectRef::Tuple(s) => numbers(s.fields_len()),
        ReflectRef::List(s) => numbers(s.len()),
        ReflectRef::Array(s) => numbers(s.len()),
        ReflectRef::Map(s) => s.iter().take(4).map(|(k, _)| Kx::Get(raw(k))).collect(),
        _ => vec![],
    }
}

/// The step as it is written in key paths.
fn step(r: &dyn Reflect, k: &Kx) -> Kx {
    match (r.reflect_ref(), k) {
        (ReflectRef::List(_) | ReflectRef::Array(_), Kx::Num(i)) => {
            Kx::Get(M::Sc(T::Usize, *i as u128))
        }
        _ => k.clone(),
    }
}

/// The same for the mutable views; changes nothing.
pub fn audit_mut(r: &mut dyn Reflect) {
    let keys = keys(r);
    if keys.is_empty() {
        return;
    }
    let mut value = r.to_value();
    for k in &keys {
        let found = at(r, k).map(|v| v as *const dyn Reflect);
        // SAFETY: only the address and the type of the part are looked at, which nothing moves
        let part = || found.map(|v| unsafe { &*v });
        match (r.reflect_mut(), k) {
            (ReflectMut::Struct(s), Kx::Name(n)) => typed_mut!(s, n.as_str(), part(), n),
            (ReflectMut::Enum(s), Kx::Name(n)) => typed_mut!(s, n.as_str(), part(), n),
            (ReflectMut::Enum(s), Kx::Num(i)) => typed_mut!(s, *i, part(), i),
            (ReflectMut::TupleStruct(s), Kx::Num(i)) => typed_mut!(s, *i, part(), i),
            (ReflectMut::Tuple(s), Kx::Num(i)) => typed_mut!(s, *i, part(), i),
            (ReflectMut::List(s), Kx::Num(i)) => typed_mut!(s, *i, part(), i),
            (ReflectMut::Array(s), Kx::Num(i)) => typed_mut!(s, *i, part(), i),
            (ReflectMut::Map(s), Kx::Get(m)) => {
                typed_mut!(s, to_value(m), part(), show(m))
            }
            _ => {}
        }
        let found = at(&value, k).map(|v| v as *const dyn Reflect);
        let part = || found.map(|v| unsafe { &*v });
        match k {
            Kx::Name(n) => typed_mut!((&mut value), n.as_str(), part(), n),
            Kx::Num(i) => typed_mut!((&mut value), *i, part(), i),
            Kx::Get(m) => typed_mut!((&mut value), to_value(m), part(), show(m)),
            Kx::Var(_) => {}
        }
    }
    for k in &keys {
        let k = step(r, k);
        let p = key_path_plain(&[k.clone()]);
        typed_at!(mut r, r, &p, show_path(&[k.clone()]));
        if let Some(part) = step_mut(r, &k) {
            audit_mut(part);
        }
    }
}

pub fn norm_value(v: &Value) -> M {
    let mut m = from_value(v);
    norm(&mut m);
    m
}

pub fn key(k: &Kx) -> Key {
    match k {
        Kx::Name(n) => Key::named_field(n.as_str()),
        Kx::Num(i) => Key::numbered_field(*i),
        Kx::Get(m) => Key::get(to_value(m)),
        Kx::Var(n) => Key::variant(n.as_str()),
    }
}
/// A key path, put together in one of the ways there are.
pub fn key_path(p: &[Kx]) -> KeyPath {
    use mirror_mirror::key_path;
    let mut out = KeyPath::default();
    match draw(6) {
        0..=2 => {
            for k in p {
                match (k, draw(2)) {
                    (Kx::Name(n), 0) => out.push_field(n.as_str()),
                    (Kx::Num(i), 0) => out.push_field(*i),
                    (Kx::Get(m), 0) => out.push_get(to_value(m)),
                    (Kx::Var(n), 0) => out.push_variant(n.as_str()),
                    (k, _) => out.push(key(k)),
                }
            }
        }
        3 => {
            let mut p = p;
            if draw(2) == 1 && !p.is_empty() {
                out = match &p[0] {
                    Kx::Name(n) => key_path::field(n),
                    Kx::Num(i) => key_path::field(*i),
                    Kx::Get(m) => key_path::get(to_value(m)),
                    Kx::Var(n) => key_path::variant(n),
                };
                p = &p[1..];
            }
            for k in p {
                out = match k {
                    Kx::Name(n) => out.field(n.clone()),
                    Kx::Num(i) => out.field(*i),
                    Kx::Get(m) => out.get(to_value(m)),
                    Kx::Var(n) => out.variant(n.clone()),
                }
            }
        }
        4 => {
            let k = draw(p.len() as u32 + 1) as usize;
            out = match k {
                1 if draw(2) == 1 => KeyPath::from(key(&p[0])),
                _ => p[..k].iter().map(key).collect(),
            };
            let rest: KeyPath = p[k..].iter().map(key).collect();
            out.extend(rest);
        }
        _ => {
            // a detour
            for k in p {
                if draw(4) == 3 {
                    out.push(key(k));
                    out.push_field(7_usize);
                    out.pop();
                    out.pop();
                }
                out.push(key(k));
            }
            key_path_is(&out, p);
        }
    }
    out
}
/// What the sequence of the keys of a path has to say.
fn key_path_is(k: &KeyPath, p: &[Kx]) {
    let bad = |what: &str| -> ! {
        violate!(
            "key path",
            "{what} of {k} ({} keys), which is {}",
            k.len(),
            show_path(p)
        )
    };
    let same = |a: &Key, b: &Kx| *a == key(b) && key(b) == *a;
    let all = |a: &[Key], b: &[Kx]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b));
    if k.len() != p.len()
        || k.is_empty() != p.is_empty()
        || k.iter().len() != p.len()
        || k.clone().into_iter().len() != p.len()
    {
        bad("the length");
    }
    if !all(&k.iter().cloned().collect::<Vec<_>>(), p)
        || !all(&k.clone().into_iter().collect::<Vec<_>>(), p)
    {
        bad("the keys");
    }
    let mut back: Vec<Key> = k.clone().into_iter().rev().collect();
    back.reverse();
    if !all(&back, p) || !k.iter().rev().zip(p.iter().rev()).all(|(a, b)| same(a, b)) {
        bad("the keys backwards");
    }
    if k.breadcrumbs().count() != p.len()
        || !k
            .breadcrumbs()
            .enumerate()
            .all(|(i, c)| all(c, &p[..i + 1]))
    {
        bad("the breadcrumbs");
    }
    let other = key_path_plain(p);
    if *k != other || gb_hash(k) != gb_hash(&other) || k.to_string() != other.to_string() {
        bad("equality, hash or text");
    }
}
fn gb_hash(k: &KeyPath) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}
/// The same without drawing how it is put together.
pub fn key_path_plain(p: &[Kx]) -> KeyPath {
    let mut out = KeyPath::default();
    p.iter().for_each(|k| out.push(key(k)));
    out
}
pub fn from_key(k: &Key) -> Kx {
    use mirror_mirror::key_path::NamedOrNumbered as N;
    match k {
        Key::Field(N::Named(n)) => Kx::Name(n.clone()),
        Key::Field(N::Numbered(i)) => Kx::Num(*i),
        Key::Get(v) => Kx::Get(norm_value(v)),
        Key::Variant(n) => Kx::Var(n.clone()),
    }
}

/// One step down, by a route other than a key path.
fn step_mut<'a>(r: &'a mut dyn Reflect, k: &Kx) -> Option<&'a mut dyn Reflect> {
    match (k, r.reflect_mut()) {
        (Kx::Name(n), ReflectMut::Struct(s)) => match draw(3) {
            0 => s.field_mut(n),
            1 => {
                let i = (0..s.fields_len()).find(|i| s.name_at(*i) == Some(n.as_str()))?;
                s.field_at_mut(i)
            }
            _ => s.fields_mut().find(|(x, _)| x == n).map(|(_, v)| v),
        },
        (Kx::Name(n), ReflectMut::Enum(e)) => {
            if e.variant_kind() != VariantKind::Struct {
                return None;
            }
            match draw(3) {
                0 => e.field_mut(n),
                1 => {
                    let i = (0..e.fields_len()).find(|i| e.name_at(*i) == Some(n.as_str()))?;
                    e.field_at_mut(i)
                }
                _ => e.fields_mut().find_map(|f| match f {
                    VariantFieldMut::Struct(x, v) if x == n => Some(v),
                    _ => None,
                }),
            }
        }
        (Kx::Num(i), ReflectMut::TupleStruct(s)) => match draw(2) {
            0 => s.field_at_mut(*i),
            _ => s.fields_mut().nth(*i),
        },
        (Kx::Num(i), ReflectMut::Tuple(s)) => match draw(2) {
            0 => s.field_at_mut(*i),
            _ => s.fields_mut().nth(*i),
        },
        (Kx::Num(i), ReflectMut::Enum(e)) => {
            if e.variant_kind() != VariantKind::Tuple {
                return None;
            }
            match draw(2) {
                0 => e.field_at_mut(*i),
                _ => e.fields_mut().nth(*i).and_then(|f| match f {
                    VariantFieldMut::Tuple(v) => Some(v),
                    VariantFieldMut::Struct(n, _) => {
                        violate!("accessors", "field {n} among those of a tuple variant")
                    }
                }),
            }
        }
        (Kx::Get(m), ReflectMut::Array(a)) => {
            let i = key_index(m)?;
            match draw(2) {
                0 => a.get_mut(i),
                _ => a.iter_mut().nth(i),
            }
        }
        (Kx::Get(m), ReflectMut::List(a)) => {
            let i = key_index(m)?;
            match draw(2) {
                0 => a.get_mut(i),
                _ => a.iter_mut().nth(i),
            }
        }
        (Kx::Get(m), ReflectMut::Map(a)) => match draw(2) {
            0 => a.get_mut(&to_value(m)),
            _ => a
                .iter_mut()
                .find(|(k, _)| veq(&read(*k), m))
                .map(|(_, v)| v),
        },
        (Kx::Var(n), ReflectMut::Enum(e)) => (e.variant_name() == n).then(|| e.as_reflect_mut()),
        _ => None,
    }
}

/// Goes to the part of the document at the path, by a mixture of routes.
pub fn reach<'a>(r: &'a mut dyn Reflect, path: &[Kx]) -> Option<&'a mut dyn Reflect> {
    if draw(3) == 0 {
        return r.at_mut(&key_path(path));
    }
    let mut r = r.as_reflect_mut();
    let mut i = 0;
    while i < path.len() {
        if draw(3) == 2 {
            let n = 1 + draw((path.len() - i) as u32) as usize;
            r = r.at_mut(&key_path(&path[i..i + n]))?;
            i += n;
        } else {
            r = step_mut(r, &path[i])?;
            i += 1;
        }
    }
    Some(r)
}

/// Sets a scalar in place through its mutable view.
pub fn set_scalar(r: &mut dyn Reflect, m: &M) -> bool {
    match (r.as_scalar_mut(), m) {
        (Some(ScalarMut::usize(x)), M::Sc(T::Usize, b)) => *x = *b as usize,
        (Some(ScalarMut::u8(x)), M::Sc(T::U8, b)) => *x = *b as u8,
        (Some(ScalarMut::u16(x)), M::Sc(T::U16, b)) => *x = *b as u16,
        (Some(ScalarMut::u32(x)), M::Sc(T::U32, b)) => *x = *b as u32,
        (Some(ScalarMut::u64(x)), M::Sc(T::U64, b)) => *x = *b as u64,
        (Some(ScalarMut::u128(x)), M::Sc(T::U128, b)) => *x = *b,
        (Some(ScalarMut::i8(x)), M::Sc(T::I8, b)) => *x = *b as i8,
        (Some(ScalarMut::i16(x)), M::Sc(T::I16, b)) => *x = *b as i16,
        (Some(ScalarMut::i32(x)), M::Sc(T::I32, b)) => *x = *b as i32,
        (Some(ScalarMut::i64(x)), M::Sc(T::I64, b)) => *x = *b as i64,
        (Some(ScalarMut::i128(x)), M::Sc(T::I128, b)) => *x = *b as i128,
        (Some(ScalarMut::bool(x)), M::Sc(T::Bool, b)) => *x = *b != 0,
        (Some(ScalarMut::char(x)), M::Sc(T::Char, b)) => *x = char::from_u32(*b as u32).unwrap(),
        (Some(ScalarMut::f32(x)), M::Sc(T::F32, b)) => *x = f32::from_bits(*b as u32),
        (Some(ScalarMut::f64(x)), M::Sc(T::F64, b)) => *x = f64::from_bits(*b as u64),
        (Some(ScalarMut::String(x)), M::Str(s)) => *x = s.clone(),
        _ => return false,
    }
    true
}

fn out(r: Option<Box<dyn Reflect>>) -> Ret {
    Ret::Out(r.map(|b| {
        if draw(2) == 0 {
            read(&*b)
        } else {
            read_owned(b)
        }
    }))
}

/// Performs an edit on a real document.
pub fn edit(r: &mut dyn Reflect, path: &[Kx], op: &Op) -> Ret {
    let Some(r) = reach(r, path) else {
        return Ret::NotFound;
    };
    edit_here(r, op)
}

/// Performs an edit with this as the value.
pub fn edit_with(r: &mut dyn Reflect, op: &Op, v: &dyn Reflect, key: Option<&M>) -> Ret {
    match op {
        Op::Patch(_) => {
            r.patch(v);
            Ret::Done
        }
        Op::Push(_) => match r.as_list_mut() {
            Some(l) => {
                l.push(v);
                Ret::Done
            }
            None => Ret::WrongKind,
        },
        Op::Insert(..) => match r.as_map_mut() {
            Some(m) => out(m.insert(&to_value(key.unwrap()), v)),
            None => Ret::WrongKind,
        },
        _ => unreachable!(),
    }
}

pub fn edit_here(r: &mut dyn Reflect, op: &Op) -> Ret {
    match op {
        Op::Patch(m) => {
            if draw(6) == 5 && matches!(m, M::Sc(..) | M::Str(_)) && set_scalar(r, m) {
                return Ret::Done;
            }
            r.patch(&to_value(m));
            Ret::Done
        }
        Op::Push(m) => match r.as_list_mut() {
            Some(l) => {
                l.push(&to_value(m));
                Ret::Done
            }
            None => Ret::WrongKind,
        },
        Op::Pop => match r.as_list_mut() {
            Some(l) => out(l.pop()),
            None => Ret::WrongKind,
        },
        Op::Remove(i) => match r.as_list_mut() {
            Some(l) => out(l.try_remove(*i)),
            None => Ret::WrongKind,
        },
        Op::Insert(k, v) => match r.as_map_mut() {
            Some(m) => out(m.insert(&to_value(k), &to_value(v))),
            None => Ret::WrongKind,
        },
        Op::Delete(k) => match r.as_map_mut() {
            Some(m) => out(m.remove(&to_value(k))),
            None => Ret::WrongKind,
        },
    }
}
