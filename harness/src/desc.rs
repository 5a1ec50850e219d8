//! Descriptions of types against their declarations, and everything a description can be asked.
use crate::conv;
use crate::model::*;
use mirror_mirror::key_path::GetTypePath;
use mirror_mirror::type_info::{
    GetMeta, PrettyPrintRoot, ScalarType, SimpleTypeName, Type, Variant,
};
use mirror_mirror::{Reflect, TypeDescriptor};
use simrt::violate;

pub fn scalar_tag(s: ScalarType) -> Option<T> {
    Some(match s {
        ScalarType::usize => T::Usize,
        ScalarType::u8 => T::U8,
        ScalarType::u16 => T::U16,
        ScalarType::u32 => T::U32,
        ScalarType::u64 => T::U64,
        ScalarType::u128 => T::U128,
        ScalarType::i8 => T::I8,
        ScalarType::i16 => T::I16,
        ScalarType::i32 => T::I32,
        ScalarType::i64 => T::I64,
        ScalarType::i128 => T::I128,
        ScalarType::bool => T::Bool,
        ScalarType::char => T::Char,
        ScalarType::f32 => T::F32,
        ScalarType::f64 => T::F64,
        ScalarType::String => return None,
    })
}

/// What documentation and metadata the declarations carry: type, variant, field.
struct Note {
    ty: &'static str,
    variant: &'static str,
    field: &'static str,
    docs: &'static [&'static str],
    meta: fn() -> Vec<(&'static str, M)>,
}
const NOTES: &[Note] = &[
    Note {
        ty: "harness::types::Player",
        variant: "",
        field: "",
        docs: &[" A player."],
        meta: || vec![("rank", int(T::I32, 3)), ("tag", M::Str("player".into()))],
    },
    Note {
        ty: "harness::types::Player",
        variant: "",
        field: "name",
        docs: &[" shown above", "  the head"],
        meta: || vec![("max", int(T::Usize, 12)), ("min", int(T::Usize, 1))],
    },
    Note {
        ty: "harness::types::Item",
        variant: "",
        field: "2",
        docs: &[" label"],
        meta: || vec![("label", M::Sc(T::Bool, 1))],
    },
    Note {
        ty: "harness::types::Shape",
        variant: "",
        field: "",
        docs: &[" A shape"],
        meta: || vec![("sides", int(T::I32, -1))],
    },
    Note {
        ty: "harness::types::Shape",
        variant: "Circle",
        field: "",
        docs: &[" round"],
        meta: || vec![("round", M::Sc(T::Bool, 1))],
    },
    Note {
        ty: "harness::types::Shape",
        variant: "Rect",
        field: "h",
        docs: &[" up"],
        meta: || vec![("unit", M::Str("m".into()))],
    },
    Note {
        ty: "harness::types::Noted",
        variant: "",
        field: "",
        docs: &[" Noted in", "", " three lines."],
        meta: || {
            vec![
                ("text", M::Str("t".into())),
                ("list", M::List(vec![int(T::U8, 1), int(T::U8, 2)])),
                (
                    "opt",
                    M::Enum("Some".into(), K::Tuple(vec![int(T::I64, -1)])),
                ),
                (
                    "item",
                    M::TStruct(vec![
                        int(T::U32, 7),
                        M::Str("i".into()),
                        M::Enum("None".into(), K::Unit),
                    ]),
                ),
                ("flag", M::Enum("On".into(), K::Unit)),
                (
                    "pair",
                    M::Tuple(vec![
                        M::Sc(T::F32, 1.5_f32.to_bits() as u128),
                        M::Sc(T::Char, 'c' as u128),
                    ]),
                ),
            ]
        },
    },
    Note {
        ty: "harness::types::Noted",
        variant: "Bare",
        field: "",
        docs: &[" unit", "  variant"],
        meta: || vec![("a", int(T::I32, 1)), ("b", M::Str("unit".into()))],
    },
    Note {
        ty: "harness::types::Noted",
        variant: "Pair",
        field: "",
        docs: &[" one"],
        meta: || vec![("a", int(T::U8, 2))],
    },
    Note {
        ty: "harness::types::Noted",
        variant: "Pair",
        field: "a",
        docs: &[" left"],
        meta: || vec![("a", int(T::I32, 3)), ("c", M::Sc(T::Bool, 0))],
    },
    Note {
        ty: "harness::types::Noted",
        variant: "Pair",
        field: "c",
        docs: &[" right", " side"],
        meta: || vec![("b", int(T::I8, 4))],
    },
    Note {
        ty: "harness::types::Noted",
        variant: "Rec",
        field: "",
        docs: &[" three"],
        meta: || vec![],
    },
    Note {
        ty: "harness::types::Noted",
        variant: "Rec",
        field: "x",
        docs: &[" x"],
        meta: || vec![("a", int(T::I32, 5))],
    },
    Note {
        ty: "harness::types::Noted",
        variant: "Plain",
        field: "",
        docs: &[],
        meta: || vec![("c", M::Sc(T::Bool, 1))],
    },
    Note {
        ty: "harness::types::Noted",
        variant: "Nil",
        field: "",
        docs: &[" five"],
        meta: || vec![],
    },
    Note {
        ty: "harness::types::NotedT",
        variant: "",
        field: "",
        docs: &[" A tuple", " struct"],
        meta: || vec![("text", M::Str("u".into())), ("a", int(T::I32, 6))],
    },
    Note {
        ty: "harness::types::NotedT",
        variant: "",
        field: "1",
        docs: &[" first"],
        meta: || vec![("a", int(T::I32, 7))],
    },
    Note {
        ty: "harness::types::NotedT",
        variant: "",
        field: "3",
        docs: &[" last"],
        meta: || vec![("b", int(T::I32, 8)), ("c", int(T::I32, 9))],
    },
    Note {
        ty: "harness::types::NotedU",
        variant: "",
        field: "",
        docs: &[" A unit struct"],
        meta: || vec![("a", M::Str("unit".into())), ("c", M::Tuple(vec![]))],
    },
];
const META_KEYS: &[&str] = &[
    "rank", "tag", "max", "min", "label", "sides", "round", "unit", "text", "list", "opt", "item",
    "flag", "pair", "a", "b", "c", "", "nope",
];

fn notes<'a>(what: impl GetMeta<'a> + Copy, ty: &str, variant: &str, field: &str) {
    let n = NOTES
        .iter()
        .find(|n| n.ty == ty && n.variant == variant && n.field == field);
    let docs: Vec<&str> = what.docs().iter().map(|s| s.as_str()).collect();
    let want: &[&str] = n.map_or(&[], |n| n.docs);
    if docs != want {
        violate!(
            "description",
            "{ty}::{variant}.{field}: docs are {docs:?}, not {want:?}"
        );
    }
    let meta = n.map_or(vec![], |n| (n.meta)());
    for k in META_KEYS {
        let got = what.meta(k).map(conv::read);
        let want = meta.iter().find(|(x, _)| x == k).map(|(_, v)| v.clone());
        if got != want {
            violate!(
                "description",
                "{ty}::{variant}.{field}: meta {k:?} is {got:?}, not {want:?}"
            );
        }
    }
}

fn bad(s: &S, what: &str) -> ! {
    violate!("description", "the description of {}: {what}", s.name)
}

fn default_of(s: &S, got: Option<mirror_mirror::Value>, has: bool) {
    let want = dflt(s, 0);
    let g = got.as_ref().map(conv::norm_value);
    if g != want {
        bad(
            s,
            &format!(
                "default is {:?}, not {:?}",
                g.as_ref().map(show),
                want.as_ref().map(show)
            ),
        );
    }
    if has != want.is_some() {
        bad(
            s,
            &format!(
                "says {has} when asked for having a default, which it {}",
                want.is_some()
            ),
        );
    }
}

/// Walks the whole description and compares it with the declaration.
pub fn check(t: Type<'_>, s: &S, seen: &mut Vec<std::any::TypeId>) {
    if seen.contains(&s.id) {
        return;
    }
    seen.push(s.id);
    if t.type_name() != s.name {
        bad(s, &format!("type name {}", t.type_name()));
    }
    let is = [
        t.as_struct().is_some(),
        t.as_tuple_struct().is_some(),
        t.as_tuple().is_some(),
        t.as_enum().is_some(),
        t.as_list().is_some(),
        t.as_array().is_some(),
        t.as_map().is_some(),
        t.as_scalar().is_some(),
        t.as_opaque().is_some(),
    ];
    let want = match s.k {
        SK::Struct(_) => 0,
        SK::TStruct(_) => 1,
        SK::Tuple(_) => 2,
        SK::Enum(_) => 3,
        SK::List(_) => 4,
        SK::Arr(..) => 5,
        SK::Map(..) => 6,
        SK::Sc(_) | SK::Str => 7,
        SK::NonZero(_) | SK::Dur | SK::Any => 8,
    };
    if is.iter().enumerate().any(|(i, x)| *x != (i == want)) {
        bad(s, &format!("kind answers {is:?} where only {want} applies"));
    }
    default_of(s, t.default_value(), t.has_default_value());
    notes(t, s.name, "", "");
    match (&s.k, t) {
        (SK::Sc(x), Type::Scalar(y)) if scalar_tag(y) == Some(*x) => {}
        (SK::Str, Type::Scalar(ScalarType::String)) => {}
        (SK::NonZero(_) | SK::Dur | SK::Any, Type::Opaque(_)) => {}
        (SK::Struct(fs), Type::Struct(st)) => {
            let fs: Vec<&F> = fs.iter().filter(|f| f.skip.is_none()).collect();
            if st.fields_len() != fs.len() || st.field_types().count() != fs.len() {
                bad(s, &format!("{} fields", st.fields_len()));
            }
            for (i, (f, d)) in fs.iter().zip(st.field_types()).enumerate() {
                if d.name() != f.name
                    || st.field_type_at(i) != Some(d)
                    || st.field_type(f.name) != Some(d)
                {
                    bad(s, &format!("field {i} is {}, not {}", d.name(), f.name));
                }
                notes(d, s.name, "", f.name);
                check(d.get_type(), &(f.ty)(), seen);
            }
            if st.field_type_at(fs.len()).is_some() || st.field_type("\0").is_some() {
                bad(s, "a field that does not exist");
            }
        }
        (SK::TStruct(fs), Type::TupleStruct(st)) => {
            let fs: Vec<&F> = fs.iter().filter(|f| f.skip.is_none()).collect();
            if st.fields_len() != fs.len() || st.field_types().count() != fs.len() {
                bad(s, &format!("{} fields", st.fields_len()));
            }
            for (i, (f, d)) in fs.iter().zip(st.field_types()).enumerate() {
                if st.field_type_at(i) != Some(d) {
                    bad(s, &format!("field {i}"));
                }
                notes(d, s.name, "", f.name);
                check(d.get_type(), &(f.ty)(), seen);
            }
            if st.field_type_at(fs.len()).is_some() {
                bad(s, "a field that does not exist");
            }
        }
        (SK::Tuple(ts), Type::Tuple(tt)) => {
            if tt.fields_len() != ts.len() || tt.field_types().count() != ts.len() {
                bad(s, &format!("{} fields", tt.fields_len()));
            }
            for (i, (f, d)) in ts.iter().zip(tt.field_types()).enumerate() {
                if tt.field_type_at(i) != Some(d) {
                    bad(s, &format!("field {i}"));
                }
                check(d.get_type(), &f(), seen);
            }
            if tt.field_type_at(ts.len()).is_some() {
                bad(s, "a field that does not exist");
            }
        }
        (SK::Enum(vs), Type::Enum(e)) => {
            if e.variants_len() != vs.len() || e.variants().count() != vs.len() {
                bad(s, &format!("{} variants", e.variants_len()));
            }
            for (v, d) in vs.iter().zip(e.variants()) {
                if d.name() != v.name
                    || e.variant(v.name) != Some(d)
                    || d.type_name() != s.name
                    || d.enum_type() != e
                {
                    bad(s, &format!("variant {} is not {}", d.name(), v.name));
                }
                notes(d, s.name, v.name, "");
                let want = dflt_variant(v, 0);
                let got = d.default_value().as_ref().map(conv::norm_value);
                if got != want {
                    bad(s, &format!("default of variant {}", v.name));
                }
                let fs: Vec<&F> = match &v.k {
                    VK::Unit => vec![],
                    VK::Tuple(f) | VK::Struct(f) => f.iter().filter(|f| f.skip.is_none()).collect(),
                };
                if !matches!(
                    (&v.k, d),
                    (VK::Unit, Variant::Unit(_))
                        | (VK::Tuple(_), Variant::Tuple(_))
                        | (VK::Struct(_), Variant::Struct(_))
                ) {
                    bad(s, &format!("kind of variant {}", v.name));
                }
                if d.fields_len() != fs.len() || d.field_types().count() != fs.len() {
                    bad(
                        s,
                        &format!("{} fields in variant {}", d.fields_len(), v.name),
                    );
                }
                for (i, (f, x)) in fs.iter().zip(d.field_types()).enumerate() {
                    if d.field_type_at(i) != Some(x) {
                        bad(s, &format!("field {i} of variant {}", v.name));
                    }
                    let named = matches!(v.k, VK::Struct(_));
                    if x.name() != named.then_some(f.name)
                        || d.field_type(f.name).is_some() != named
                    {
                        bad(
                            s,
                            &format!(
                                "field {i} of variant {} is {:?}, not {}",
                                v.name,
                                x.name(),
                                f.name
                            ),
                        );
                    }
                    notes(x, s.name, v.name, f.name);
                    check(x.get_type(), &(f.ty)(), seen);
                }
                if d.field_type_at(fs.len()).is_some() || d.field_type("\0").is_some() {
                    bad(s, "a variant field that does not exist");
                }
            }
            if e.variant("\0").is_some() {
                bad(s, "a variant that does not exist");
            }
        }
        (SK::List(e), Type::List(l)) => check(l.element_type(), &e(), seen),
        (SK::Arr(e, n), Type::Array(l)) => {
            if l.len() != *n || l.is_empty() != (*n == 0) {
                bad(s, &format!("length {}", l.len()));
            }
            check(l.element_type(), &e(), seen)
        }
        (SK::Map(k, v), Type::Map(m)) => {
            check(m.key_type(), &k(), seen);
            check(m.value_type(), &v(), seen);
        }
        _ => bad(s, "scalar type"),
    }
}

pub fn check_all(d: &TypeDescriptor, s: &S) {
    check(d.get_type(), s, &mut vec![]);
    let t = d.get_type();
    if d.type_name() != s.name
        || d.default_value() != t.default_value()
        || d.has_default_value() != t.has_default_value()
        || d.docs() != t.docs()
    {
        bad(s, "the descriptor and its type answer differently");
    }
}

/// Everything the description can be asked, as text.
pub fn answers(d: &TypeDescriptor) -> String {
    let mut out = String::new();
    let mut seen = vec![];
    ask(d.get_type(), &mut seen, &mut out, 0);
    out += &format!("pretty {}\n", d.get_type().pretty_print_root());
    out += &format!("debug {:?}\n", d);
    out
}

fn meta_of<'a>(x: impl GetMeta<'a> + Copy, out: &mut String) {
    for k in META_KEYS {
        if let Some(m) = x.meta(k) {
            *out += &format!(" {k}={}", show(&conv::read(m)));
        }
    }
    *out += &format!(" {:?}\n", x.docs());
}

fn ask(t: Type<'_>, seen: &mut Vec<String>, out: &mut String, depth: usize) {
    let name = t.type_name().to_string();
    *out += &format!("{:depth$}{name}", "");
    if let Some(s) = SimpleTypeName::new(t.type_name()) {
        *out += &format!(" ({s})");
    }
    // (two types may have the same name)
    if seen.iter().filter(|n| **n == name).count() > name.ends_with("::Same") as usize {
        *out += "\n";
        return;
    }
    seen.push(name);
    *out += &format!(
        " {:?} {}",
        t.default_value()
            .as_ref()
            .map(|v| show(&conv::norm_value(v))),
        t.has_default_value()
    );
    meta_of(t, out);
    let d = depth + 1;
    match t {
        Type::Struct(s) => {
            for f in s.field_types() {
                *out += &format!("{:depth$}.{}", "", f.name());
                meta_of(f, out);
                ask(f.get_type(), seen, out, d);
            }
        }
        Type::TupleStruct(s) => {
            for f in s.field_types() {
                *out += ".";
                meta_of(f, out);
                ask(f.get_type(), seen, out, d);
            }
        }
        Type::Tuple(s) => {
            for f in s.field_types() {
                *out += ".";
                meta_of(f, out);
                ask(f.get_type(), seen, out, d);
            }
        }
        Type::Enum(e) => {
            for v in e.variants() {
                *out += &format!(
                    "::{} {} {:?}",
                    v.name(),
                    v.fields_len(),
                    v.default_value()
                        .as_ref()
                        .map(|v| show(&conv::norm_value(v)))
                );
                meta_of(v, out);
                for f in v.field_types() {
                    *out += &format!(".{:?}", f.name());
                    meta_of(f, out);
                    ask(f.get_type(), seen, out, d);
                }
            }
        }
        Type::List(l) => ask(l.element_type(), seen, out, d),
        Type::Array(a) => {
            *out += &format!("len {}\n", a.len());
            ask(a.element_type(), seen, out, d)
        }
        Type::Map(m) => {
            ask(m.key_type(), seen, out, d);
            ask(m.value_type(), seen, out, d);
        }
        Type::Scalar(_) | Type::Opaque(_) => {}
    }
}

/// Where a path leads in the description, as text.
pub fn at_text(d: &TypeDescriptor, path: &[Kx]) -> String {
    at_of(d.type_at(&conv::key_path_plain(path)))
}
fn at_of(t: Option<mirror_mirror::type_info::TypeAtPath<'_>>) -> String {
    match t {
        None => "nothing".into(),
        Some(t) => {
            let mut s = format!(
                "{} {:?} {}",
                t.type_name(),
                t.default_value()
                    .as_ref()
                    .map(|v| show(&conv::norm_value(v))),
                t.has_default_value()
            );
            s += &format!(
                " {}{}{}{}{}{}{}{}{}{}",
                t.as_struct().is_some() as u8,
                t.as_tuple_struct().is_some() as u8,
                t.as_tuple().is_some() as u8,
                t.as_enum().is_some() as u8,
                t.as_variant().is_some() as u8,
                t.as_list().is_some() as u8,
                t.as_array().is_some() as u8,
                t.as_map().is_some() as u8,
                t.as_scalar().is_some() as u8,
                t.as_opaque().is_some() as u8
            );
            meta_of(t, &mut s);
            s
        }
    }
}

/// The same, going there in two steps, the second by the concrete type the first arrives at.
pub fn at_text_split(d: &TypeDescriptor, path: &[Kx], k: usize) -> Option<String> {
    use mirror_mirror::type_info::TypeAtPath as A;
    let p = conv::key_path_plain(&path[k..]);
    let t = d.get_type().type_at(&conv::key_path_plain(&path[..k]))?;
    if t.type_at(&Default::default()) != Some(t) {
        violate!(
            "description",
            "the path to nowhere leads somewhere from {}",
            t.type_name()
        );
    }
    let via = match t {
        A::Struct(x) => x.type_at(&p),
        A::TupleStruct(x) => x.type_at(&p),
        A::Tuple(x) => x.type_at(&p),
        A::Enum(x) => x.type_at(&p),
        A::Variant(x) => x.type_at(&p),
        A::List(x) => x.type_at(&p),
        A::Array(x) => Type::Array(x).type_at(&p),
        A::Map(x) => x.type_at(&p),
        A::Scalar(x) => x.type_at(&p),
        A::Opaque(x) => Type::Opaque(x).type_at(&p),
    };
    if via != t.type_at(&p) {
        violate!(
            "description",
            "two ways from {} along {} differ",
            t.type_name(),
            show_path(&path[k..])
        );
    }
    Some(at_of(via))
}

/// A description of its own for the type at a path.
pub fn part(d: &TypeDescriptor, path: &[Kx], direct: bool) -> Option<TypeDescriptor> {
    use mirror_mirror::type_info::TypeAtPath as A;
    let t = d.type_at(&conv::key_path_plain(path))?;
    Some(match t {
        A::Struct(x) if direct => x.into_type_descriptor(),
        A::TupleStruct(x) if direct => x.into_type_descriptor(),
        A::Tuple(x) if direct => x.into_type_descriptor(),
        A::Enum(x) if direct => x.into_type_descriptor(),
        A::Variant(x) if direct => x.enum_type().into_type_descriptor(),
        A::List(x) if direct => x.into_type_descriptor(),
        A::Array(x) if direct => x.into_type_descriptor(),
        A::Map(x) if direct => x.into_type_descriptor(),
        A::Opaque(x) if direct => x.into_type_descriptor(),
        A::Struct(x) => Type::Struct(x).into_type_descriptor().into_owned(),
        A::TupleStruct(x) => Type::TupleStruct(x).into_type_descriptor().into_owned(),
        A::Tuple(x) => Type::Tuple(x).into_type_descriptor().into_owned(),
        A::Enum(x) => Type::Enum(x).into_type_descriptor().into_owned(),
        A::Variant(x) => Type::Enum(x.enum_type())
            .into_type_descriptor()
            .into_owned(),
        A::List(x) => Type::List(x).into_type_descriptor().into_owned(),
        A::Array(x) => Type::Array(x).into_type_descriptor().into_owned(),
        A::Map(x) => Type::Map(x).into_type_descriptor().into_owned(),
        A::Scalar(x) => Type::Scalar(x).into_type_descriptor().into_owned(),
        A::Opaque(x) => Type::Opaque(x).into_type_descriptor().into_owned(),
    })
}

#[allow(unused)]
fn _r(_: &dyn Reflect) {}
