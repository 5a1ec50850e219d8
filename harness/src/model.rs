//! The reference model: plain trees, schemas written down by hand, and what every operation means.
//! Nothing in here calls the library.
use simrt::{chance, draw, draw64};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum T {
    Usize,
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
    Bool,
    Char,
    F32,
    F64,
}
pub const ALL_T: [T; 15] = [
    T::I32,
    T::Usize,
    T::U8,
    T::U16,
    T::U32,
    T::U64,
    T::U128,
    T::I8,
    T::I16,
    T::I64,
    T::I128,
    T::Bool,
    T::Char,
    T::F32,
    T::F64,
];

/// A document or a part of one. `Sc` holds the bits of the scalar (sign extended for integers).
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum M {
    Sc(T, u128),
    Str(String),
    Struct(Vec<(String, M)>),
    TStruct(Vec<M>),
    Tuple(Vec<M>),
    Enum(String, K),
    List(Vec<M>),
    Map(Vec<(M, M)>),
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum K {
    Unit,
    Tuple(Vec<M>),
    Struct(Vec<(String, M)>),
}

pub fn int(t: T, v: i128) -> M {
    M::Sc(t, v as u128)
}

pub type SF = fn() -> S;

/// What a type is, as declared.
#[derive(Clone)]
pub struct S {
    pub name: &'static str,
    /// types may have the same name
    pub id: std::any::TypeId,
    pub k: SK,
}
#[derive(Clone)]
pub enum SK {
    Sc(T),
    Str,
    NonZero(T),
    Dur,
    Struct(Vec<F>),
    TStruct(Vec<F>),
    Tuple(Vec<SF>),
    Enum(Vec<V>),
    List(SF),
    Arr(SF, usize),
    Map(SF, SF),
    /// dynamically typed
    Any,
}
#[derive(Clone)]
pub struct F {
    pub name: &'static str,
    pub ty: SF,
    /// skipped, with this default
    pub skip: Option<fn() -> M>,
    /// custom conversion
    pub with: Option<fn(&M) -> Option<M>>,
}
#[derive(Clone)]
pub struct V {
    pub name: &'static str,
    pub k: VK,
}
#[derive(Clone)]
pub enum VK {
    Unit,
    Tuple(Vec<F>),
    Struct(Vec<F>),
}

pub fn any() -> S {
    S {
        name: "mirror_mirror::value::Value",
        id: std::any::TypeId::of::<mirror_mirror::Value>(),
        k: SK::Any,
    }
}

/// One step of a path.
#[derive(Clone, PartialEq, Debug)]
pub enum Kx {
    Name(String),
    Num(usize),
    Get(M),
    Var(String),
}

// ---------------------------------------------------------------------------------------------
// scalars

pub fn width(t: T) -> u32 {
    match t {
        T::U8 | T::I8 => 8,
        T::U16 | T::I16 => 16,
        T::U32 | T::I32 | T::F32 | T::Char => 32,
        T::Usize | T::U64 | T::I64 | T::F64 => 64,
        T::U128 | T::I128 => 128,
        T::Bool => 1,
    }
}
pub fn signed(t: T) -> bool {
    matches!(t, T::I8 | T::I16 | T::I32 | T::I64 | T::I128)
}
pub fn is_int(t: T) -> bool {
    !matches!(t, T::Bool | T::Char | T::F32 | T::F64)
}
/// The bits as stored in `M::Sc`.
pub fn norm_bits(t: T, b: u128) -> u128 {
    let w = width(t);
    if w == 128 {
        return b;
    }
    if signed(t) {
        let s = 128 - w;
        (((b << s) as i128) >> s) as u128
    } else {
        b & ((1u128 << w) - 1)
    }
}

fn f32_of(b: u128) -> f32 {
    f32::from_bits(b as u32)
}
fn f64_of(b: u128) -> f64 {
    f64::from_bits(b as u64)
}

/// Equality of dynamic values: floats by number, all NaNs equal; everything else by content.
pub fn veq(a: &M, b: &M) -> bool {
    feq(a, b, true)
}

/// Equality by content, floats as numbers; `nan` is what comparing two NaNs gives.
pub fn feq(a: &M, b: &M, nan: bool) -> bool {
    match (a, b) {
        (M::Sc(T::F32, x), M::Sc(T::F32, y)) => {
            let (x, y) = (f32_of(*x), f32_of(*y));
            x == y || (nan && x.is_nan() && y.is_nan())
        }
        (M::Sc(T::F64, x), M::Sc(T::F64, y)) => {
            let (x, y) = (f64_of(*x), f64_of(*y));
            x == y || (nan && x.is_nan() && y.is_nan())
        }
        (M::Struct(x), M::Struct(y)) => feq_named(x, y, nan),
        (M::TStruct(x), M::TStruct(y)) | (M::Tuple(x), M::Tuple(y)) | (M::List(x), M::List(y)) => {
            feq_list(x, y, nan)
        }
        (M::Enum(n, x), M::Enum(o, y)) => {
            n == o
                && match (x, y) {
                    (K::Unit, K::Unit) => true,
                    (K::Tuple(x), K::Tuple(y)) => feq_list(x, y, nan),
                    (K::Struct(x), K::Struct(y)) => feq_named(x, y, nan),
                    _ => false,
                }
        }
        (M::Map(x), M::Map(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, v)| match map_find(y, k) {
                    Some(i) => feq(v, &y[i].1, nan) && feq(k, &y[i].0, nan),
                    None => false,
                })
        }
        _ => a == b,
    }
}
fn feq_list(x: &[M], y: &[M], nan: bool) -> bool {
    x.len() == y.len() && x.iter().zip(y).all(|(a, b)| feq(a, b, nan))
}
fn feq_named(x: &[(String, M)], y: &[(String, M)], nan: bool) -> bool {
    x.len() == y.len()
        && x.iter()
            .zip(y)
            .all(|((n, a), (o, b))| n == o && feq(a, b, nan))
}

pub fn map_find(m: &[(M, M)], k: &M) -> Option<usize> {
    m.iter().position(|(x, _)| veq(x, k))
}

/// Brings maps into a canonical order.
pub fn norm(m: &mut M) {
    match m {
        M::Sc(..) | M::Str(_) => {}
        M::Struct(f) | M::Enum(_, K::Struct(f)) => f.iter_mut().for_each(|(_, v)| norm(v)),
        M::TStruct(f) | M::Tuple(f) | M::List(f) | M::Enum(_, K::Tuple(f)) => {
            f.iter_mut().for_each(norm)
        }
        M::Enum(_, K::Unit) => {}
        M::Map(e) => {
            e.iter_mut().for_each(|(k, v)| {
                norm(k);
                norm(v)
            });
            e.sort();
        }
    }
}

pub fn size(m: &M) -> usize {
    1 + match m {
        M::Sc(..) | M::Str(_) | M::Enum(_, K::Unit) => 0,
        M::Struct(f) | M::Enum(_, K::Struct(f)) => f.iter().map(|(_, v)| size(v)).sum(),
        M::TStruct(f) | M::Tuple(f) | M::List(f) | M::Enum(_, K::Tuple(f)) => {
            f.iter().map(size).sum()
        }
        M::Map(e) => e.iter().map(|(k, v)| size(k) + size(v)).sum(),
    }
}

pub fn hash(m: &M) -> u64 {
    fn go(h: u64, m: &M) -> u64 {
        use simrt::mix;
        match m {
            M::Sc(t, b) => mix(mix(mix(h, 1 + *t as u64), *b as u64), (*b >> 64) as u64),
            M::Str(s) => mix(simrt::fnv(h, s.as_bytes()), 20),
            M::Struct(f) => f
                .iter()
                .fold(mix(h, 21), |h, (n, v)| go(simrt::fnv(h, n.as_bytes()), v)),
            M::TStruct(f) => f.iter().fold(mix(h, 22), go),
            M::Tuple(f) => f.iter().fold(mix(h, 23), go),
            M::List(f) => f.iter().fold(mix(h, 24 + ((f.len() as u64) << 8)), go),
            M::Map(e) => e
                .iter()
                .fold(mix(h, 25 + ((e.len() as u64) << 8)), |h, (k, v)| {
                    go(go(h, k), v)
                }),
            M::Enum(n, k) => {
                let h = mix(simrt::fnv(h, n.as_bytes()), 26);
                match k {
                    K::Unit => h,
                    K::Tuple(f) => f.iter().fold(mix(h, 27), go),
                    K::Struct(f) => f
                        .iter()
                        .fold(mix(h, 28), |h, (n, v)| go(simrt::fnv(h, n.as_bytes()), v)),
                }
            }
        }
    }
    go(simrt::FNV0, m)
}

/// The dynamic form: skipped fields left out.
pub fn view(s: &S, m: &M) -> M {
    fn fields(fs: &[F], ms: &[(String, M)]) -> Vec<(String, M)> {
        fs.iter()
            .zip(ms)
            .filter(|(f, _)| f.skip.is_none())
            .map(|(f, (n, m))| (n.clone(), view(&(f.ty)(), m)))
            .collect()
    }
    fn pos(fs: &[F], ms: &[M]) -> Vec<M> {
        fs.iter()
            .zip(ms)
            .filter(|(f, _)| f.skip.is_none())
            .map(|(f, m)| view(&(f.ty)(), m))
            .collect()
    }
    match (&s.k, m) {
        (SK::Struct(fs), M::Struct(ms)) => M::Struct(fields(fs, ms)),
        (SK::TStruct(fs), M::TStruct(ms)) => M::TStruct(pos(fs, ms)),
        (SK::Tuple(ts), M::Tuple(ms)) => {
            M::Tuple(ts.iter().zip(ms).map(|(t, m)| view(&t(), m)).collect())
        }
        (SK::Enum(vs), M::Enum(n, k)) => {
            let v = vs.iter().find(|v| v.name == n).unwrap();
            M::Enum(
                n.clone(),
                match (&v.k, k) {
                    (VK::Unit, K::Unit) => K::Unit,
                    (VK::Tuple(fs), K::Tuple(ms)) => K::Tuple(pos(fs, ms)),
                    (VK::Struct(fs), K::Struct(ms)) => K::Struct(fields(fs, ms)),
                    _ => unreachable!(),
                },
            )
        }
        (SK::List(t) | SK::Arr(t, _), M::List(ms)) => {
            M::List(ms.iter().map(|m| view(&t(), m)).collect())
        }
        (SK::Map(k, v), M::Map(e)) => {
            let mut r = M::Map(
                e.iter()
                    .map(|(a, b)| (view(&k(), a), view(&v(), b)))
                    .collect(),
            );
            norm(&mut r);
            r
        }
        _ => m.clone(),
    }
}

pub fn quantize_secs(bits: u128) -> Option<u128> {
    let f = f32_of(bits);
    if f >= 0.0 && f < 18446744073709551616.0 {
        Some(Duration::from_secs_f32(f).as_secs_f32().to_bits() as u128)
    } else {
        None
    }
}

fn named<'a>(v: &'a [(String, M)], n: &str) -> Option<&'a M> {
    v.iter().find(|(x, _)| x == n).map(|(_, v)| v)
}

/// Field `i` of a dynamic variant, by position.
fn kind_at(k: &K, i: usize) -> Option<&M> {
    match k {
        K::Unit => None,
        K::Tuple(f) => f.get(i),
        K::Struct(f) => f.get(i).map(|(_, v)| v),
    }
}
fn kind_named<'a>(k: &'a K, n: &str) -> Option<&'a M> {
    match k {
        K::Struct(f) => named(f, n),
        _ => None,
    }
}

fn conv_named<'a>(fs: &[F], get: impl Fn(&str) -> Option<&'a M>) -> Option<Vec<(String, M)>> {
    fs.iter()
        .map(|f| {
            Some((
                f.name.to_string(),
                match f.skip {
                    Some(d) => d(),
                    None => {
                        let v = get(f.name)?;
                        match f.with {
                            Some(w) => w(v)?,
                            None => from_v(&(f.ty)(), v)?,
                        }
                    }
                },
            ))
        })
        .collect()
}
fn conv_pos<'a>(fs: &[F], get: impl Fn(usize) -> Option<&'a M>) -> Option<Vec<M>> {
    let mut i = 0;
    fs.iter()
        .map(|f| match f.skip {
            Some(d) => Some(d()),
            None => {
                let v = get(i)?;
                i += 1;
                match f.with {
                    Some(w) => w(v),
                    None => from_v(&(f.ty)(), v),
                }
            }
        })
        .collect()
}

/// Conversion of a dynamic value to a type.
pub fn from_v(s: &S, v: &M) -> Option<M> {
    match (&s.k, v) {
        (SK::Any, _) => Some(v.clone()),
        (SK::Sc(t), M::Sc(u, _)) if t == u => Some(v.clone()),
        (SK::Str, M::Str(_)) => Some(v.clone()),
        (SK::NonZero(t), M::Sc(u, b)) if t == u && *b != 0 => Some(v.clone()),
        (SK::Dur, M::Sc(T::F32, b)) => Some(M::Sc(T::F32, quantize_secs(*b)?)),
        (SK::Struct(fs), M::Struct(ms)) => Some(M::Struct(conv_named(fs, |n| named(ms, n))?)),
        (SK::TStruct(fs), M::TStruct(ms)) => Some(M::TStruct(conv_pos(fs, |i| ms.get(i))?)),
        (SK::Tuple(ts), M::Tuple(ms)) => {
            let mut out = vec![];
            for (i, t) in ts.iter().enumerate() {
                out.push(from_v(&t(), ms.get(i)?)?);
            }
            Some(M::Tuple(out))
        }
        (SK::Enum(vs), M::Enum(n, k)) => {
            let var = vs.iter().find(|v| v.name == n)?;
            Some(M::Enum(
                n.clone(),
                match &var.k {
                    VK::Unit => K::Unit,
                    VK::Tuple(fs) => K::Tuple(conv_pos(fs, |i| kind_at(k, i))?),
                    VK::Struct(fs) => K::Struct(conv_named(fs, |n| kind_named(k, n))?),
                },
            ))
        }
        (SK::List(t), M::List(ms)) => Some(M::List(
            ms.iter().map(|m| from_v(&t(), m)).collect::<Option<_>>()?,
        )),
        (SK::Arr(t, n), M::List(ms)) => {
            let l: Vec<M> = ms.iter().map(|m| from_v(&t(), m)).collect::<Option<_>>()?;
            (l.len() == *n).then_some(M::List(l))
        }
        (SK::Map(kt, vt), M::Map(e)) => {
            let mut out: Vec<(M, M)> = vec![];
            for (k, v) in e {
                let k = from_v(&kt(), k)?;
                let v = from_v(&vt(), v)?;
                match map_find(&out, &k) {
                    Some(i) => out[i].1 = v,
                    None => out.push((k, v)),
                }
            }
            out.sort();
            Some(M::Map(out))
        }
        _ => None,
    }
}

fn patch_pos<'a>(fs: &[F], ms: &mut [M], get: impl Fn(usize) -> Option<&'a M>) {
    let mut i = 0;
    for (f, m) in fs.iter().zip(ms) {
        if f.skip.is_none() {
            if let Some(v) = get(i) {
                patch(&(f.ty)(), m, v);
            }
            i += 1;
        }
    }
}
fn patch_named<'a>(fs: &[F], ms: &mut [(String, M)], get: impl Fn(&str) -> Option<&'a M>) {
    for (f, (_, m)) in fs.iter().zip(ms) {
        if f.skip.is_none() {
            if let Some(v) = get(f.name) {
                patch(&(f.ty)(), m, v);
            }
        }
    }
}
fn patch_list(t: SF, ms: &mut [M], vs: &[M]) {
    for (m, v) in ms.iter_mut().zip(vs) {
        patch(&t(), m, v);
    }
}

/// Merging a dynamic value into a document or a part of one.
pub fn patch(s: &S, m: &mut M, v: &M) {
    match &s.k {
        SK::Any => patch_any(m, v),
        SK::Sc(_) | SK::Str | SK::NonZero(_) | SK::Dur => {
            if let Some(n) = from_v(s, v) {
                *m = n;
            }
        }
        SK::Struct(fs) => {
            if let (M::Struct(ms), M::Struct(vs)) = (m, v) {
                patch_named(fs, ms, |n| named(vs, n));
            }
        }
        SK::TStruct(fs) => {
            if let (M::TStruct(ms), M::TStruct(vs)) = (m, v) {
                patch_pos(fs, ms, |i| vs.get(i));
            }
        }
        SK::Tuple(ts) => {
            if let (M::Tuple(ms), M::Tuple(vs)) = (m, v) {
                for ((t, m), v) in ts.iter().zip(ms).zip(vs) {
                    patch(&t(), m, v);
                }
            }
        }
        SK::Enum(vars) => {
            if let M::Enum(vn, vk) = v {
                if let Some(n) = from_v(s, v) {
                    *m = n;
                } else if let M::Enum(mn, mk) = m {
                    if mn == vn {
                        let var = vars.iter().find(|x| x.name == mn).unwrap();
                        match (&var.k, mk) {
                            (VK::Tuple(fs), K::Tuple(ms)) => patch_pos(fs, ms, |i| kind_at(vk, i)),
                            (VK::Struct(fs), K::Struct(ms)) => {
                                patch_named(fs, ms, |n| kind_named(vk, n))
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        SK::List(t) | SK::Arr(t, _) => {
            if let (M::List(ms), M::List(vs)) = (m, v) {
                patch_list(*t, ms, vs);
            }
        }
        SK::Map(kt, vt) => {
            if let (M::Map(ms), M::Map(vs)) = (m, v) {
                for (k, v) in vs {
                    if let Some(k) = from_v(&kt(), k) {
                        if let Some(i) = map_find(ms, &k) {
                            patch(&vt(), &mut ms[i].1, v);
                        }
                    }
                }
            }
        }
    }
}

fn patch_any(m: &mut M, v: &M) {
    match (m, v) {
        (M::Sc(t, b), M::Sc(u, c)) if t == u => *b = *c,
        (M::Str(s), M::Str(t)) => *s = t.clone(),
        (M::Struct(ms), M::Struct(vs)) => {
            for (n, m) in ms {
                if let Some(v) = named(vs, n) {
                    patch_any(m, v);
                }
            }
        }
        (M::TStruct(ms), M::TStruct(vs))
        | (M::Tuple(ms), M::Tuple(vs))
        | (M::List(ms), M::List(vs)) => {
            for (m, v) in ms.iter_mut().zip(vs) {
                patch_any(m, v);
            }
        }
        (m @ M::Enum(..), M::Enum(vn, vk)) => {
            let M::Enum(mn, mk) = m else { unreachable!() };
            if mn == vn {
                match mk {
                    K::Unit => {}
                    K::Tuple(ms) => {
                        for (i, m) in ms.iter_mut().enumerate() {
                            if let Some(v) = kind_at(vk, i) {
                                patch_any(m, v);
                            }
                        }
                    }
                    K::Struct(ms) => {
                        for (n, m) in ms {
                            if let Some(v) = kind_named(vk, n) {
                                patch_any(m, v);
                            }
                        }
                    }
                }
            } else {
                *m = v.clone();
            }
        }
        (M::Map(ms), M::Map(vs)) => {
            for (k, v) in vs {
                if let Some(i) = map_find(ms, k) {
                    patch_any(&mut ms[i].1, v);
                }
            }
        }
        _ => {}
    }
}

pub fn key_index(k: &M) -> Option<usize> {
    match k {
        M::Sc(t, b) if is_int(*t) => {
            if signed(*t) && (*b as i128) < 0 {
                None
            } else {
                usize::try_from(*b).ok()
            }
        }
        _ => None,
    }
}

/// What one step of a path leads to.
pub fn step<'a>(s: &S, m: &'a mut M, k: &Kx) -> Option<(S, &'a mut M)> {
    fn pos(fs: &[F], i: usize) -> Option<(usize, SF)> {
        fs.iter()
            .enumerate()
            .filter(|(_, f)| f.skip.is_none())
            .nth(i)
            .map(|(j, f)| (j, f.ty))
    }
    fn by(fs: &[F], n: &str) -> Option<(usize, SF)> {
        fs.iter()
            .enumerate()
            .find(|(_, f)| f.skip.is_none() && f.name == n)
            .map(|(j, f)| (j, f.ty))
    }
    if let SK::Any = s.k {
        return match (k, m) {
            (Kx::Name(n), M::Struct(f) | M::Enum(_, K::Struct(f))) => {
                f.iter_mut().find(|(x, _)| x == n).map(|(_, v)| (any(), v))
            }
            (Kx::Num(i), M::TStruct(f) | M::Tuple(f) | M::Enum(_, K::Tuple(f))) => {
                f.get_mut(*i).map(|v| (any(), v))
            }
            (Kx::Get(k), M::Map(e)) => map_find(e, k).map(|i| (any(), &mut e[i].1)),
            (Kx::Get(k), M::List(l)) => l.get_mut(key_index(k)?).map(|v| (any(), v)),
            (Kx::Var(n), m @ M::Enum(..)) => {
                let M::Enum(x, _) = &*m else { unreachable!() };
                (x == n).then_some((any(), m))
            }
            _ => None,
        };
    }
    match (&s.k, k, m) {
        (SK::Struct(fs), Kx::Name(n), M::Struct(ms)) => by(fs, n).map(|(j, t)| (t(), &mut ms[j].1)),
        (SK::TStruct(fs), Kx::Num(i), M::TStruct(ms)) => {
            pos(fs, *i).map(|(j, t)| (t(), &mut ms[j]))
        }
        (SK::Tuple(ts), Kx::Num(i), M::Tuple(ms)) => ts.get(*i).map(|t| (t(), &mut ms[*i])),
        (SK::Enum(vs), Kx::Name(n), M::Enum(vn, K::Struct(ms))) => {
            let v = vs.iter().find(|v| v.name == vn).unwrap();
            let VK::Struct(fs) = &v.k else { unreachable!() };
            by(fs, n).map(|(j, t)| (t(), &mut ms[j].1))
        }
        (SK::Enum(vs), Kx::Num(i), M::Enum(vn, K::Tuple(ms))) => {
            let v = vs.iter().find(|v| v.name == vn).unwrap();
            let VK::Tuple(fs) = &v.k else { unreachable!() };
            pos(fs, *i).map(|(j, t)| (t(), &mut ms[j]))
        }
        (SK::Enum(_), Kx::Var(n), m @ M::Enum(..)) => {
            let M::Enum(x, _) = &*m else { unreachable!() };
            (x == n).then_some((s.clone(), m))
        }
        (SK::List(t) | SK::Arr(t, _), Kx::Get(k), M::List(ms)) => {
            ms.get_mut(key_index(k)?).map(|m| (t(), m))
        }
        (SK::Map(kt, vt), Kx::Get(k), M::Map(e)) => {
            let k = from_v(&kt(), k)?;
            map_find(e, &k).map(|i| (vt(), &mut e[i].1))
        }
        _ => None,
    }
}

pub fn at<'a>(s: &S, m: &'a mut M, path: &[Kx]) -> Option<(S, &'a mut M)> {
    let (mut s, mut m) = (s.clone(), m);
    for k in path {
        (s, m) = step(&s, m, k)?;
    }
    Some((s, m))
}

/// The dynamic form of what is at the path.
pub fn get(s: &S, m: &M, path: &[Kx]) -> Option<M> {
    let mut c = m.clone();
    at(s, &mut c, path).map(|(s, m)| view(&s, m))
}

// ---------------------------------------------------------------------------------------------
// edits

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Patch(M),
    Push(M),
    Pop,
    Remove(usize),
    Insert(M, M),
    Delete(M),
}

/// What an edit observes.
#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    /// nothing at the path
    NotFound,
    /// not a list or not a map
    WrongKind,
    Done,
    Out(Option<M>),
}

pub fn elem(s: &S) -> Option<S> {
    match s.k {
        SK::List(t) => Some(t()),
        SK::Any => Some(any()),
        _ => None,
    }
}
pub fn entry(s: &S) -> Option<(S, S)> {
    match s.k {
        SK::Map(k, v) => Some((k(), v())),
        SK::Any => Some((any(), any())),
        _ => None,
    }
}

pub fn apply(s: &S, m: &mut M, path: &[Kx], op: &Op) -> Ret {
    let Some((s, m)) = at(s, m, path) else {
        return Ret::NotFound;
    };
    match op {
        Op::Patch(v) => {
            patch(&s, m, v);
            Ret::Done
        }
        Op::Push(v) => match (elem(&s), m) {
            (Some(t), M::List(l)) => {
                if let Some(v) = from_v(&t, v) {
                    l.push(v);
                }
                Ret::Done
            }
            _ => Ret::WrongKind,
        },
        Op::Pop => match (elem(&s), m) {
            (Some(t), M::List(l)) => Ret::Out(l.pop().map(|m| view(&t, &m))),
            _ => Ret::WrongKind,
        },
        Op::Remove(i) => match (elem(&s), m) {
            (Some(t), M::List(l)) => Ret::Out((*i < l.len()).then(|| view(&t, &l.remove(*i)))),
            _ => Ret::WrongKind,
        },
        Op::Insert(k, v) => match (entry(&s), m) {
            (Some((kt, vt)), M::Map(e)) => {
                let (Some(k), Some(v)) = (from_v(&kt, k), from_v(&vt, v)) else {
                    return Ret::Out(None);
                };
                Ret::Out(match map_find(e, &k) {
                    Some(i) => Some(view(&vt, &std::mem::replace(&mut e[i].1, v))),
                    None => {
                        e.push((k, v));
                        e.sort();
                        None
                    }
                })
            }
            _ => Ret::WrongKind,
        },
        Op::Delete(k) => match (entry(&s), m) {
            (Some((kt, vt)), M::Map(e)) => {
                let Some(k) = from_v(&kt, k) else {
                    return Ret::Out(None);
                };
                Ret::Out(map_find(e, &k).map(|i| view(&vt, &e.remove(i).1)))
            }
            _ => Ret::WrongKind,
        },
    }
}

/// The default value a description offers.
pub fn dflt(s: &S, depth: u32) -> Option<M> {
    if depth > 40 {
        return None;
    }
    let named = |fs: &[F]| -> Option<Vec<(String, M)>> {
        fs.iter()
            .filter(|f| f.skip.is_none())
            .map(|f| Some((f.name.to_string(), dflt(&(f.ty)(), depth + 1)?)))
            .collect()
    };
    let pos = |fs: &[F]| -> Option<Vec<M>> {
        fs.iter()
            .filter(|f| f.skip.is_none())
            .map(|f| dflt(&(f.ty)(), depth + 1))
            .collect()
    };
    Some(match &s.k {
        SK::Sc(t) => M::Sc(*t, 0),
        SK::Str => M::Str(String::new()),
        SK::NonZero(_) | SK::Dur | SK::Any => return None,
        SK::Struct(fs) => M::Struct(named(fs)?),
        SK::TStruct(fs) => M::TStruct(pos(fs)?),
        SK::Tuple(ts) => M::Tuple(
            ts.iter()
                .map(|t| dflt(&t(), depth + 1))
                .collect::<Option<_>>()?,
        ),
        SK::Enum(vs) => return dflt_variant(vs.first()?, depth),
        SK::List(_) => M::List(vec![]),
        SK::Arr(t, n) => M::List(
            (0..*n)
                .map(|_| dflt(&t(), depth + 1))
                .collect::<Option<_>>()?,
        ),
        SK::Map(..) => M::Map(vec![]),
    })
}
pub fn dflt_variant(v: &V, depth: u32) -> Option<M> {
    Some(M::Enum(
        v.name.to_string(),
        match &v.k {
            VK::Unit => K::Unit,
            VK::Tuple(fs) => K::Tuple(
                fs.iter()
                    .filter(|f| f.skip.is_none())
                    .map(|f| dflt(&(f.ty)(), depth + 1))
                    .collect::<Option<_>>()?,
            ),
            VK::Struct(fs) => K::Struct(
                fs.iter()
                    .filter(|f| f.skip.is_none())
                    .map(|f| Some((f.name.to_string(), dflt(&(f.ty)(), depth + 1)?)))
                    .collect::<Option<_>>()?,
            ),
        },
    ))
}

/// The leaves a visit meets, in order.
#[derive(Clone, Debug, PartialEq)]
pub enum Leaf {
    Sc(M),
    Opaque(String),
}
/// The fields that are not skipped, of a document that has the others or not.
fn kept<'a>(fs: &'a [F], ms: &'a [M]) -> impl Iterator<Item = (&'a F, &'a M)> {
    let all = ms.len() == fs.len();
    fs.iter()
        .filter(move |f| all || f.skip.is_none())
        .zip(ms)
        .filter(|(f, _)| f.skip.is_none())
}

pub fn leaves(s: &S, m: &M, out: &mut Vec<Leaf>) {
    match (&s.k, m) {
        (SK::NonZero(_) | SK::Dur | SK::Any, _) => out.push(Leaf::Opaque(s.name.to_string())),
        (SK::Sc(_) | SK::Str, m) => out.push(Leaf::Sc(m.clone())),
        (SK::Struct(fs), M::Struct(ms)) => {
            for f in fs.iter().filter(|f| f.skip.is_none()) {
                let (_, m) = ms.iter().find(|(n, _)| n == f.name).unwrap();
                leaves(&(f.ty)(), m, out);
            }
        }
        (SK::TStruct(fs), M::TStruct(ms)) => {
            for (f, m) in kept(fs, ms) {
                leaves(&(f.ty)(), m, out);
            }
        }
        (SK::Tuple(ts), M::Tuple(ms)) => ts.iter().zip(ms).for_each(|(t, m)| leaves(&t(), m, out)),
        (SK::Enum(vs), M::Enum(n, k)) => {
            let v = vs.iter().find(|v| v.name == n).unwrap();
            match (&v.k, k) {
                (VK::Tuple(fs), K::Tuple(ms)) => {
                    for (f, m) in kept(fs, ms) {
                        leaves(&(f.ty)(), m, out);
                    }
                }
                (VK::Struct(fs), K::Struct(ms)) => {
                    for f in fs.iter().filter(|f| f.skip.is_none()) {
                        let (_, m) = ms.iter().find(|(n, _)| n == f.name).unwrap();
                        leaves(&(f.ty)(), m, out);
                    }
                }
                _ => {}
            }
        }
        (SK::List(t) | SK::Arr(t, _), M::List(ms)) => ms.iter().for_each(|m| leaves(&t(), m, out)),
        (SK::Map(k, v), M::Map(e)) => {
            for (a, b) in e {
                leaves(&k(), a, out);
                leaves(&v(), b, out);
            }
        }
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------------------------------
// generation

pub fn gen_sc(t: T) -> M {
    let w = width(t);
    let b: u128 = match t {
        T::Bool => draw(2) as u128,
        T::Char => match draw(6) {
            0 => 'a' as u128 + draw(4) as u128,
            1 => 0,
            2 => 0xD7FF,
            3 => 0xE000,
            4 => 0x10FFFF,
            _ => char::from_u32(draw(0xD800)).unwrap() as u128,
        },
        T::F32 => match draw(10) {
            0 => (draw(9) as f32).to_bits() as u128,
            1 => ([
                0.0,
                1.0,
                2.0e9,
                4294967296.0,
                9007199254740993.0,
                1.0e-9,
                16777217.0,
                3.0e38,
            ][draw(8) as usize] as f32)
                .to_bits() as u128,
            2 => (-(draw(9) as f32) / 3.0).to_bits() as u128,
            3 => f32::NAN.to_bits() as u128,
            4 => (0x7fc00000u32 | draw(1 << 20)) as u128 | (draw(2) as u128) << 31,
            5 => (-0.0f32).to_bits() as u128,
            6 => f32::INFINITY.to_bits() as u128,
            7 => f32::NEG_INFINITY.to_bits() as u128,
            8 => draw(1 << 20) as u128,
            _ => draw64() as u32 as u128,
        },
        T::F64 => match draw(10) {
            0 => (draw(9) as f64).to_bits() as u128,
            1 => ([
                0.0,
                1.0,
                2.0e9,
                4294967296.0,
                9007199254740993.0,
                1.0e-9,
                16777217.0,
                3.0e38,
            ][draw(8) as usize] as f64)
                .to_bits() as u128,
            2 => (-(draw(9) as f64) / 3.0).to_bits() as u128,
            3 => f64::NAN.to_bits() as u128,
            4 => 0x7ff8_0000_0000_0000 | draw64() as u128 & 0x8007_ffff_ffff_ffff,
            5 => (-0.0f64).to_bits() as u128,
            6 => f64::INFINITY.to_bits() as u128,
            7 => f64::NEG_INFINITY.to_bits() as u128,
            8 => draw(1 << 20) as u128,
            _ => draw64() as u128,
        },
        _ => match draw(8) {
            0..=3 => draw(6) as u128,
            4 => (-(1 + draw(4) as i128)) as u128,
            5 => !0u128,
            6 => 1u128 << (w - 1),
            _ => (draw64() as u128) << 64 | draw64() as u128,
        },
    };
    M::Sc(t, norm_bits(t, b))
}

pub fn gen_str() -> String {
    match draw(8) {
        0..=4 => [
            "a",
            "b",
            "c",
            "",
            "key",
            "long string that does not fit inline",
            "x",
            "y",
        ][draw(8) as usize]
            .into(),
        5 => "é\u{1F600}\n\"\\".into(),
        6 if draw(2) == 0 => match draw(40) {
            39 => "y".repeat(65_530 + draw(12) as usize),
            _ => "z".repeat(draw(300) as usize),
        },
        6 => [
            "a\0",
            "\0",
            " a",
            "a ",
            "A",
            "\ta\n",
            "r#a",
            "0",
            "null",
            "-1",
            "1.0",
            "\u{feff}a",
            "e\u{301}",
            "\r\n",
            "true",
            "\u{1b}[0m",
        ][draw(16) as usize]
            .into(),
        _ => (0..draw(6))
            .map(|_| char::from_u32(0x20 + draw(0x300)).unwrap())
            .collect(),
    }
}

/// Small, colliding keys for maps.
pub fn gen_key(s: &S) -> M {
    match &s.k {
        SK::Str => M::Str(["a", "b", "c", "d", ""][draw(5) as usize].into()),
        SK::Sc(t) if is_int(*t) => M::Sc(*t, norm_bits(*t, draw(4) as u128)),
        SK::NonZero(t) => M::Sc(*t, 1 + draw(4) as u128),
        SK::Any => match draw(6) {
            0 | 1 => M::Str(["a", "b", "c"][draw(3) as usize].into()),
            2 => int(T::I32, draw(3) as i128 - 1),
            3 => int(ALL_T[1 + draw(10) as usize], draw(3) as i128),
            4 => {
                let (a, b) = (
                    int(T::I32, draw(2) as i128),
                    M::Str(["a", "b"][draw(2) as usize].into()),
                );
                match draw(8) {
                    0 | 1 => M::Tuple(vec![a, b]),
                    2 => M::TStruct(vec![b, a]),
                    3 => M::List(vec![a, b]),
                    4 => M::Struct(vec![("a".into(), a), ("b".into(), b)]),
                    5 => M::Enum(["A", "B"][draw(2) as usize].into(), K::Tuple(vec![a])),
                    6 => M::Enum(
                        ["A", "B"][draw(2) as usize].into(),
                        K::Struct(vec![("b".into(), b)]),
                    ),
                    _ => M::Map(vec![(a, b)]),
                }
            }
            _ => M::Enum(["A", "B"][draw(2) as usize].into(), K::Unit),
        },
        _ => gen(s, 1),
    }
}

fn gen_fields(fs: &[F], depth: u32) -> Vec<M> {
    fs.iter().map(|f| gen(&(f.ty)(), depth)).collect()
}
fn zip_names(fs: &[F], ms: Vec<M>) -> Vec<(String, M)> {
    fs.iter()
        .zip(ms)
        .map(|(f, m)| (f.name.to_string(), m))
        .collect()
}

fn len(depth: u32) -> usize {
    if depth == 0 {
        return 0;
    }
    match draw(8) {
        0 => 0,
        1..=6 => 1 + draw(3) as usize,
        _ => 4 + draw(6) as usize,
    }
}

/// Has the type no values?
fn empty(s: &S) -> bool {
    matches!(&s.k, SK::Enum(v) if v.is_empty())
}
fn impossible(v: &V) -> bool {
    match &v.k {
        VK::Unit => false,
        VK::Tuple(f) | VK::Struct(f) => f.iter().any(|f| empty(&(f.ty)())),
    }
}

fn fields_of(v: &V) -> &[F] {
    match &v.k {
        VK::Unit => &[],
        VK::Tuple(f) | VK::Struct(f) => f,
    }
}
/// The types of which every value of this type (or some, of an enum) has a value.
fn parts(s: &S) -> Vec<S> {
    match &s.k {
        SK::Struct(f) | SK::TStruct(f) => f.iter().map(|f| (f.ty)()).collect(),
        SK::Tuple(t) => t.iter().map(|t| t()).collect(),
        SK::Arr(t, n) if *n > 0 => vec![t()],
        SK::Enum(v) => v.iter().flat_map(fields_of).map(|f| (f.ty)()).collect(),
        _ => vec![],
    }
}
fn reaches(s: &S, id: std::any::TypeId, seen: &mut Vec<std::any::TypeId>) -> bool {
    if s.id == id {
        return true;
    }
    if seen.contains(&s.id) {
        return false;
    }
    seen.push(s.id);
    parts(s).iter().any(|p| reaches(p, id, seen))
}
/// How many enums the least nested value of the variant is made of; None: there is none.
fn height(v: &V, within: &mut Vec<std::any::TypeId>) -> Option<u32> {
    let mut max = 0;
    for f in fields_of(v) {
        max = max.max(height_of(&(f.ty)(), within)?);
    }
    Some(max + 1)
}
fn height_of(s: &S, within: &mut Vec<std::any::TypeId>) -> Option<u32> {
    if within.contains(&s.id) {
        return None;
    }
    within.push(s.id);
    let h = match &s.k {
        SK::Enum(vs) => vs.iter().filter_map(|v| height(v, within)).min(),
        _ => parts(s)
            .iter()
            .map(|p| height_of(p, within))
            .try_fold(0, |a, b| Some(a.max(b?))),
    };
    within.pop();
    h
}
/// The variant that ends recursion: the first one, unless it leads back to the enum.
fn shallow(s: &S, vs: &[&V]) -> usize {
    let back = |v: &V| {
        let fs = fields_of(v);
        fs.iter().any(|f| reaches(&(f.ty)(), s.id, &mut vec![]))
    };
    if !back(vs[0]) {
        return 0;
    }
    let least = |i: &usize| height(vs[*i], &mut vec![s.id]).unwrap_or(u32::MAX);
    (0..vs.len()).min_by_key(least).unwrap()
}

/// A document of the type, skipped fields included.
pub fn gen(s: &S, depth: u32) -> M {
    let d = depth.saturating_sub(1);
    match &s.k {
        SK::Any => gen_any(depth.min(2)),
        SK::Sc(t) => gen_sc(*t),
        SK::Str => M::Str(gen_str()),
        SK::NonZero(t) => match gen_sc(*t) {
            M::Sc(t, 0) => M::Sc(t, 1),
            m => m,
        },
        SK::Dur => M::Sc(
            T::F32,
            quantize_secs(match draw(4) {
                0 => (draw(5) as f32).to_bits() as u128,
                1 => (draw(1000) as f32 / 7.0).to_bits() as u128,
                2 => (draw(1000) as f32 * 1e15).to_bits() as u128,
                _ => (draw(1000) as f32 * 1e-9).to_bits() as u128,
            })
            .unwrap(),
        ),
        SK::Struct(fs) => M::Struct(zip_names(fs, gen_fields(fs, d))),
        SK::TStruct(fs) => M::TStruct(gen_fields(fs, d)),
        SK::Tuple(ts) => M::Tuple(ts.iter().map(|t| gen(&t(), d)).collect()),
        // (a value of a type without values is asked for: some other value)
        SK::Enum(vs) if vs.is_empty() => gen_any(0),
        SK::Enum(vs) => {
            let vs: Vec<&V> = vs.iter().filter(|v| !impossible(v)).collect();
            let v = &vs[if depth == 0 {
                shallow(s, &vs)
            } else {
                draw(vs.len() as u32) as usize
            }];
            M::Enum(
                v.name.to_string(),
                match &v.k {
                    VK::Unit => K::Unit,
                    VK::Tuple(fs) => K::Tuple(gen_fields(fs, d)),
                    VK::Struct(fs) => K::Struct(zip_names(fs, gen_fields(fs, d))),
                },
            )
        }
        SK::List(t) if empty(&t()) => M::List(vec![]),
        SK::List(t) => {
            let s = t();
            let n = match s.k {
                SK::Sc(_) if depth > 0 && chance(1, 100) => many(8),
                _ => len(depth),
            };
            if n > 300 {
                let some: Vec<M> = (0..31).map(|_| gen(&s, d)).collect();
                return M::List((0..n).map(|i| some[i % 31].clone()).collect());
            }
            M::List((0..n).map(|_| gen(&s, d)).collect())
        }
        SK::Arr(t, n) => M::List((0..*n).map(|_| gen(&t(), d)).collect()),
        SK::Map(k, v) => {
            let mut e: Vec<(M, M)> = vec![];
            if depth > 0 && !empty(&v()) && chance(1, 200) {
                // many entries, if the keys and values are simple
                let key: Option<fn(usize) -> M> = match k().k {
                    SK::Str => Some(|i| M::Str(format!("k{i}"))),
                    SK::Sc(T::I32) => Some(|i| int(T::I32, i as i128 - 100)),
                    SK::Sc(T::U64) => Some(|i| int(T::U64, i as i128)),
                    SK::Sc(T::U8) => Some(|i| int(T::U8, (i % 256) as i128)),
                    _ => None,
                };
                if let (Some(key), SK::Sc(_) | SK::Str) = (key, &v().k) {
                    let n = many(6);
                    let some: Vec<M> = (0..7).map(|_| gen(&v(), d)).collect();
                    e = (0..n.min(256)).map(|i| (key(i), some[i % 7].clone())).collect();
                    e.sort();
                    return M::Map(e);
                }
            }
            for _ in 0..if empty(&v()) { 0 } else { len(depth) } {
                let key = gen_key(&k());
                if map_find(&e, &key).is_none() {
                    e.push((key, gen(&v(), d)));
                }
            }
            e.sort();
            M::Map(e)
        }
    }
}

/// Names of fields: those of the declared types, some of them spelt almost the same, long ones and
/// ones whose characters take several bytes.
const NAMES: [&str; 22] = [
    "a", "b", "c", "x", "y", "start", "end", "name", "A", "Name", "x ", "", "größe", "日本語の名前", "r#a",
    "r#x", "r#name", "_a", "0", "a.b", "::a",
    "a_name_that_is_longer_than_most_buffers_somebody_might_have_chosen_for_the_names_of_fields_0123456789",
];
fn gen_name() -> String {
    match draw(8) {
        0..=5 => NAMES[draw(8) as usize].into(),
        6 => NAMES[draw(22) as usize].into(),
        // long, with characters of two, three and four bytes anywhere
        _ => (0..if chance(1, 8) {
            250 + draw(12)
        } else {
            draw(90)
        })
            .map(|_| ['a', 'b', 'é', '日', '\u{1F600}'][draw(5) as usize])
            .collect(),
    }
}
fn gen_variant(most: &[&'static str]) -> String {
    if chance(1, 8) {
        [
            "a",
            "SOME",
            "Ä",
            "",
            "AVariantWithANameThatIsLongerThanMostBuffersSomebodyMightHaveChosen",
        ][draw(5) as usize]
            .into()
    } else if chance(1, 16) {
        gen_name()
    } else {
        most[draw(most.len() as u32) as usize].into()
    }
}

/// Numbers of parts around those at which something might change.
fn many(upto: u32) -> usize {
    match draw(upto) {
        0..=2 => 250 + draw(12) as usize,
        3 => 30 + draw(5) as usize,
        4 => 62 + draw(5) as usize,
        5 => 126 + draw(5) as usize,
        6 => 1020 + draw(12) as usize,
        _ => 4093 + draw(8) as usize,
    }
}

/// A dynamic value with many parts: more than a byte can count.
fn gen_many() -> M {
    let kind = draw(7);
    let n = many(if kind == 0 {
        8
    } else if kind < 4 {
        7
    } else {
        6
    }) as u32;
    let part = |i: u32| M::Sc(T::U8, (i & 0xff) as u128);
    let all = || (0..n).map(part).collect::<Vec<M>>();
    let named = || {
        (0..n)
            .map(|i| (format!("f{i}"), part(i)))
            .collect::<Vec<(String, M)>>()
    };
    match kind {
        0 => M::List(all()),
        1 => M::TStruct(all()),
        2 => M::Tuple(all()),
        3 => M::Enum("A".into(), K::Tuple(all())),
        4 => M::Struct(named()),
        5 => M::Enum("B".into(), K::Struct(named())),
        _ => {
            let mut e: Vec<(M, M)> = (0..n).map(|i| (int(T::I32, i as i128), part(i))).collect();
            e.sort();
            M::Map(e)
        }
    }
}

/// Any dynamic value.
pub fn gen_any(depth: u32) -> M {
    let d = depth.saturating_sub(1);
    let names = |n: usize| -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            let s = gen_name();
            if !v.contains(&s) {
                v.push(s);
            }
        }
        v
    };
    if depth > 0 && chance(1, 100) {
        return gen_many();
    }
    let k = if depth == 0 { draw(3) } else { draw(12) };
    match k {
        0 | 1 => gen_sc(ALL_T[draw(15) as usize]),
        2 => M::Str(gen_str()),
        3 | 4 => M::Struct(
            names(len(depth))
                .into_iter()
                .map(|n| (n, gen_any(d)))
                .collect(),
        ),
        5 => M::TStruct((0..len(depth)).map(|_| gen_any(d)).collect()),
        6 => M::Tuple((0..len(depth)).map(|_| gen_any(d)).collect()),
        7 => M::Enum(gen_variant(&["A", "B", "None"]), K::Unit),
        8 => M::Enum(
            gen_variant(&["A", "B", "Some"]),
            K::Tuple((0..len(depth)).map(|_| gen_any(d)).collect()),
        ),
        9 => M::Enum(
            gen_variant(&["A", "B", "C"]),
            K::Struct(
                names(len(depth))
                    .into_iter()
                    .map(|n| (n, gen_any(d)))
                    .collect(),
            ),
        ),
        10 => M::List((0..len(depth)).map(|_| gen_any(d)).collect()),
        _ => {
            let mut e: Vec<(M, M)> = vec![];
            for _ in 0..len(depth) {
                let key = gen_key(&any());
                if map_find(&e, &key).is_none() {
                    e.push((key, gen_any(d)));
                }
            }
            e.sort();
            M::Map(e)
        }
    }
}

/// A value that more or less fits the type: complete, or with parts missing, added or mistyped.
pub fn gen_near(s: &S, depth: u32) -> M {
    let mut m = view(s, &gen(s, depth));
    while chance(1, 2) {
        damage(&mut m, 3);
    }
    norm(&mut m);
    m
}

/// The same number, as another type of number if it can be.
pub fn retyped(t: T, b: u128) -> M {
    match t {
        T::F32 => M::Sc(T::F64, (f32_of(b) as f64).to_bits() as u128),
        T::F64 => M::Sc(T::F32, (f64_of(b) as f32).to_bits() as u128),
        T::Bool | T::Char => M::Sc(T::U8, b & 0xff),
        _ => {
            let o = ALL_T[draw(15) as usize];
            if is_int(o) {
                M::Sc(o, norm_bits(o, b))
            } else {
                gen_sc(o)
            }
        }
    }
}

pub fn damage(m: &mut M, depth: u32) {
    fn named(f: &mut Vec<(String, M)>, depth: u32) {
        match draw(4) {
            0 if !f.is_empty() => {
                let i = draw(f.len() as u32) as usize;
                f.remove(i);
            }
            1 => {
                let n = gen_name();
                if !f.iter().any(|(x, _)| *x == n) {
                    let i = draw(f.len() as u32 + 1) as usize;
                    f.insert(i, (n, gen_any(1)));
                }
            }
            2 if f.len() > 1 => {
                let i = draw(f.len() as u32) as usize;
                let j = draw(f.len() as u32) as usize;
                f.swap(i, j);
            }
            _ if !f.is_empty() && depth > 0 => {
                let i = draw(f.len() as u32) as usize;
                damage(&mut f[i].1, depth - 1)
            }
            _ => {}
        }
    }
    fn pos(f: &mut Vec<M>, depth: u32) {
        match draw(3) {
            0 if !f.is_empty() => {
                let i = draw(f.len() as u32) as usize;
                f.remove(i);
            }
            1 => {
                let i = draw(f.len() as u32 + 1) as usize;
                f.insert(i, gen_any(1))
            }
            _ if !f.is_empty() && depth > 0 => {
                let i = draw(f.len() as u32) as usize;
                damage(&mut f[i], depth - 1)
            }
            _ => {}
        }
    }
    if chance(1, 5) {
        *m = gen_any(1);
        return;
    }
    match m {
        M::Sc(t, b) => {
            *m = match draw(8) {
                0..=3 => gen_sc(*t),
                4 => retyped(*t, *b),
                _ => gen_any(0),
            }
        }
        M::Str(_) => *m = gen_any(0),
        M::Struct(f) => named(f, depth),
        M::TStruct(f) | M::Tuple(f) | M::List(f) => pos(f, depth),
        M::Enum(n, k) => match draw(4) {
            0 => *n = gen_variant(&["A", "B", "None", "Some", "Nope", "Nil"]),
            1 => {
                // same name, other kind
                let old = std::mem::replace(k, K::Unit);
                *k = match old {
                    K::Unit => K::Tuple(vec![gen_any(0)]),
                    K::Tuple(f) => K::Struct(
                        f.into_iter()
                            .enumerate()
                            .take(8)
                            .map(|(i, m)| (NAMES[i].to_string(), m))
                            .collect(),
                    ),
                    K::Struct(f) => K::Tuple(f.into_iter().map(|(_, m)| m).collect()),
                }
            }
            _ => match k {
                K::Unit => {}
                K::Tuple(f) => pos(f, depth),
                K::Struct(f) => named(f, depth),
            },
        },
        M::Map(e) => match draw(5) {
            0 if !e.is_empty() => {
                let i = draw(e.len() as u32) as usize;
                e.remove(i);
            }
            2 | 3 if !e.is_empty() => {
                // the same entry under another key
                let i = draw(e.len() as u32) as usize;
                let k = other_key(&e[i].0);
                if map_find(e, &k).is_none() {
                    e[i].0 = k;
                }
            }
            1 => {
                let k = gen_key(&any());
                if map_find(e, &k).is_none() {
                    e.push((k, gen_any(1)));
                }
            }
            _ if !e.is_empty() && depth > 0 => {
                let i = draw(e.len() as u32) as usize;
                damage(&mut e[i].1, depth - 1)
            }
            _ => {}
        },
    }
}

/// A key of the same form with (most of the time) one thing changed.
fn other_key(k: &M) -> M {
    let mut k = k.clone();
    let one = |f: &mut Vec<M>| {
        if !f.is_empty() {
            let i = draw(f.len() as u32) as usize;
            f[i] = other_key(&f[i]);
        }
    };
    let one_named = |f: &mut Vec<(String, M)>| {
        if !f.is_empty() {
            let i = draw(f.len() as u32) as usize;
            f[i].1 = other_key(&f[i].1);
        }
    };
    match &mut k {
        M::Sc(t, b) if is_int(*t) => *b = norm_bits(*t, b.wrapping_add(1 + draw(2) as u128)),
        M::Sc(T::Bool, b) => *b ^= 1,
        M::Sc(T::Char, b) if *b < 0x1000 => *b += 1,
        M::Str(s) => *s = ["a", "b", "c", "d", ""][draw(5) as usize].into(),
        M::Struct(f) | M::Enum(_, K::Struct(f)) => one_named(f),
        M::TStruct(f) | M::Tuple(f) | M::List(f) | M::Enum(_, K::Tuple(f)) => one(f),
        M::Enum(n, K::Unit) => *n = ["A", "B", "None"][draw(3) as usize].to_string(),
        M::Map(e) if e.len() == 1 => e[0].1 = other_key(&e[0].1),
        _ => {}
    }
    k
}

/// Changes exactly one thing in a tree; false if it happened to change nothing.
pub fn tweak(m: &mut M) -> bool {
    let old = m.clone();
    damage(m, 4);
    norm(m);
    old != *m
}

/// A path that leads somewhere in the document, walked at random.
pub fn gen_path(s: &S, m: &M, stop: (u32, u32)) -> Vec<Kx> {
    let mut path = vec![];
    let mut c = m.clone();
    let (mut s, mut cur): (S, &mut M) = (s.clone(), &mut c);
    for _ in 0..12 {
        if !path.is_empty() && chance(stop.0, stop.1) {
            break;
        }
        let mut named_var = false;
        if let M::Enum(n, _) = &*cur {
            if chance(1, 2) {
                path.push(Kx::Var(n.clone()));
                named_var = true;
            }
        }
        let Some(k) = gen_step(&s, cur) else {
            let _ = named_var;
            break;
        };
        let Some((s2, m2)) = step(&s, cur, &k) else {
            break;
        };
        path.push(k);
        s = s2;
        cur = m2;
    }
    path
}

fn index_key(i: usize) -> M {
    match draw(8) {
        0..=4 => M::Sc(T::Usize, i as u128),
        k => match [T::I32, T::U8, T::I128][k as usize - 5] {
            t if norm_bits(t, i as u128) == i as u128 => M::Sc(t, i as u128),
            _ => M::Sc(T::Usize, i as u128),
        },
    }
}

/// A key of something that exists one step down.
pub fn gen_step(s: &S, m: &M) -> Option<Kx> {
    let pick = |n: usize| (n > 0).then(|| draw(n as u32) as usize);
    let vis = view(s, m);
    match &vis {
        M::Sc(..) | M::Str(_) | M::Enum(_, K::Unit) => None,
        M::Struct(f) | M::Enum(_, K::Struct(f)) => pick(f.len()).map(|i| Kx::Name(f[i].0.clone())),
        M::TStruct(f) | M::Tuple(f) | M::Enum(_, K::Tuple(f)) => pick(f.len()).map(Kx::Num),
        M::List(f) => pick(f.len()).map(|i| Kx::Get(index_key(i))),
        M::Map(e) => pick(e.len()).map(|i| Kx::Get(e[i].0.clone())),
    }
}

/// A key that may or may not lead anywhere.
pub fn gen_wild_key() -> Kx {
    match draw(6) {
        0 => Kx::Name(gen_name()),
        1 => Kx::Num(draw(5) as usize),
        2 => Kx::Num(usize::MAX - draw(2) as usize),
        3 => Kx::Var(gen_variant(&["A", "B", "Some", "None", "Nope"])),
        4 => Kx::Get(gen_key(&any())),
        _ => Kx::Get(gen_sc(ALL_T[draw(15) as usize])),
    }
}

/// A key that is almost this one.
pub fn near_key(k: &Kx) -> Kx {
    let near = |n: &str| -> String {
        match draw(9) {
            0 => format!("r#{n}"),
            1 => n.trim_start_matches("r#").to_string(),
            2 => n.to_uppercase(),
            3 => n.to_lowercase(),
            4 => format!("{n} "),
            5 => format!("_{n}"),
            6 => n.chars().skip(1).collect(),
            7 => n.chars().take(n.chars().count().saturating_sub(1)).collect(),
            _ => format!("{n}\0"),
        }
    };
    match k {
        Kx::Name(n) if chance(1, 6) => Kx::Get(M::Str(n.clone())),
        Kx::Name(n) if chance(1, 6) => Kx::Var(n.clone()),
        Kx::Name(n) => Kx::Name(near(n)),
        Kx::Var(n) if chance(1, 6) => Kx::Name(n.clone()),
        Kx::Var(n) => Kx::Var(near(n)),
        Kx::Num(i) if chance(1, 3) => Kx::Get(index_key(*i)),
        Kx::Num(i) if chance(1, 3) => Kx::Name(i.to_string()),
        Kx::Num(i) => Kx::Num(match draw(4) {
            0 => i.wrapping_add(1),
            1 => i.wrapping_sub(1),
            2 => i.wrapping_add(1 << 32),
            _ => i.wrapping_add(256),
        }),
        Kx::Get(M::Str(s)) if chance(1, 4) => Kx::Name(s.clone()),
        Kx::Get(M::Str(s)) => Kx::Get(M::Str(near(s))),
        Kx::Get(M::Sc(t, b)) => Kx::Get(match draw(3) {
            0 => gen_sc(*t),
            1 => retyped(*t, *b),
            _ => M::Str(show(&M::Sc(*t, *b))),
        }),
        Kx::Get(_) => Kx::Get(gen_key(&any())),
    }
}

pub fn show(m: &M) -> String {
    match m {
        M::Sc(T::F32, b) => format!("{:?}f32", f32_of(*b)),
        M::Sc(T::F64, b) => format!("{:?}f64", f64_of(*b)),
        M::Sc(T::Bool, b) => format!("{}", *b != 0),
        M::Sc(T::Char, b) => format!("{:?}", char::from_u32(*b as u32)),
        M::Sc(t, b) if signed(*t) => format!("{}{:?}", *b as i128, t),
        M::Sc(t, b) => format!("{}{:?}", b, t),
        M::Str(s) if s.len() > 40 => format!("\"..\"*{}", s.len()),
        M::Str(s) => format!("{s:?}"),
        M::Struct(f) => format!("{{{}}}", show_named(f)),
        M::TStruct(f) => format!("S({})", show_list(f)),
        M::Tuple(f) => format!("({})", show_list(f)),
        M::List(f) => format!("[{}]", show_list(f)),
        M::Enum(n, K::Unit) => n.clone(),
        M::Enum(n, K::Tuple(f)) => format!("{n}({})", show_list(f)),
        M::Enum(n, K::Struct(f)) => format!("{n}{{{}}}", show_named(f)),
        M::Map(e) => {
            format!(
                "#{{{}}}",
                e.iter()
                    .map(|(k, v)| format!("{}:{}", show(k), show(v)))
                    .collect::<Vec<_>>()
                    .join(",")
            )
        }
    }
}
fn show_list(f: &[M]) -> String {
    f.iter().map(show).collect::<Vec<_>>().join(",")
}
fn show_named(f: &[(String, M)]) -> String {
    f.iter()
        .map(|(n, v)| format!("{n}:{}", show(v)))
        .collect::<Vec<_>>()
        .join(",")
}
pub fn show_path(p: &[Kx]) -> String {
    p.iter()
        .map(|k| match k {
            Kx::Name(n) => format!(".{n}"),
            Kx::Num(i) => format!(".{i}"),
            Kx::Get(m) => format!("[{}]", show(m)),
            Kx::Var(n) => format!("::{n}"),
        })
        .collect()
}
pub fn show_op(o: &Op) -> String {
    match o {
        Op::Patch(m) => format!("merge {}", show(m)),
        Op::Push(m) => format!("push {}", show(m)),
        Op::Pop => "pop".into(),
        Op::Remove(i) => format!("remove {i}"),
        Op::Insert(k, v) => format!("insert {}: {}", show(k), show(v)),
        Op::Delete(k) => format!("delete {}", show(k)),
    }
}
