//! The documents the simulations work on: types of every shape the library supports, each with its
//! hand-written schema and conversions to and from the model, which do not go through the library.
use crate::model::*;
use mirror_mirror::{DescribeType, FromReflect, Reflect, TypeDescriptor, Value};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::num::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeTo, RangeToInclusive};
use std::time::Duration;

pub trait Doc: Reflect + FromReflect + DescribeType + Clone {
    fn schema() -> S;
    fn to_m(&self) -> M;
    fn from_m(m: &M) -> Self;
}

pub fn s_of<T: 'static>(k: SK) -> S {
    S {
        name: std::any::type_name::<T>(),
        id: std::any::TypeId::of::<T>(),
        k,
    }
}
pub fn sf<T, R: Doc>(_: fn(&T) -> &R) -> SF {
    R::schema
}

// ------------------------------------------------------------------------------------ basic types

macro_rules! doc_int {
    ($($t:ty, $tag:ident;)*) => {$(
        impl Doc for $t {
            fn schema() -> S { s_of::<$t>(SK::Sc(T::$tag)) }
            fn to_m(&self) -> M { M::Sc(T::$tag, norm_bits(T::$tag, *self as u128)) }
            fn from_m(m: &M) -> Self { match m { M::Sc(T::$tag, b) => *b as $t, _ => unreachable!() } }
        }
    )*};
}
doc_int! { usize, Usize; u8, U8; u16, U16; u32, U32; u64, U64; u128, U128; i8, I8; i16, I16; i32, I32; i64, I64; i128, I128; }

macro_rules! doc_sc {
    ($($t:ty, $tag:ident, |$x:ident| $to:expr, |$y:ident| $from:expr;)*) => {$(
        impl Doc for $t {
            fn schema() -> S { s_of::<$t>(SK::Sc(T::$tag)) }
            fn to_m(&self) -> M { let $x = *self; M::Sc(T::$tag, $to) }
            fn from_m(m: &M) -> Self { match m { M::Sc(T::$tag, $y) => $from, _ => unreachable!() } }
        }
    )*};
}
doc_sc! {
    bool, Bool, |x| x as u128, |b| *b != 0;
    char, Char, |x| x as u32 as u128, |b| char::from_u32(*b as u32).unwrap();
    f32, F32, |x| x.to_bits() as u128, |b| f32::from_bits(*b as u32);
    f64, F64, |x| x.to_bits() as u128, |b| f64::from_bits(*b as u64);
}

impl Doc for String {
    fn schema() -> S {
        s_of::<String>(SK::Str)
    }
    fn to_m(&self) -> M {
        M::Str(self.clone())
    }
    fn from_m(m: &M) -> Self {
        match m {
            M::Str(s) => s.clone(),
            _ => unreachable!(),
        }
    }
}

macro_rules! doc_nonzero {
    ($($t:ty, $p:ty, $tag:ident;)*) => {$(
        impl Doc for $t {
            fn schema() -> S { s_of::<$t>(SK::NonZero(T::$tag)) }
            fn to_m(&self) -> M { self.get().to_m() }
            fn from_m(m: &M) -> Self { <$t>::new(<$p>::from_m(m)).unwrap() }
        }
    )*};
}
doc_nonzero! {
    NonZeroUsize, usize, Usize; NonZeroU8, u8, U8; NonZeroU16, u16, U16; NonZeroU32, u32, U32; NonZeroU64, u64, U64;
    NonZeroU128, u128, U128; NonZeroI8, i8, I8; NonZeroI16, i16, I16; NonZeroI32, i32, I32; NonZeroI64, i64, I64;
    NonZeroI128, i128, I128;
}

impl Doc for std::convert::Infallible {
    fn schema() -> S {
        s_of::<std::convert::Infallible>(SK::Enum(vec![]))
    }
    fn to_m(&self) -> M {
        match *self {}
    }
    fn from_m(m: &M) -> Self {
        unreachable!("{m:?}")
    }
}

impl Doc for Duration {
    fn schema() -> S {
        s_of::<Duration>(SK::Dur)
    }
    fn to_m(&self) -> M {
        self.as_secs_f32().to_m()
    }
    fn from_m(m: &M) -> Self {
        Duration::from_secs_f32(f32::from_m(m))
    }
}

impl Doc for Value {
    fn schema() -> S {
        any()
    }
    fn to_m(&self) -> M {
        crate::conv::from_value(self)
    }
    fn from_m(m: &M) -> Self {
        crate::conv::to_value(m)
    }
}

// ------------------------------------------------------------------------------------- containers

impl<T: Doc> Doc for Vec<T> {
    fn schema() -> S {
        s_of::<Self>(SK::List(T::schema))
    }
    fn to_m(&self) -> M {
        M::List(self.iter().map(Doc::to_m).collect())
    }
    fn from_m(m: &M) -> Self {
        match m {
            M::List(l) => l.iter().map(T::from_m).collect(),
            _ => unreachable!(),
        }
    }
}
impl<T: Doc, const N: usize> Doc for [T; N] {
    fn schema() -> S {
        s_of::<Self>(SK::Arr(T::schema, N))
    }
    fn to_m(&self) -> M {
        M::List(self.iter().map(Doc::to_m).collect())
    }
    fn from_m(m: &M) -> Self {
        match m {
            M::List(l) => std::array::from_fn(|i| T::from_m(&l[i])),
            _ => unreachable!(),
        }
    }
}
impl<K: Doc + Ord, V: Doc> Doc for BTreeMap<K, V> {
    fn schema() -> S {
        s_of::<Self>(SK::Map(K::schema, V::schema))
    }
    fn to_m(&self) -> M {
        M::Map(self.iter().map(|(k, v)| (k.to_m(), v.to_m())).collect())
    }
    fn from_m(m: &M) -> Self {
        match m {
            M::Map(e) => e
                .iter()
                .map(|(k, v)| (K::from_m(k), V::from_m(v)))
                .collect(),
            _ => unreachable!(),
        }
    }
}
impl<T: Doc> Doc for Box<T> {
    fn schema() -> S {
        T::schema()
    }
    fn to_m(&self) -> M {
        (**self).to_m()
    }
    fn from_m(m: &M) -> Self {
        Box::new(T::from_m(m))
    }
}
fn plain(name: &'static str, ty: SF) -> F {
    F {
        name,
        ty,
        skip: None,
        with: None,
    }
}
impl<T: Doc> Doc for Option<T> {
    fn schema() -> S {
        s_of::<Self>(SK::Enum(vec![
            V {
                name: "None",
                k: VK::Unit,
            },
            V {
                name: "Some",
                k: VK::Tuple(vec![plain("0", T::schema)]),
            },
        ]))
    }
    fn to_m(&self) -> M {
        match self {
            None => M::Enum("None".into(), K::Unit),
            Some(x) => M::Enum("Some".into(), K::Tuple(vec![x.to_m()])),
        }
    }
    fn from_m(m: &M) -> Self {
        match m {
            M::Enum(_, K::Unit) => None,
            M::Enum(_, K::Tuple(v)) => Some(T::from_m(&v[0])),
            _ => unreachable!(),
        }
    }
}
impl<A: Doc, B: Doc> Doc for Result<A, B> {
    fn schema() -> S {
        s_of::<Self>(SK::Enum(vec![
            V {
                name: "Ok",
                k: VK::Tuple(vec![plain("0", A::schema)]),
            },
            V {
                name: "Err",
                k: VK::Tuple(vec![plain("0", B::schema)]),
            },
        ]))
    }
    fn to_m(&self) -> M {
        match self {
            Ok(x) => M::Enum("Ok".into(), K::Tuple(vec![x.to_m()])),
            Err(x) => M::Enum("Err".into(), K::Tuple(vec![x.to_m()])),
        }
    }
    fn from_m(m: &M) -> Self {
        match m {
            M::Enum(n, K::Tuple(v)) if n == "Ok" => Ok(A::from_m(&v[0])),
            M::Enum(_, K::Tuple(v)) => Err(B::from_m(&v[0])),
            _ => unreachable!(),
        }
    }
}
macro_rules! doc_tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Doc),*> Doc for ($($t,)*) {
            fn schema() -> S { s_of::<Self>(SK::Tuple(vec![$($t::schema),*])) }
            fn to_m(&self) -> M { M::Tuple(vec![$(self.$i.to_m()),*]) }
            #[allow(unused_variables, clippy::unused_unit)]
            fn from_m(m: &M) -> Self {
                match m { M::Tuple(v) => ($($t::from_m(&v[$i]),)*), _ => unreachable!() }
            }
        }
    };
}
doc_tuple!();
doc_tuple!(A 0);
doc_tuple!(A 0, B 1);
doc_tuple!(A 0, B 1, C 2);
doc_tuple!(A 0, B 1, C 2, D 3, E 4);
doc_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10, N 11, O 12, P 13, Q 14, R 15);

// ------------------------------------------------------------------------------------ user types

macro_rules! skip_of {
    () => {
        None
    };
    (skip $t:ty) => {
        Some((|| <$t as Doc>::to_m(&Default::default())) as fn() -> M)
    };
    (with $e:expr) => {
        None
    };
}
macro_rules! with_of {
    () => {
        None
    };
    (skip $t:ty) => {
        None
    };
    (with $e:expr) => {
        Some($e as fn(&M) -> Option<M>)
    };
}
macro_rules! doc_struct {
    (@ [$($g:tt)*] $n:ty, $c:ident { $($f:tt $([$($fl:tt)*])?),* }) => {
        impl $($g)* Doc for $n {
            fn schema() -> S {
                s_of::<Self>(SK::Struct(vec![$(F {
                    name: stringify!($f), ty: sf(|s: &Self| &s.$f),
                    skip: skip_of!($($($fl)*)?), with: with_of!($($($fl)*)?),
                }),*]))
            }
            fn to_m(&self) -> M { M::Struct(vec![$((stringify!($f).to_string(), self.$f.to_m())),*]) }
            #[allow(unused_mut, unused_variables)]
            fn from_m(m: &M) -> Self {
                let M::Struct(v) = m else { unreachable!() };
                let mut i = v.iter();
                $c { $($f: Doc::from_m(&i.next().unwrap().1)),* }
            }
        }
    };
    ($n:ident { $($t:tt)* }) => { doc_struct!(@ [] $n, $n { $($t)* }); };
}
macro_rules! doc_tstruct {
    ($n:ident ( $($f:tt $([$($fl:tt)*])?),* )) => {
        impl Doc for $n {
            fn schema() -> S {
                s_of::<Self>(SK::TStruct(vec![$(F {
                    name: stringify!($f), ty: sf(|s: &Self| &s.$f),
                    skip: skip_of!($($($fl)*)?), with: with_of!($($($fl)*)?),
                }),*]))
            }
            fn to_m(&self) -> M { M::TStruct(vec![$(self.$f.to_m()),*]) }
            #[allow(unused_mut, unused_variables)]
            fn from_m(m: &M) -> Self {
                let M::TStruct(v) = m else { unreachable!() };
                let mut i = v.iter();
                $n { $($f: Doc::from_m(i.next().unwrap())),* }
            }
        }
    };
}
macro_rules! vk {
    () => { VK::Unit };
    (( $($f:ident : $t:ty $([$($fl:tt)*])?),* )) => {
        VK::Tuple(vec![$(F { name: stringify!($f), ty: <$t as Doc>::schema,
            skip: skip_of!($($($fl)*)?), with: with_of!($($($fl)*)?) }),*])
    };
    ({ $($f:ident : $t:ty $([$($fl:tt)*])?),* }) => {
        VK::Struct(vec![$(F { name: stringify!($f), ty: <$t as Doc>::schema,
            skip: skip_of!($($($fl)*)?), with: with_of!($($($fl)*)?) }),*])
    };
}
macro_rules! k_to {
    () => { K::Unit };
    (( $($f:ident),* )) => { K::Tuple(vec![$($f.to_m()),*]) };
    ({ $($f:ident),* }) => { K::Struct(vec![$((stringify!($f).to_string(), $f.to_m())),*]) };
}
macro_rules! k_from {
    ($k:ident, $n:ident, $v:ident,) => { $n::$v };
    ($k:ident, $n:ident, $v:ident, ( $($f:ident),* )) => {{
        let K::Tuple(v) = $k else { unreachable!() };
        #[allow(unused_mut, unused_variables)]
        let mut i = v.iter();
        $(let $f = Doc::from_m(i.next().unwrap());)*
        $n::$v($($f),*)
    }};
    ($k:ident, $n:ident, $v:ident, { $($f:ident),* }) => {{
        let K::Struct(v) = $k else { unreachable!() };
        #[allow(unused_mut, unused_variables)]
        let mut i = v.iter();
        $(let $f = Doc::from_m(&i.next().unwrap().1);)*
        $n::$v { $($f),* }
    }};
}
macro_rules! doc_enum {
    ($n:ident { $( $v:ident
        $( ( $($tf:ident : $tt:ty $([$($tfl:tt)*])?),* ) )?
        $( { $($sf:ident : $st:ty $([$($sfl:tt)*])?),* } )?
    ),* }) => {
        impl Doc for $n {
            fn schema() -> S {
                s_of::<Self>(SK::Enum(vec![$(V {
                    name: stringify!($v),
                    k: vk!($( ( $($tf : $tt $([$($tfl)*])?),* ) )? $( { $($sf : $st $([$($sfl)*])?),* } )?),
                }),*]))
            }
            fn to_m(&self) -> M {
                match self { $(
                    $n::$v $( ( $($tf),* ) )? $( { $($sf),* } )? => M::Enum(stringify!($v).to_string(),
                        k_to!($( ( $($tf),* ) )? $( { $($sf),* } )?)),
                )* }
            }
            fn from_m(m: &M) -> Self {
                #[allow(unused_variables)]
                let M::Enum(n, k) = m else { unreachable!() };
                #[allow(unused_variables)]
                match n.as_str() {
                    $( stringify!($v) => k_from!(k, $n, $v, $( ( $($tf),* ) )? $( { $($sf),* } )?), )*
                    _ => unreachable!(),
                }
            }
        }
    };
}

/// A player.
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(rank = 3, tag = "player"))]
pub struct Player {
    /// shown above
    ///  the head
    #[reflect(meta(max = 12_usize, min = 1_usize))]
    pub name: String,
    pub pos: glam::Vec3,
    #[reflect(skip)]
    pub cache: u32,
    pub hp: i32,
    pub tags: Vec<String>,
    pub items: BTreeMap<String, Item>,
    pub best: Option<Item>,
}
doc_struct!(Player { name, pos, cache [skip u32], hp, tags, items, best });

#[derive(Reflect, Clone, Debug)]
pub struct Item(
    pub u32,
    #[reflect(skip)] pub u16,
    /// label
    #[reflect(meta(label = true))]
    pub String,
    #[reflect(skip)] pub Vec<u8>,
    pub Option<i8>,
);
doc_tstruct!(Item(0, 1 [skip u16], 2, 3 [skip Vec<u8>], 4));

/// A shape
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(sides = -1))]
pub enum Shape {
    Nothing,
    /// round
    #[reflect(meta(round = true))]
    Circle(f32),
    Rect {
        w: f64,
        /// up
        #[reflect(meta(unit = "m"))]
        h: f64,
    },
    Mixed(
        #[reflect(skip)] u8,
        i32,
        #[reflect(skip)] String,
        NonZeroU8,
        i32,
    ),
    Empty(),
    EmptyNamed {},
    Named {
        #[reflect(skip)]
        z: i32,
        a: bool,
        b: Vec<u8>,
        #[reflect(skip)]
        y: String,
        c: i32,
    },
    Twin(i32, i32),
}
doc_enum!(Shape {
    Nothing,
    Circle(a: f32),
    Rect { w: f64, h: f64 },
    Mixed(a: u8 [skip u8], b: i32, c: String [skip String], d: NonZeroU8, e: i32),
    Empty(),
    EmptyNamed {},
    Named { z: i32 [skip i32], a: bool, b: Vec<u8>, y: String [skip String], c: i32 },
    Twin(a: i32, b: i32)
});

#[derive(Reflect, Clone, Debug)]
pub struct Unit;
doc_struct!(Unit {});

#[derive(Reflect, Clone, Debug)]
pub struct EmptyT();
doc_tstruct!(EmptyT());

#[derive(Reflect, Clone, Debug)]
pub struct Scalars {
    a: usize,
    b: u8,
    c: u16,
    d: u32,
    e: u64,
    f: u128,
    g: i8,
    h: i16,
    i: i32,
    j: i64,
    k: i128,
    l: bool,
    m: char,
    n: f32,
    o: f64,
    p: String,
}
doc_struct!(Scalars {
    a,
    b,
    c,
    d,
    e,
    f,
    g,
    h,
    i,
    j,
    k,
    l,
    m,
    n,
    o,
    p
});

#[derive(Reflect, Clone, Debug)]
pub struct Tree {
    val: i32,
    children: Vec<Tree>,
}
doc_struct!(Tree { val, children });

#[derive(Reflect, Clone, Debug)]
pub enum L {
    Nil,
    Cons(i32, Box<L>),
}
doc_enum!(L { Nil, Cons(a: i32, b: Box<L>) });

#[derive(Reflect, Clone, Debug)]
pub struct Chain {
    next: Option<Box<Chain>>,
    v: u8,
}
doc_struct!(Chain { next, v });

#[derive(Reflect, Clone, Debug)]
pub struct Dir {
    files: BTreeMap<String, Dir>,
    size: u64,
}
doc_struct!(Dir { files, size });

#[derive(Reflect, Clone, Debug)]
pub struct Ping {
    v: i16,
    pong: Option<Box<Pong>>,
}
doc_struct!(Ping { v, pong });
#[derive(Reflect, Clone, Debug)]
pub struct Pong(Vec<Ping>, char);
doc_tstruct!(Pong(0, 1));

#[derive(Reflect, Clone, Debug)]
pub enum Expr {
    Num(f64),
    Neg(Box<Expr>),
    Call { name: String, args: Vec<Expr> },
    Env(BTreeMap<String, Expr>),
    Pair((Box<Expr>, Option<Box<Expr>>)),
}
doc_enum!(Expr {
    Num(a: f64),
    Neg(a: Box<Expr>),
    Call { name: String, args: Vec<Expr> },
    Env(a: BTreeMap<String, Expr>),
    Pair(a: (Box<Expr>, Option<Box<Expr>>))
});

// (the first variant is the default, which would contain itself)
#[derive(Reflect, Clone, Debug)]
pub enum First {
    Add(Box<First>, Box<First>),
    Neg { of: Box<First> },
    Num(i32),
}
doc_enum!(First {
    Add(a: Box<First>, b: Box<First>),
    Neg { of: Box<First> },
    Num(a: i32)
});
#[derive(Reflect, Clone, Debug)]
pub enum Evens {
    Next { odd: Box<Odds>, n: u8 },
    Zero,
}
doc_enum!(Evens {
    Next { odd: Box<Odds>, n: u8 },
    Zero
});
#[derive(Reflect, Clone, Debug)]
pub enum Odds {
    Next(Box<Evens>),
    Fan([Box<Evens>; 2]),
}
doc_enum!(Odds {
    Next(a: Box<Evens>),
    Fan(a: [Box<Evens>; 2])
});
#[derive(Reflect, Clone, Debug)]
pub struct Firsts {
    num: u16,
    first: First,
    odd: (Odds, bool),
    none: [First; 0],
}
doc_struct!(Firsts { num, first, odd, none });

#[derive(Reflect, Clone, Debug)]
pub struct Gen<A>
where
    A: Doc + std::fmt::Debug,
{
    a: A,
    list: Vec<A>,
    map: BTreeMap<u8, A>,
}
doc_struct!(@ [<A: Doc + std::fmt::Debug>] Gen<A>, Gen { a, list, map });

#[derive(Reflect, Clone, Debug)]
pub struct Dyn {
    v: Value,
    list: Vec<Value>,
    map: BTreeMap<Value, Value>,
    n: i32,
}
doc_struct!(Dyn { v, list, map, n });

#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(Clone, Debug))]
pub struct OptOut {
    a: i32,
    b: Vec<OptOutT>,
    c: Option<OptOutE>,
}
doc_struct!(OptOut { a, b, c });
#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(Clone, Debug))]
pub struct OptOutT(u8, #[reflect(skip)] u8, String);
doc_tstruct!(OptOutT(0, 1 [skip u8], 2));
#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(Clone, Debug))]
pub enum OptOutE {
    A,
    B(i32, #[reflect(skip)] i32, i64),
    C {
        x: i32,
        y: Vec<i32>,
    },
    D(i32, i32, i32),
    E {
        #[reflect(skip)]
        x: u8,
        y: Option<u8>,
        z: Option<u8>,
        w: Option<u8>,
    },
}
doc_enum!(OptOutE {
    A,
    B(a: i32, b: i32 [skip i32], c: i64),
    C { x: i32, y: Vec<i32> },
    D(a: i32, b: i32, c: i32),
    E { x: u8 [skip u8], y: Option<u8>, z: Option<u8>, w: Option<u8> }
});

impl<T: Doc> Doc for Range<T> {
    fn schema() -> S {
        s_of::<Self>(SK::Struct(vec![
            plain("start", T::schema),
            plain("end", T::schema),
        ]))
    }
    fn to_m(&self) -> M {
        M::Struct(vec![
            ("start".into(), self.start.to_m()),
            ("end".into(), self.end.to_m()),
        ])
    }
    fn from_m(m: &M) -> Self {
        let M::Struct(v) = m else { unreachable!() };
        T::from_m(&v[0].1)..T::from_m(&v[1].1)
    }
}
macro_rules! doc_range1 {
    ($r:ident, $f:ident) => {
        impl<T: Doc> Doc for $r<T> {
            fn schema() -> S {
                s_of::<Self>(SK::Struct(vec![plain(stringify!($f), T::schema)]))
            }
            fn to_m(&self) -> M {
                M::Struct(vec![(stringify!($f).into(), self.$f.to_m())])
            }
            fn from_m(m: &M) -> Self {
                let M::Struct(v) = m else { unreachable!() };
                $r {
                    $f: T::from_m(&v[0].1),
                }
            }
        }
    };
}
doc_range1!(RangeFrom, start);
doc_range1!(RangeTo, end);
doc_range1!(RangeToInclusive, end);
impl Doc for RangeFull {
    fn schema() -> S {
        s_of::<Self>(SK::Struct(vec![]))
    }
    fn to_m(&self) -> M {
        M::Struct(vec![])
    }
    fn from_m(_: &M) -> Self {
        ..
    }
}
doc_struct!(@ [] glam::Vec2, Vec2 { x, y });
doc_struct!(@ [] glam::Vec3, Vec3 { x, y, z });
doc_struct!(@ [] glam::Mat3, Mat3 { x_axis, y_axis, z_axis });
use glam::{Mat3, Vec2, Vec3};
use macaw::ColorRgba8;
doc_tstruct!(ColorRgba8(0));

#[derive(Reflect, Clone, Debug)]
pub struct Ranges {
    a: Range<i32>,
    b: RangeFrom<u8>,
    c: RangeTo<i64>,
    d: RangeToInclusive<char>,
    e: RangeFull,
    f: Vec<Range<Option<u8>>>,
}
doc_struct!(Ranges { a, b, c, d, e, f });

#[derive(Reflect, Clone, Debug)]
pub struct Foreign {
    v2: Vec2,
    m: Mat3,
    c: ColorRgba8,
    d: Duration,
    ds: Vec<Duration>,
    nz: (NonZeroI32, NonZeroU128),
    arr: [i32; 3],
    arr0: [u8; 0],
    nest: [[u8; 2]; 2],
    tup: (i32, String),
    unit: (),
    one: (u8,),
    r: Result<i32, String>,
    rr: Result<Vec<u8>, (NonZeroI64, Option<bool>)>,
}
doc_struct!(Foreign {
    v2,
    m,
    c,
    d,
    ds,
    nz,
    arr,
    arr0,
    nest,
    tup,
    unit,
    one,
    r,
    rr
});

#[derive(Reflect, Clone, Debug)]
pub struct NonZeros(
    NonZeroUsize,
    NonZeroU8,
    NonZeroU16,
    NonZeroU32,
    NonZeroU64,
    NonZeroU128,
    NonZeroI8,
    NonZeroI16,
    NonZeroI32,
    NonZeroI64,
    NonZeroI128,
);
doc_tstruct!(NonZeros(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10));

/// A custom conversion that only takes even numbers.
fn even(v: &dyn Reflect) -> Option<i32> {
    i32::from_reflect(v).filter(|n| n % 2 == 0)
}
fn even_m(m: &M) -> Option<M> {
    match m {
        M::Sc(T::I32, b) if (*b as i128) % 2 == 0 => Some(m.clone()),
        _ => None,
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct Even {
    #[reflect(from_reflect_with(even))]
    x: i32,
    y: i32,
    list: Vec<EvenT>,
    e: EvenE,
}
doc_struct!(Even { x [with even_m], y, list, e });
#[derive(Reflect, Clone, Debug)]
pub struct EvenT(u8, #[reflect(from_reflect_with(even))] i32);
doc_tstruct!(EvenT(0, 1 [with even_m]));
#[derive(Reflect, Clone, Debug)]
pub struct EvenU(#[reflect(from_reflect_with(even))] i32, u8, Tree);
doc_tstruct!(EvenU(0 [with even_m], 1, 2));
#[derive(Reflect, Clone, Debug)]
pub enum EvenE {
    No,
    P(i32, #[reflect(from_reflect_with(even))] i32),
    N {
        #[reflect(from_reflect_with(even))]
        x: i32,
        y: String,
    },
}
doc_enum!(EvenE { No, P(a: i32, b: i32 [with even_m]), N { x: i32 [with even_m], y: String } });

#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Id {
    Root,
    Num(u32),
    Path { dir: String, n: u8 },
}
doc_enum!(Id { Root, Num(a: u32), Path { dir: String, n: u8 } });

#[derive(Reflect, Clone, Debug)]
pub struct Keys {
    by_id: BTreeMap<Id, i32>,
    by_pair: BTreeMap<(u8, bool), String>,
    by_opt: BTreeMap<Option<u8>, Unit>,
    by_int: BTreeMap<i64, Vec<i32>>,
    by_char: BTreeMap<char, BTreeMap<bool, f32>>,
    by_nz: BTreeMap<NonZeroU16, u8>,
    by_list: BTreeMap<Vec<u8>, u8>,
}
doc_struct!(Keys {
    by_id,
    by_pair,
    by_opt,
    by_int,
    by_char,
    by_nz,
    by_list
});

#[derive(Reflect, Clone, Debug)]
pub struct Scene {
    shapes: Vec<Shape>,
    by: BTreeMap<u8, Shape>,
    opt: Option<Shape>,
    pair: (Shape, Item),
    arr: [Shape; 2],
    deep: Vec<Vec<BTreeMap<String, Option<(i32, Shape)>>>>,
}
doc_struct!(Scene {
    shapes,
    by,
    opt,
    pair,
    arr,
    deep
});

#[derive(Reflect, Clone, Debug)]
pub enum Flag {
    Off,
    On,
}
doc_enum!(Flag { Off, On });
#[derive(Reflect, Clone, Debug)]
pub struct Flags(Flag, Vec<Flag>, Option<Option<Flag>>, Box<Flag>);
doc_tstruct!(Flags(0, 1, 2, 3));

#[derive(Reflect, Clone, Debug)]
pub struct AllSkipped {
    #[reflect(skip)]
    a: i32,
    #[reflect(skip)]
    b: String,
}
doc_struct!(AllSkipped { a [skip i32], b [skip String] });

/// Noted in
///
/// three lines.
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(
    text = "t",
    list = vec![1_u8, 2],
    opt = Some(-1_i64),
    item = Item(7, 0, "i".to_owned(), vec![], None),
    flag = Flag::On,
    pair = (1.5_f32, 'c'),
))]
pub enum Noted {
    /// unit
    ///  variant
    #[reflect(meta(a = 1, b = "unit"))]
    Bare,
    /// one
    #[reflect(meta(a = 2_u8))]
    Pair(
        /// left
        #[reflect(meta(a = 3, c = false))]
        i32,
        #[reflect(skip)] u8,
        /// right
        /// side
        #[reflect(meta(b = 4_i8))]
        String,
    ),
    /// three
    Rec {
        /// here
        #[reflect(skip)]
        hidden: u8,
        /// x
        #[reflect(meta(a = 5))]
        x: Option<Box<Noted>>,
        y: u8,
    },
    #[reflect(meta(c = true))]
    Plain,
    /// five
    Nil(),
}
doc_enum!(Noted {
    Bare,
    Pair(a: i32, b: u8 [skip u8], c: String),
    Rec { hidden: u8 [skip u8], x: Option<Box<Noted>>, y: u8 },
    Plain,
    Nil()
});
/// A tuple
/// struct
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(text = "u", a = 6))]
pub struct NotedT(
    /// skipped
    #[reflect(skip)]
    u8,
    /// first
    #[reflect(meta(a = 7))]
    Noted,
    Vec<NotedU>,
    /// last
    #[reflect(meta(b = 8, c = 9))]
    BTreeMap<u8, Noted>,
);
doc_tstruct!(NotedT(0 [skip u8], 1, 2, 3));
/// A unit struct
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(a = "unit", c = ()))]
pub struct NotedU;
doc_struct!(NotedU {});

// Parts of it have types without values.
#[derive(Reflect, Clone, Debug)]
pub struct Never {
    n: u8,
    ok: Result<i32, std::convert::Infallible>,
    err: Result<std::convert::Infallible, String>,
    none: Option<std::convert::Infallible>,
    list: Vec<std::convert::Infallible>,
    map: BTreeMap<u8, std::convert::Infallible>,
    arr: [std::convert::Infallible; 0],
}
doc_struct!(Never {
    n,
    ok,
    err,
    none,
    list,
    map,
    arr
});

// Fields with the names of variables in the derived code.
#[derive(Reflect, Clone, Debug)]
pub enum Words {
    Nothing,
    Some {
        value: i32,
        index: usize,
        enum_: Pong,
        new_value: Option<String>,
        variant_matches: bool,
    },
    None {
        name: String,
        #[reflect(skip)]
        other: u8,
        this: Box<Words>,
        f: u8,
        iter: Vec<Words>,
        key: (u8, char),
    },
    Err(Pong, Option<Box<Words>>),
}
doc_enum!(Words {
    Nothing,
    Some { value: i32, index: usize, enum_: Pong, new_value: Option<String>, variant_matches: bool },
    None { name: String, other: u8 [skip u8], this: Box<Words>, f: u8, iter: Vec<Words>, key: (u8, char) },
    Err(a: Pong, b: Option<Box<Words>>)
});
#[derive(Reflect, Clone, Debug)]
pub struct WordsS {
    value: i32,
    index: Words,
    struct_: Unit,
    name: String,
    new_value: Vec<u8>,
    #[reflect(skip)]
    this: u8,
    fields: BTreeMap<String, Words>,
}
doc_struct!(WordsS { value, index, struct_, name, new_value, this [skip u8], fields });

// More of everything than small fixed sizes allow for.
type W = Option<u8>;
#[derive(Reflect, Clone, Debug)]
pub struct Wide {
    arr: [u8; 40],
    arr_o: [W; 34],
    e: WideE,
    t: WideT,
    a00: W,
    a01: W,
    a02: W,
    a03: W,
    a04: W,
    a05: W,
    a06: W,
    a07: W,
    a08: W,
    a09: W,
    a10: W,
    a11: W,
    a12: W,
    a13: W,
    a14: W,
    a15: W,
    a16: W,
    a17: W,
    a18: W,
    a19: W,
    a20: W,
    a21: W,
    a22: W,
    a23: W,
    a24: W,
    a25: W,
    a26: W,
    a27: W,
    a28: W,
    a29: W,
    a30: i16,
}
doc_struct!(Wide {
    arr,
    arr_o,
    e,
    t,
    a00,
    a01,
    a02,
    a03,
    a04,
    a05,
    a06,
    a07,
    a08,
    a09,
    a10,
    a11,
    a12,
    a13,
    a14,
    a15,
    a16,
    a17,
    a18,
    a19,
    a20,
    a21,
    a22,
    a23,
    a24,
    a25,
    a26,
    a27,
    a28,
    a29,
    a30
});
#[derive(Reflect, Clone, Debug)]
pub struct WideT(
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    #[reflect(skip)] u8,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    W,
    i8,
);
doc_tstruct!(WideT(
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9,
    10 [skip u8], 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
    21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33
));
#[derive(Reflect, Clone, Debug)]
pub enum WideE {
    V00,
    V01(W),
    V02,
    V03 { x: W },
    V04,
    V05,
    V06,
    V07,
    V08,
    V09,
    V10,
    V11(W),
    V12,
    V13 { x: W },
    V14,
    V15,
    V16,
    V17,
    V18,
    V19,
    V20,
    V21(W),
    V22,
    V23 { x: W },
    V24,
    V25,
    V26,
    V27,
    V28,
    V29,
    V30,
    V31(W),
    V32,
    V33 { x: W },
    V34,
    V35(W, W, W, W, W, W, W, W, W, W, W, W, W, W, W, W, W, i64),
}
doc_enum!(WideE {
    V00, V01(a: W), V02, V03 { x: W }, V04, V05, V06, V07, V08, V09,
    V10, V11(a: W), V12, V13 { x: W }, V14, V15, V16, V17, V18, V19,
    V20, V21(a: W), V22, V23 { x: W }, V24, V25, V26, V27, V28, V29,
    V30, V31(a: W), V32, V33 { x: W }, V34,
    V35(a: W, b: W, c: W, d: W, e: W, f: W, g: W, h: W, i: W, j: W, k: W, l: W, m: W, n: W, o: W, p: W, q: W, r: i64)
});

// A type in a type in a type ..., 72 levels down.
pub type Deep = D24<D24<D24<Words>>>;
type D24<T> = D6<D6<D6<D6<T>>>>;
type D6<T> = D3<D3<T>>;
type D3<T> = Option<Vec<(T, u8)>>;

/// Calls `f` with two different types that have the same name.
fn same() -> Vec<Ty> {
    fn both<A: Doc, B: Doc>(_: fn(A), _: fn(B)) -> Vec<Ty> {
        assert_eq!(std::any::type_name::<A>(), std::any::type_name::<B>());
        vec![
            ty::<A>(),
            ty::<B>(),
            ty::<(A, Vec<B>)>(),
            ty::<BTreeMap<u8, (B, A, Option<A>)>>(),
        ]
    }
    let a = {
        #[derive(Reflect, Clone, Debug)]
        struct Same {
            x: i32,
            s: String,
        }
        doc_struct!(Same { x, s });
        (|_| ()) as fn(Same)
    };
    let b = {
        #[derive(Reflect, Clone, Debug)]
        struct Same {
            s: u8,
            again: Option<Box<Same>>,
        }
        doc_struct!(Same { s, again });
        (|_| ()) as fn(Same)
    };
    both(a, b)
}

// more ways for a type to contain itself
#[derive(Reflect, Clone, Debug)]
pub struct RecT(Vec<RecT>);
doc_tstruct!(RecT(0));
#[derive(Reflect, Clone, Debug)]
pub struct RecB(i32, Option<Box<RecB>>);
doc_tstruct!(RecB(0, 1));
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum RKey {
    Leaf(u8),
    Node(Vec<RKey>),
}
doc_enum!(RKey { Leaf(a: u8), Node(a: Vec<RKey>) });
#[derive(Reflect, Clone, Debug)]
pub struct RecMap {
    m: BTreeMap<RKey, RecMap>,
}
doc_struct!(RecMap { m });
#[derive(Reflect, Clone, Debug)]
pub struct RecArr {
    a: [Option<Box<RecArr>>; 2],
    v: Vec<[RecArr; 1]>,
}
doc_struct!(RecArr { a, v });
#[derive(Reflect, Clone, Debug)]
pub struct RecTup {
    t: (u8, Vec<(RecTup, bool)>),
}
doc_struct!(RecTup { t });
#[derive(Reflect, Clone, Debug)]
pub struct RecRes {
    r: Result<u8, Box<RecRes>>,
}
doc_struct!(RecRes { r });
#[derive(Reflect, Clone, Debug)]
pub enum RecEnum {
    Leaf,
    Node { l: Box<RecEnum>, r: Box<RecEnum> },
    Wrap(Gen<u8>, Vec<RecEnum>),
}
doc_enum!(RecEnum { Leaf, Node { l: Box<RecEnum>, r: Box<RecEnum> }, Wrap(a: Gen<u8>, b: Vec<RecEnum>) });
#[derive(Reflect, Clone, Debug)]
pub struct Ring1 {
    n: Vec<Ring2>,
}
doc_struct!(Ring1 { n });
#[derive(Reflect, Clone, Debug)]
pub enum Ring2 {
    End,
    Go(Ring3),
}
doc_enum!(Ring2 { End, Go(a: Ring3) });
#[derive(Reflect, Clone, Debug)]
pub struct Ring3(BTreeMap<u8, Ring1>, Option<Box<Ring2>>);
doc_tstruct!(Ring3(0, 1));
#[derive(Reflect, Clone, Debug)]
pub struct RecRange {
    r: Vec<Range<Box<RecRange>>>,
    f: Option<Box<RangeFrom<RecRange>>>,
}
doc_struct!(RecRange { r, f });

/// The types that contain themselves.
pub fn recursive() -> Vec<Ty> {
    vec![
        ty::<Tree>(),
        ty::<L>(),
        ty::<Chain>(),
        ty::<Dir>(),
        ty::<Ping>(),
        ty::<Pong>(),
        ty::<Expr>(),
        ty::<First>(),
        ty::<Evens>(),
        ty::<Firsts>(),
        ty::<EvenU>(),
        ty::<RecT>(),
        ty::<RecB>(),
        ty::<RKey>(),
        ty::<RecMap>(),
        ty::<RecArr>(),
        ty::<RecTup>(),
        ty::<RecRes>(),
        ty::<RecEnum>(),
        ty::<Ring1>(),
        ty::<Ring2>(),
        ty::<Ring3>(),
        ty::<RecRange>(),
        ty::<Words>(),
        ty::<WordsS>(),
        ty::<Deep>(),
        ty::<Gen<Tree>>(),
        ty::<Gen<Gen<L>>>(),
        ty::<Box<L>>(),
        ty::<Option<Box<Ring1>>>(),
        ty::<Vec<Expr>>(),
        ty::<BTreeMap<RKey, Ping>>(),
        ty::<(Tree, Dir, Expr)>(),
        ty::<[Chain; 2]>(),
    ]
}

macro_rules! row {
    ($a:ty) => {
        ($a, ($a, u8), ($a, i8), ($a, u16), ($a, i16), ($a, u32), ($a, i32), ($a, u64), ($a, i64), ($a, u128),
            ($a, i128), ($a, bool), ($a, char), ($a, f32), ($a, f64), ($a, String))
    };
}
/// Hundreds of types in one description.
#[rustfmt::skip]
pub type Crowd = (row!(u8), row!(i8), row!(u16), row!(i16), row!(u32), row!(i32), row!(u64), row!(i64), row!(u128),
    row!(i128), row!(bool), row!(char), row!(f32), row!(f64), row!(String), row!(usize));
pub type Big = (
    u8,
    i8,
    u16,
    i16,
    u32,
    i32,
    u64,
    i64,
    u128,
    i128,
    bool,
    char,
    f32,
    f64,
    String,
    usize,
);

// ----------------------------------------------------------------------------------- type erasure

/// A document of whatever type.
pub trait DocObj {
    fn r(&self) -> &dyn Reflect;
    fn rm(&mut self) -> &mut dyn Reflect;
    fn rbox(self: Box<Self>) -> Box<dyn Reflect>;
    /// the whole document, skipped fields included, read without the library
    fn m(&self) -> M;
    /// the same with map entries in the order of the keys
    fn raw(&self) -> M;
    fn dup(&self) -> Box<dyn DocObj>;
}
impl<T: Doc> DocObj for T {
    fn r(&self) -> &dyn Reflect {
        self
    }
    fn rm(&mut self) -> &mut dyn Reflect {
        self
    }
    fn rbox(self: Box<Self>) -> Box<dyn Reflect> {
        self
    }
    fn m(&self) -> M {
        let mut m = self.to_m();
        norm(&mut m);
        m
    }
    fn raw(&self) -> M {
        self.to_m()
    }
    fn dup(&self) -> Box<dyn DocObj> {
        Box::new(self.clone())
    }
}

#[derive(Clone, Copy)]
pub struct Ty {
    pub name: &'static str,
    pub schema: SF,
    pub new: fn(&M) -> Box<dyn DocObj>,
    pub from_reflect: fn(&dyn Reflect) -> Option<Box<dyn DocObj>>,
    pub descriptor: fn() -> Cow<'static, TypeDescriptor>,
    pub type_id: fn() -> std::any::TypeId,
}

pub fn ty<T: Doc>() -> Ty {
    Ty {
        name: std::any::type_name::<T>(),
        schema: T::schema,
        new: |m| Box::new(T::from_m(m)),
        from_reflect: |r| T::from_reflect(r).map(|d| Box::new(d) as Box<dyn DocObj>),
        descriptor: <T as DescribeType>::type_descriptor,
        type_id: || std::any::TypeId::of::<T>(),
    }
}

/// Document types, in the order in which a shrunk run prefers them.
pub fn zoo() -> Vec<Ty> {
    let mut v = vec![
        ty::<Tree>(),
        ty::<Player>(),
        ty::<Shape>(),
        ty::<Scene>(),
        ty::<Item>(),
        ty::<Scalars>(),
        ty::<L>(),
        ty::<Chain>(),
        ty::<Dir>(),
        ty::<Ping>(),
        ty::<Expr>(),
        ty::<First>(),
        ty::<Evens>(),
        ty::<Firsts>(),
        ty::<EvenU>(),
        ty::<Gen<Shape>>(),
        ty::<Gen<i32>>(),
        ty::<Dyn>(),
        ty::<OptOut>(),
        ty::<Ranges>(),
        ty::<Foreign>(),
        ty::<NonZeros>(),
        ty::<Even>(),
        ty::<Keys>(),
        ty::<Flags>(),
        ty::<Unit>(),
        ty::<EmptyT>(),
        ty::<AllSkipped>(),
        ty::<Pong>(),
        ty::<RecMap>(),
        ty::<RecArr>(),
        ty::<RecTup>(),
        ty::<RecRes>(),
        ty::<RecEnum>(),
        ty::<Ring1>(),
        ty::<RecRange>(),
        ty::<RecB>(),
        ty::<Vec<Player>>(),
        ty::<BTreeMap<String, Scene>>(),
        ty::<Option<Player>>(),
        ty::<Result<Shape, Item>>(),
        ty::<(Player, Shape, i32)>(),
        ty::<Big>(),
        ty::<[Item; 3]>(),
        ty::<Vec<Vec<u8>>>(),
        ty::<i32>(),
        ty::<String>(),
        ty::<Box<Player>>(),
        ty::<Value>(),
    ];
    let at = v.len() - 1;
    v.splice(
        at..at,
        same().into_iter().chain([
            ty::<Words>(),
            ty::<WordsS>(),
            ty::<Wide>(),
            ty::<Deep>(),
            ty::<Vec<WideE>>(),
            ty::<NotedT>(),
            ty::<Never>(),
            ty::<Noted>(),
            ty::<Option<NotedU>>(),
        ]),
    );
    v
}

/// The dynamic form of a document.
pub fn erased() -> Ty {
    ty::<Value>()
}

/// Does the type (or anything in it) skip fields?
pub fn has_skips(s: &S) -> bool {
    fn go(s: &S, seen: &mut Vec<std::any::TypeId>) -> bool {
        if seen.contains(&s.id) {
            return false;
        }
        seen.push(s.id);
        let mut fs = |f: &[F]| f.iter().any(|f| f.skip.is_some() || go(&(f.ty)(), seen));
        match &s.k {
            SK::Struct(f) | SK::TStruct(f) => fs(f),
            SK::Tuple(t) => t.iter().any(|t| go(&t(), seen)),
            SK::Enum(v) => v.iter().any(|v| match &v.k {
                VK::Unit => false,
                VK::Tuple(f) | VK::Struct(f) => fs(f),
            }),
            SK::List(t) | SK::Arr(t, _) => go(&t(), seen),
            SK::Map(k, v) => go(&k(), seen) || go(&v(), seen),
            _ => false,
        }
    }
    go(s, &mut vec![])
}
