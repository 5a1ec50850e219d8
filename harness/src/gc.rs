//! Threads that work on values of their own and read shared ones.
use crate::conv;
use crate::model::*;
use crate::types::{DocObj, Ty};
use crate::wire::{self, Codec, CODECS};
use crate::world::*;
use crate::{desc, types, Prop};
use mirror_mirror::enum_::EnumValue;
use mirror_mirror::key_path::{GetPath, KeyPath};
use mirror_mirror::struct_::StructValue;
use mirror_mirror::try_visit::{try_visit, TryVisit};
use mirror_mirror::type_info::OpaqueType;
use mirror_mirror::type_info::PrettyPrintRoot;
use mirror_mirror::{Reflect, Value};
use simrt::{count, draw, ev, nontrivial, violate, SchedCfg};
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What a thread does, fixed beforehand: carrying it out draws nothing.
enum Do {
    Edit(usize, KeyPath, Act),
    /// merge a part of a document into another of the same thread
    Paste(usize, usize, KeyPath),
    Read(Src, KeyPath),
    Convert(Src, Ty),
    Copy(Src),
    Compare(Src, Src),
    Print(Src, bool),
    Visit(Src, Ty),
    Wire(Src, Codec),
    Describe(Ty),
    DescribeAt(Ty, Vec<Kx>, KeyPath),
    PrintType(Ty),
    DefaultOf(Ty),
    Path(KeyPath),
    /// put a document together from nothing
    Build(u32),
}
#[derive(Clone, Copy, Debug)]
enum Src {
    Own(usize),
    Shared(usize),
}
enum Act {
    Patch(Value),
    Push(Value),
    Pop,
    Remove(usize),
    Insert(Value, Value),
    Delete(Value),
}

struct Docs(Vec<Box<dyn DocObj>>);
unsafe impl Send for Docs {}
unsafe impl Sync for Docs {}
struct Prog(Vec<(Do, String)>);
unsafe impl Send for Prog {}
unsafe impl Sync for Prog {}

struct Leaves(String);
macro_rules! see {
    ($($f:ident $t:ty),*) => { $(fn $f(&mut self, v: $t) -> Result<(), ()> { write!(self.0, "{v:?} ").map_err(|_| ()) })* };
}
impl TryVisit for Leaves {
    type Error = ();
    see!(try_visit_usize usize, try_visit_u8 u8, try_visit_u16 u16, try_visit_u32 u32, try_visit_u64 u64, try_visit_u128 u128,
        try_visit_i8 i8, try_visit_i16 i16, try_visit_i32 i32, try_visit_i64 i64, try_visit_i128 i128, try_visit_bool bool,
        try_visit_char char, try_visit_f32 f32, try_visit_f64 f64, try_visit_string &String);
    fn try_visit_opaque(&mut self, v: &dyn Reflect, ty: OpaqueType<'_>) -> Result<(), ()> {
        write!(self.0, "{}:{v:?} ", ty.type_name()).map_err(|_| ())
    }
}

fn opt(r: Option<Box<dyn Reflect>>) -> String {
    match r {
        None => "none".into(),
        Some(r) => text(&*r),
    }
}
fn text(r: &dyn Reflect) -> String {
    show(&conv::norm_value(&r.to_value()))
}

fn perform(own: &mut Docs, shared: &Docs, d: &Do) -> String {
    fn of<'a>(own: &'a Docs, shared: &'a Docs, s: &Src) -> &'a dyn DocObj {
        match s {
            Src::Own(i) => &*own.0[*i],
            Src::Shared(i) => &*shared.0[*i],
        }
    }
    match d {
        Do::Edit(i, p, a) => {
            let Some(r) = own.0[*i].rm().at_mut(p) else {
                return "nothing there".into();
            };
            let done = match a {
                Act::Patch(v) => {
                    r.patch(v);
                    "merged".into()
                }
                Act::Push(v) => r
                    .as_list_mut()
                    .map(|l| {
                        l.push(v);
                        format!("pushed, {}", l.len())
                    })
                    .unwrap_or_default(),
                Act::Pop => r.as_list_mut().map(|l| opt(l.pop())).unwrap_or_default(),
                Act::Remove(i) => r
                    .as_list_mut()
                    .map(|l| opt(l.try_remove(*i)))
                    .unwrap_or_default(),
                Act::Insert(k, v) => r
                    .as_map_mut()
                    .map(|m| opt(m.insert(k, v)))
                    .unwrap_or_default(),
                Act::Delete(k) => r.as_map_mut().map(|m| opt(m.remove(k))).unwrap_or_default(),
            };
            format!("{done}: {}", show(&own.0[*i].m()))
        }
        Do::Paste(i, j, p) => {
            let (a, b) = (&mut own.0[*i].dup(), &own.0[*j]);
            let Some(v) = b.r().at(p) else {
                return "nothing there".into();
            };
            let Some(r) = a.rm().at_mut(p) else {
                return "nothing there".into();
            };
            r.patch(v);
            show(&a.m())
        }
        Do::Read(s, p) => match of(own, shared, s).r().at(p) {
            Some(r) => format!("{} {:?}", text(r), r.type_descriptor().type_name()),
            None => "nothing there".into(),
        },
        Do::Convert(s, ty) => match (ty.from_reflect)(of(own, shared, s).r()) {
            Some(d) => show(&d.m()),
            None => "no".into(),
        },
        Do::Copy(s) => {
            let c = of(own, shared, s).r().clone_reflect();
            let v = c.to_value();
            let mut e = EnumValue::new_tuple_variant("Some");
            e.push_tuple_field(v);
            text(&*c) + &show(&conv::norm_value(&e.finish().to_value()))
        }
        Do::Compare(a, b) => {
            let (a, b) = (of(own, shared, a).r(), of(own, shared, b).r());
            let (v, w) = (a.to_value(), b.to_value());
            let mut h = std::collections::hash_map::DefaultHasher::new();
            v.hash(&mut h);
            format!(
                "{:?} {} {:?} {:x}",
                mirror_mirror::reflect_eq(a, b),
                v == w,
                v.cmp(&w),
                h.finish()
            )
        }
        Do::Print(s, alt) => {
            let r = of(own, shared, s).r();
            if *alt {
                format!("{r:#?}")
            } else {
                format!("{r:?} {:?}", r.to_value())
            }
        }
        Do::Visit(s, ty) => {
            let mut l = Leaves(String::new());
            let r = try_visit(&mut l, of(own, shared, s).r(), (ty.descriptor)().get_type());
            format!("{r:?} {}", l.0)
        }
        Do::Wire(s, c) => {
            let v = of(own, shared, s).r().to_value();
            match wire::to_vec(*c, &v) {
                Ok(b) => match wire::from_buf::<Value>(*c, &b) {
                    Ok((w, n)) => format!(
                        "{n} bytes {:x} {}",
                        simrt::fnv(simrt::FNV0, &b),
                        show(&conv::norm_value(&w))
                    ),
                    Err(e) => e,
                },
                Err(e) => e,
            }
        }
        Do::Describe(ty) => {
            let d = (ty.descriptor)();
            let b = wire::to_vec(Codec::SpeedyLe, &*d).unwrap();
            format!("{} {:x}", desc::answers(&d), simrt::fnv(simrt::FNV0, &b))
        }
        Do::DescribeAt(ty, p, _) => desc::at_text(&(ty.descriptor)(), p),
        Do::PrintType(ty) => {
            let d = (ty.descriptor)();
            let t = format!(
                "{} {:?}",
                d.pretty_print_root(),
                mirror_mirror::type_info::SimpleTypeName::new(d.type_name()).map(|n| n.to_string())
            );
            t
        }
        Do::DefaultOf(ty) => match (ty.descriptor)().get_type().default_value() {
            Some(v) => match (ty.from_reflect)(&v) {
                Some(d) => show(&d.m()),
                None => format!("not accepted: {}", text(&v)),
            },
            None => "none".into(),
        },
        Do::Path(p) => format!("{p} {p:?} {}", p.len()),
        Do::Build(n) => {
            let mut s = StructValue::new();
            for i in 0..*n {
                s.set_field(format!("f{i}"), Value::from(vec![i, n - i]));
            }
            text(&s)
        }
    }
}

fn carry_out(own: &mut Docs, shared: &Docs, p: &Prog) -> Vec<String> {
    p.0.iter()
        .map(
            |(d, _)| match catch_unwind(AssertUnwindSafe(|| perform(own, shared, d))) {
                Ok(t) => t,
                Err(p) => format!("panic: {}", simrt::panic_message(&*p)),
            },
        )
        .collect()
}

fn action(op: &Op) -> Act {
    match op {
        Op::Patch(v) => Act::Patch(conv::to_value(v)),
        Op::Push(v) => Act::Push(conv::to_value(v)),
        Op::Pop => Act::Pop,
        Op::Remove(i) => Act::Remove(*i),
        Op::Insert(k, v) => Act::Insert(conv::to_value(k), conv::to_value(v)),
        Op::Delete(k) => Act::Delete(conv::to_value(k)),
    }
}

fn has_default(ty: &Ty) -> bool {
    dflt(&(ty.schema)(), 6).is_some()
}

/// A dynamic value of that many levels.
fn nested(depth: u32) -> M {
    let mut m = gen_any(1);
    let same = draw(2) == 0;
    let k0 = draw(6);
    for _ in 0..depth {
        m = match if same { k0 } else { draw(6) } {
            0 => M::List(vec![m]),
            1 => M::Tuple(vec![int(T::U8, 1), m]),
            2 => M::Struct(vec![("next".into(), m)]),
            3 => M::Enum("Some".into(), K::Tuple(vec![m])),
            4 => M::Map(vec![(M::Str("a".into()), m)]),
            _ => M::TStruct(vec![m]),
        };
    }
    m
}

static mut OUT: Vec<Vec<String>> = Vec::new();
static mut AFTER: Vec<Option<Docs>> = Vec::new();

fn c18() {
    let pick = |n: u32| -> Vec<Ty> { (0..n).map(|_| draw_type(|_| true)).collect() };
    let threads = 2 + draw(4) as usize;
    let tys = pick(1 + draw(3));
    // in some runs values are nested deeply, in some all threads do much the same
    let depth = if draw(12) == 11 { 30 + draw(80) } else { 0 };
    let focus = (draw(3) == 2).then(|| draw(18));
    let one = |tys: &[Ty]| {
        if depth > 0 && draw(2) == 1 {
            let mut m = nested(depth);
            norm(&mut m);
            return (types::erased(), m);
        }
        let ty = tys[draw(tys.len() as u32) as usize];
        let s = (ty.schema)();
        let mut m = gen(&s, 3);
        norm(&mut m);
        if draw(3) == 2 {
            (types::erased(), view(&s, &m))
        } else {
            (ty, m)
        }
    };
    let shared: Vec<(Ty, M)> = (0..draw(3)).map(|_| one(&tys)).collect();
    let mut progs = vec![];
    let mut starts = vec![];
    let mut ends = vec![];
    for t in 0..threads {
        let start: Vec<(Ty, M)> = (0..1 + draw(3)).map(|_| one(&tys)).collect();
        let mut now = start.clone();
        let mut prog = vec![];
        for _ in 0..1 + draw(7) {
            let i = draw(now.len() as u32) as usize;
            let any = |_: ()| {
                if !shared.is_empty() && draw(3) == 2 {
                    Src::Shared(draw(shared.len() as u32) as usize)
                } else {
                    Src::Own(draw(start.len() as u32) as usize)
                }
            };
            let of = |s: &Src| match s {
                Src::Own(i) => now[*i].clone(),
                Src::Shared(i) => shared[*i].clone(),
            };
            let ty = tys[draw(tys.len() as u32) as usize];
            let kind = match focus {
                Some(k) if draw(4) > 0 => k,
                _ => draw(18),
            };
            let (d, what) = match kind {
                0..=3 => {
                    let s = (now[i].0.schema)();
                    let fit = if draw(2) == 0 { Fit::Exact } else { Fit::Near };
                    let e = gen_edit(&s, &now[i].1, fit);
                    apply(&s, &mut now[i].1, &e.path, &e.op);
                    (
                        Do::Edit(i, conv::key_path_plain(&e.path), action(&e.op)),
                        format!("{} to {i}", show_edit(&e)),
                    )
                }
                4 => {
                    let j = draw(now.len() as u32) as usize;
                    let p = gen_path(&(now[i].0.schema)(), &now[i].1, (1, 3));
                    (
                        Do::Paste(i, j, conv::key_path_plain(&p)),
                        format!("merge {} of {j} into a copy of {i}", show_path(&p)),
                    )
                }
                5 => {
                    let s = any(());
                    let (ty, m) = of(&s);
                    let p = gen_path(&(ty.schema)(), &m, (1, 4));
                    (
                        Do::Read(s, conv::key_path_plain(&p)),
                        format!("read {} of {s:?}", show_path(&p)),
                    )
                }
                6 => {
                    let s = any(());
                    (Do::Convert(s, ty), format!("convert {s:?} to {}", ty.name))
                }
                7 => {
                    let s = any(());
                    (Do::Copy(s), format!("copy {s:?}"))
                }
                8 => {
                    let a = any(());
                    let b = if draw(3) == 1 { a.clone() } else { any(()) };
                    (Do::Compare(a, b), format!("compare {a:?} and {b:?}"))
                }
                9 => {
                    let s = any(());
                    (Do::Print(s, draw(2) == 1), format!("print {s:?}"))
                }
                10 => {
                    let s = any(());
                    let ty = of(&s).0;
                    (Do::Visit(s, ty), format!("visit {s:?}"))
                }
                11 => {
                    let s = any(());
                    let c = CODECS[draw(CODECS.len() as u32) as usize];
                    (Do::Wire(s, c), format!("send {s:?} as {c:?}"))
                }
                12 | 13 => (Do::Describe(ty), format!("describe {}", ty.name)),
                14 => {
                    let p = gen_path(&(ty.schema)(), &gen(&(ty.schema)(), 3), (1, 4));
                    (
                        Do::DescribeAt(ty, p.clone(), conv::key_path_plain(&p)),
                        format!("describe {} of {}", show_path(&p), ty.name),
                    )
                }
                15 => (
                    Do::PrintType(ty),
                    format!("print the description of {}", ty.name),
                ),
                16 if has_default(&ty) => (Do::DefaultOf(ty), format!("default of {}", ty.name)),
                16 => (Do::Build(draw(5)), "build a value".into()),
                _ => {
                    let p = gen_path(&(ty.schema)(), &gen(&(ty.schema)(), 3), (1, 6));
                    (
                        Do::Path(conv::key_path_plain(&p)),
                        format!("print the path {}", show_path(&p)),
                    )
                }
            };
            ev!("thread {t}: {what}");
            prog.push((d, what));
        }
        progs.push(Prog(prog));
        starts.push(start);
        ends.push(now);
    }
    let make = |v: &[(Ty, M)]| Docs(v.iter().map(|(t, m)| (t.new)(m)).collect());
    let common: &'static Docs = Box::leak(Box::new(make(&shared)));
    let progs: &'static Vec<Prog> = Box::leak(Box::new(progs));
    // all at once, with nothing described yet
    unsafe {
        OUT = (0..threads).map(|_| vec![]).collect();
        AFTER = (0..threads).map(|_| None).collect();
    }
    let bodies = (0..threads)
        .map(|t| {
            let mut own = make(&starts[t]);
            Box::new(move || {
                let r = carry_out(&mut own, common, &progs[t]);
                unsafe {
                    OUT[t] = r;
                    AFTER[t] = Some(own);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let cfg = SchedCfg {
        gap_bits: 3 + draw(14),
        max_preempts: [6, 20, 80, 300][draw(4) as usize],
        stalls: draw(4),
        spurious: draw(3),
    };
    for (t, p) in simrt::run_threads(cfg, bodies).into_iter().enumerate() {
        if let Some(p) = p {
            violate!("panic", "thread {t} panicked: {p}");
        }
    }
    nontrivial();
    #[allow(static_mut_refs)]
    let (out, after) = unsafe { (std::mem::take(&mut OUT), std::mem::take(&mut AFTER)) };
    // one after the other
    for t in 0..threads {
        let mut own = make(&starts[t]);
        let alone = carry_out(&mut own, common, &progs[t]);
        for (k, (a, b)) in alone.iter().zip(&out[t]).enumerate() {
            if a.starts_with("panic") {
                count("reach.panicked");
            }
            if a != b {
                violate!(
                    "result",
                    "thread {t}: {} gives\n  {b}\nwhile other threads work, and alone it gives\n  {a}",
                    progs[t].0[k].1
                );
            }
        }
        let done = after[t].as_ref().unwrap();
        for (i, (ty, m)) in ends[t].iter().enumerate() {
            for (d, how) in [
                (&done.0[i], "while other threads work"),
                (&own.0[i], "alone"),
            ] {
                if d.m() != *m {
                    violate!("state", "document {i} of thread {t} ({}), edited {how}, is\n  {}\nand should be\n  {}", ty.name, show(&d.m()), show(m));
                }
            }
        }
    }
    for (i, (ty, m)) in shared.iter().enumerate() {
        let d = &common.0[i];
        if d.m() != *m || conv::read(d.r()) != view(&(ty.schema)(), m) {
            violate!(
                "state",
                "shared document {i} was {} and is {}",
                show(m),
                show(&d.m())
            );
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        run: c18,
        prep: None,
        quick: 30_000,
        thorough: 1_000_000,
        budget: 600_000_000,
        cpu: 40,
        rule: "2 to 5 threads, each with 1 to 7 operations (edits, merges, reads, conversions, copies, comparisons, prints, visits, encodings, descriptions, defaults) on documents of its own and shared read-only ones, up to 300 preemptions at basic-block edges, starting with nothing described; compared with the same operations alone and with the model; non-trivial: every run",
        real: crate::gd::REAL,
        stub: crate::gd::STUB,
    }]
}
