//! User code that fails or panics in the middle of an edit.
use crate::conv;
use crate::model::*;
use crate::types::*;
use crate::world::*;
use crate::Prop;
use mirror_mirror::key_path::GetPath;
use mirror_mirror::{FromReflect, Reflect};
use simrt::{count, draw, ev, nontrivial, violate};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------------------ failing user code

#[derive(Default)]
struct Trap {
    armed: bool,
    /// the call that fails, or none
    at: Option<u64>,
    /// conversions answer None instead of panicking
    reject: bool,
    calls: u64,
    /// what failed, and whether it panicked
    fired: Option<(&'static str, bool)>,
    next: u64,
    live: BTreeSet<u64>,
}
thread_local! {
    static TRAP: RefCell<Trap> = RefCell::default();
}
fn trap<R>(f: impl FnOnce(&mut Trap) -> R) -> R {
    TRAP.with(|t| f(&mut t.borrow_mut()))
}

struct UserPanic(u64);

/// One call of user code. True if it is to fail.
fn call(what: &'static str, can_reject: bool) -> bool {
    let go = trap(|t| {
        if !t.armed {
            return None;
        }
        t.calls += 1;
        if t.at != Some(t.calls - 1) {
            return None;
        }
        let panics = !(t.reject && can_reject);
        t.fired = Some((what, panics));
        Some((panics, t.calls - 1))
    });
    match go {
        None => false,
        Some((false, _)) => true,
        Some((true, n)) => std::panic::panic_any(UserPanic(n)),
    }
}

/// A resource: every one made is dropped exactly once.
#[derive(Debug)]
pub struct Id(u64);
impl Id {
    fn make() -> Id {
        trap(|t| {
            t.next += 1;
            t.live.insert(t.next);
            Id(t.next)
        })
    }
}
impl Default for Id {
    fn default() -> Id {
        call("default", false);
        Id::make()
    }
}
impl Clone for Id {
    fn clone(&self) -> Id {
        call("clone", false);
        if !trap(|t| t.live.contains(&self.0)) {
            violate!("dropped", "a resource is cloned after it was dropped");
        }
        Id::make()
    }
}
impl Drop for Id {
    fn drop(&mut self) {
        if !trap(|t| t.live.remove(&self.0)) {
            violate!("dropped", "a resource is dropped twice");
        }
    }
}

#[derive(Reflect, Clone, Debug)]
pub struct Token {
    v: u32,
    #[reflect(skip)]
    id: Id,
}
impl Default for Token {
    fn default() -> Token {
        Token {
            v: 0,
            id: Id::default(),
        }
    }
}
impl Doc for Token {
    fn schema() -> S {
        S {
            name: "Token",
            id: std::any::TypeId::of::<Token>(),
            k: SK::Struct(vec![F {
                name: "v",
                ty: <u32 as Doc>::schema,
                skip: None,
                with: None,
            }]),
        }
    }
    fn to_m(&self) -> M {
        M::Struct(vec![("v".into(), self.v.to_m())])
    }
    fn from_m(m: &M) -> Self {
        let M::Struct(f) = m else { unreachable!() };
        Token {
            v: u32::from_m(&f[0].1),
            id: Id::default(),
        }
    }
}

/// A key whose comparison is user code.
#[derive(Reflect, Clone, Debug)]
pub struct GKey(u8, #[reflect(skip)] Id);
impl PartialEq for GKey {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o).is_eq()
    }
}
impl Eq for GKey {}
impl PartialOrd for GKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for GKey {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        call("compare", false);
        self.0.cmp(&o.0)
    }
}
impl Doc for GKey {
    fn schema() -> S {
        S {
            name: "GKey",
            id: std::any::TypeId::of::<GKey>(),
            k: SK::TStruct(vec![F {
                name: "0",
                ty: <u8 as Doc>::schema,
                skip: None,
                with: None,
            }]),
        }
    }
    fn to_m(&self) -> M {
        M::TStruct(vec![self.0.to_m()])
    }
    fn from_m(m: &M) -> Self {
        let M::TStruct(f) = m else { unreachable!() };
        GKey(u8::from_m(&f[0]), Id::default())
    }
}

fn guard<T: FromReflect>(v: &dyn Reflect) -> Option<T> {
    if call("conversion", true) {
        return None;
    }
    T::from_reflect(v)
}
fn guard_m<T: Doc>(m: &M) -> Option<M> {
    from_v(&T::schema(), m)
}

/// A field type with a hand-written conversion and merge.
#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(FromReflect))]
pub struct Hand {
    a: i32,
    t: Token,
}
impl FromReflect for Hand {
    fn from_reflect(r: &dyn Reflect) -> Option<Self> {
        if call("from_reflect", true) {
            return None;
        }
        let s = r.as_struct()?;
        let a = i32::from_reflect(s.field("a")?)?;
        let t = Token::from_reflect(s.field("t")?)?;
        if call("from_reflect, late", true) {
            return None;
        }
        Some(Hand { a, t })
    }
}
doc_struct!(Hand { a, t });

#[derive(Reflect, Clone, Debug)]
pub struct Guarded {
    #[reflect(from_reflect_with(guard))]
    x: i32,
    y: i32,
    #[reflect(skip)]
    tok: Token,
    own: Token,
    #[reflect(from_reflect_with(guard))]
    l: Vec<u8>,
}
doc_struct!(Guarded { x [with guard_m::<i32>], y, tok [skip Token], own, l [with guard_m::<Vec<u8>>] });

#[derive(Reflect, Clone, Debug)]
pub struct GuardedT(
    Token,
    #[reflect(skip)] Token,
    #[reflect(from_reflect_with(guard))] i32,
);
doc_tstruct!(GuardedT(0, 1 [skip Token], 2 [with guard_m::<i32>]));

#[derive(Reflect, Clone, Debug)]
pub enum GuardedE {
    C,
    A(
        #[reflect(from_reflect_with(guard))] i32,
        #[reflect(skip)] Token,
    ),
    B {
        t: Token,
        #[reflect(from_reflect_with(guard))]
        x: i32,
        g: GuardedT,
    },
    D(Vec<GuardedT>, Token),
    H(Hand),
}
doc_enum!(GuardedE { C, A(a: i32 [with guard_m::<i32>], b: Token [skip Token]), B { t: Token, x: i32 [with guard_m::<i32>], g: GuardedT },
    D(a: Vec<GuardedT>, b: Token), H(a: Hand) });

/// The same without Clone.
#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(Clone))]
pub enum GuardedN {
    A(#[reflect(from_reflect_with(guard))] i32, Token),
    B {
        g: Guarded,
        #[reflect(skip)]
        t: Token,
    },
}
doc_enum!(GuardedN { A(a: i32 [with guard_m::<i32>], b: Token), B { g: Guarded, t: Token [skip Token] } });

#[derive(Reflect, Clone, Debug)]
pub struct Vault {
    list: Vec<Guarded>,
    enums: Vec<GuardedE>,
    map: BTreeMap<GKey, GuardedE>,
    by: BTreeMap<String, Vec<GuardedT>>,
    opt: Option<Guarded>,
    res: Result<GuardedE, Token>,
    arr: [GuardedT; 2],
    pair: (Token, GuardedE, Box<Guarded>),
    n: GuardedN,
    hands: Vec<Hand>,
    dynamic: mirror_mirror::Value,
}
doc_struct!(Vault {
    list,
    enums,
    map,
    by,
    opt,
    res,
    arr,
    pair,
    n,
    hands,
    dynamic
});

fn types() -> Vec<Ty> {
    vec![
        ty::<Vault>(),
        ty::<Vec<Guarded>>(),
        ty::<Vec<GuardedE>>(),
        ty::<BTreeMap<GKey, GuardedE>>(),
        ty::<BTreeMap<GKey, Vec<Hand>>>(),
        ty::<GuardedE>(),
        ty::<Guarded>(),
        ty::<GuardedN>(),
        ty::<Option<Vec<GuardedT>>>(),
        ty::<[GuardedE; 3]>(),
        ty::<(GuardedT, Hand)>(),
        ty::<Vec<Vec<Token>>>(),
        ty::<Vec<Vault>>(),
    ]
}

/// How many resources a document holds.
fn resources(s: &S, m: &M) -> usize {
    let pos = |f: &[F], m: &[M]| {
        f.iter()
            .zip(m)
            .map(|(f, m)| resources(&(f.ty)(), m))
            .sum::<usize>()
    };
    let named = |f: &[F], m: &[(String, M)]| {
        f.iter()
            .zip(m)
            .map(|(f, m)| resources(&(f.ty)(), &m.1))
            .sum::<usize>()
    };
    let own = (s.name == "Token" || s.name == "GKey") as usize;
    own + match (&s.k, m) {
        (SK::Struct(f), M::Struct(v)) => named(f, v),
        (SK::TStruct(f), M::TStruct(v)) => pos(f, v),
        (SK::Tuple(t), M::Tuple(v)) => t.iter().zip(v).map(|(t, m)| resources(&t(), m)).sum(),
        (SK::Enum(vs), M::Enum(n, k)) => {
            let v = vs.iter().find(|v| v.name == n).unwrap();
            match (&v.k, k) {
                (VK::Tuple(f), K::Tuple(v)) => pos(f, v),
                (VK::Struct(f), K::Struct(v)) => named(f, v),
                _ => 0,
            }
        }
        (SK::List(t) | SK::Arr(t, _), M::List(v)) => v.iter().map(|m| resources(&t(), m)).sum(),
        (SK::Map(k, v), M::Map(e)) => e
            .iter()
            .map(|x| resources(&k(), &x.0) + resources(&v(), &x.1))
            .sum(),
        _ => 0,
    }
}

/// Whether every leaf is as it was before or as the complete edit leaves it.
fn mixed(before: &M, after: &M, got: &M) -> bool {
    if got == before || got == after {
        return true;
    }
    let all = |b: &[M], a: &[M], g: &[M]| {
        b.len() == g.len()
            && g.iter()
                .enumerate()
                .all(|(i, g)| mixed(&b[i], a.get(i).unwrap_or(&b[i]), g))
    };
    let named = |b: &[(String, M)], a: &[(String, M)], g: &[(String, M)]| {
        b.len() == g.len()
            && g.iter()
                .enumerate()
                .all(|(i, g)| g.0 == b[i].0 && mixed(&b[i].1, &a.get(i).unwrap_or(&b[i]).1, &g.1))
    };
    match (before, after, got) {
        (M::Struct(b), M::Struct(a), M::Struct(g)) => named(b, a, g),
        (M::TStruct(b), M::TStruct(a), M::TStruct(g))
        | (M::Tuple(b), M::Tuple(a), M::Tuple(g))
        | (M::List(b), M::List(a), M::List(g)) => all(b, a, g),
        (M::Enum(bn, bk), M::Enum(an, ak), M::Enum(gn, gk)) if bn == an && an == gn => {
            match (bk, ak, gk) {
                (K::Tuple(b), K::Tuple(a), K::Tuple(g)) => all(b, a, g),
                (K::Struct(b), K::Struct(a), K::Struct(g)) => named(b, a, g),
                _ => false,
            }
        }
        (M::Map(b), M::Map(a), M::Map(g)) => {
            b.len() == g.len()
                && b.iter().zip(g).all(|((bk, b), (gk, g))| {
                    bk == gk && mixed(b, map_find(a, gk).map_or(b, |i| &a[i].1), g)
                })
        }
        _ => false,
    }
}

/// An operation with the values it hands over.
enum Act {
    Op(Op, Option<Box<dyn Reflect>>, Option<Box<dyn Reflect>>),
    /// merge the part of the other document at a path
    Part(Box<dyn DocObj>, Vec<Kx>),
}

fn perform(r: &mut dyn Reflect, a: &Act) -> bool {
    let p = |o: &Option<Box<dyn Reflect>>| -> *const dyn Reflect {
        o.as_deref().unwrap() as *const dyn Reflect
    };
    match a {
        Act::Op(op, v, k) => match op {
            Op::Patch(_) => {
                r.patch(unsafe { &*p(v) });
                true
            }
            Op::Push(_) => match r.as_list_mut() {
                Some(l) => {
                    l.push(unsafe { &*p(v) });
                    true
                }
                None => false,
            },
            Op::Pop => r.as_list_mut().map(|l| l.pop()).is_some(),
            Op::Remove(i) => r.as_list_mut().map(|l| l.try_remove(*i)).is_some(),
            Op::Insert(..) => r
                .as_map_mut()
                .map(|m| m.insert(unsafe { &*p(k) }, unsafe { &*p(v) }))
                .is_some(),
            Op::Delete(_) => r
                .as_map_mut()
                .map(|m| m.remove(unsafe { &*p(k) }))
                .is_some(),
        },
        Act::Part(d, path) => {
            r.patch(d.r().at(&conv::key_path_plain(path)).unwrap());
            true
        }
    }
}

fn armed<T>(
    at: Option<u64>,
    reject: bool,
    f: impl FnOnce() -> T,
) -> (
    Result<T, Box<dyn std::any::Any + Send>>,
    u64,
    Option<(&'static str, bool)>,
) {
    trap(|t| {
        t.armed = true;
        t.at = at;
        t.reject = reject;
        t.calls = 0;
        t.fired = None;
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    let (n, fired) = trap(|t| {
        t.armed = false;
        (t.calls, t.fired.take())
    });
    (r, n, fired)
}

fn balance(reps: &[Rep], when: &str) {
    let want: usize = reps.iter().map(|r| resources(&r.s, &r.m)).sum();
    let live = trap(|t| t.live.len());
    if live != want {
        violate!(
            "leak",
            "{when}: {live} resources exist and the documents hold {want}"
        );
    }
}

/// What came out of an operation whose user code may have failed.
fn judge(
    what: &str,
    r: &Result<bool, Box<dyn std::any::Any + Send>>,
    fired: Option<(&'static str, bool)>,
) {
    match (r, fired) {
        (Ok(_), Some((c, true))) => violate!(
            "panic lost",
            "{what}: the {c} panicked and the caller did not see it"
        ),
        (Err(p), Some((_, true))) if p.is::<UserPanic>() => {}
        (Err(p), f) => violate!(
            "panic",
            "{what}: panicked with {:?} ({f:?})",
            simrt::panic_message(&**p)
        ),
        (Ok(_), _) => {}
    }
}

/// Values near the ones the documents hold convert with some probability; the rest of the
/// histories use ordinary ones.
fn fit() -> Fit {
    if draw(3) == 2 {
        Fit::Near
    } else {
        Fit::Exact
    }
}

fn c10() {
    trap(|t| *t = Trap::default());
    let t = types();
    let ty = t[draw(t.len() as u32) as usize];
    let s = (ty.schema)();
    let n = 1 + draw(2) as usize;
    let mut reps: Vec<Rep> = (0..n)
        .map(|i| {
            Rep::new(format!("doc{i}"), ty, {
                let mut m = gen(&s, 3);
                norm(&mut m);
                m
            })
        })
        .collect();
    balance(&reps, "at the start");
    ev!("{n} documents of {}", ty.name);
    for r in &reps {
        ev!("{}: {}", r.name, show(&r.m));
    }
    for _ in 0..2 + draw(8) {
        let i = draw(n as u32) as usize;
        match draw(8) {
            0 => {
                let e = gen_edit(&s, &reps[i].m, fit());
                ev!("{}: {}", reps[i].name, show_edit(&e));
                reps[i].apply(&e.path, &e.op);
                balance(&reps, &show_edit(&e));
            }
            1 => convert(&mut reps, i),
            _ => edit(&mut reps, i),
        }
    }
    for r in &reps {
        r.check("at the end");
    }
    for r in reps.iter_mut() {
        // taken apart, everything is released
        r.doc = (erased().new)(&M::Tuple(vec![]));
    }
    let live = trap(|t| t.live.len());
    if live != 0 {
        violate!(
            "leak",
            "{live} resources exist after the documents are gone"
        );
    }
}

/// Converting values to the documents' type and copying documents.
fn convert(reps: &mut [Rep], i: usize) {
    let s = reps[i].s.clone();
    let ty = reps[i].ty;
    let copy = draw(3) == 0;
    let v = gen_value(&s, Some(&reps[i].m), fit());
    let src: Box<dyn Reflect> = if draw(2) == 0 {
        Box::new(conv::to_value(&v))
    } else {
        reps[i].doc.dup().rbox()
    };
    let what = if copy {
        "copying the document".to_string()
    } else {
        format!("converting {}", show(&conv::read(&*src)))
    };
    let held = trap(|t| t.live.len());
    let run = |at, reject| {
        armed(at, reject, || {
            if copy {
                Some(src.clone_reflect())
            } else {
                (ty.from_reflect)(&*src).map(|d| d.rbox())
            }
        })
    };
    let (r0, calls, _) = run(None, false);
    let plain = match &r0 {
        Ok(r) => r.as_ref().map(|r| conv::read(&**r)),
        Err(p) => violate!(
            "panic",
            "{what}: panicked with {:?}",
            simrt::panic_message(&**p)
        ),
    };
    drop(r0);
    if trap(|t| t.live.len()) != held {
        violate!(
            "leak",
            "{what} leaves {} resources behind, there were {held}",
            trap(|t| t.live.len())
        );
    }
    if calls == 0 {
        return;
    }
    let k = draw(calls as u32) as u64;
    // copying a document converts its own value back, which conversions do not reject
    let reject = !copy && draw(2) == 0;
    let (r, _, fired) = run(Some(k), reject);
    ev!("{what}, failing call {k} of {calls}: {fired:?}");
    let r = match r {
        Ok(Some(r)) => {
            if let Some((c, _)) = fired {
                violate!(
                    "created",
                    "{what}: the {c} failed and something was created: {}",
                    show(&conv::read(&*r))
                );
            }
            if Some(conv::read(&*r)) != plain {
                violate!(
                    "conversion",
                    "{what} gives {}, before it gave {:?}",
                    show(&conv::read(&*r)),
                    plain.as_ref().map(show)
                );
            }
            Ok(true)
        }
        Ok(None) => Ok(false),
        Err(p) => Err(p),
    };
    judge(&what, &r, fired);
    if let Some((c, p)) = fired {
        nontrivial();
        count(&format!(
            "fault.{}.{}",
            if p { "panic" } else { "reject" },
            c
        ));
    }
    if trap(|t| t.live.len()) != held {
        violate!(
            "leak",
            "{what} with {fired:?} leaves {} resources behind, there were {held}",
            trap(|t| t.live.len())
        );
    }
    drop(src);
    balance(reps, &what);
}

fn edit(reps: &mut [Rep], i: usize) {
    let s = reps[i].s.clone();
    let before = reps[i].m.clone();
    let path = if draw(6) == 5 {
        vec![]
    } else {
        gen_path(&s, &before, (1, 2))
    };
    let mut c = before.clone();
    let (ps, pm) = at(&s, &mut c, &path).expect("generated path");
    // the edit: a value handed over in its dynamic or its typed form, or a part of another document
    let from = draw(reps.len() as u32) as usize;
    let mut want = None;
    let (act, what) = if draw(4) == 3 && get(&s, &reps[from].m, &path).is_some() {
        (
            Act::Part(reps[from].doc.dup(), path.clone()),
            format!("merging the same part of {}", reps[from].name),
        )
    } else {
        let op = gen_op(&ps, pm, fit());
        let mut m = before.clone();
        apply(&s, &mut m, &path, &op);
        want = Some(m);
        let typed = |m: &M, s: Option<S>| -> Box<dyn Reflect> {
            // as one of the types the simulation knows by name
            if draw(3) == 0 {
                if let Some(d) = s.and_then(|s| typed_part(&s, m)) {
                    return d;
                }
            }
            Box::new(conv::to_value(m))
        };
        let (v, k) = match &op {
            Op::Patch(v) => (Some(typed(v, None)), None),
            Op::Push(v) => (Some(typed(v, elem(&ps))), None),
            Op::Insert(k, v) => {
                let e = entry(&ps);
                (
                    Some(typed(v, e.as_ref().map(|e| e.1.clone()))),
                    Some(typed(k, e.map(|e| e.0))),
                )
            }
            Op::Delete(k) => (None, Some(typed(k, entry(&ps).map(|e| e.0)))),
            _ => (None, None),
        };
        let w = show_op(&op);
        (Act::Op(op, v, k), w)
    };
    let what = format!("{}: {what} at {}", reps[i].name, show_path(&path));
    let kp = conv::key_path_plain(&path);
    let whole = match &act {
        Act::Op(op, ..) => !matches!(op, Op::Patch(_)),
        Act::Part(..) => false,
    };
    let from_doc = matches!(act, Act::Part(..));
    // once without failures, on a copy
    let mut copy = reps[i].doc.dup();
    let (r, calls, _) = armed(None, false, || {
        perform(copy.rm().at_mut(&kp).expect("path"), &act)
    });
    judge(&what, &r, None);
    let after = copy.m();
    if let Some(w) = want {
        if w != after {
            violate!(
                "state",
                "{what} gives\n  {}\nand should give\n  {}",
                show(&after),
                show(&w)
            );
        }
    }
    drop(copy);
    if calls == 0 {
        count("reach.no_user_code");
    }
    let at = if calls > 0 && draw(12) > 0 {
        Some(draw(calls as u32) as u64)
    } else {
        None
    };
    let reject = draw(2) == 0;
    let (r, _, fired) = armed(at, reject, || {
        perform(reps[i].doc.rm().at_mut(&kp).expect("path"), &act)
    });
    drop(act);
    ev!("{what}, failing call {at:?} of {calls}: {fired:?}");
    judge(&what, &r, fired);
    drop(r);
    let got = reps[i].doc.m();
    match fired {
        None => {
            if got != after {
                violate!(
                    "state",
                    "{what} gives\n  {}\nand gave\n  {}\non a copy",
                    show(&got),
                    show(&after)
                );
            }
        }
        Some((c, p)) => {
            nontrivial();
            count(&format!(
                "fault.{}.{}",
                if p { "panic" } else { "reject" },
                c
            ));
            if got != before && got != after {
                count("reach.partly_merged");
            }
            let ok = if whole {
                got == before || (p && got == after)
            } else if from_doc {
                // a part that falls back to a merge of its own is cloned with its hidden fields
                mixed(&view(&s, &before), &view(&s, &after), &view(&s, &got))
            } else {
                mixed(&before, &after, &got)
            };
            if !ok {
                violate!(
                    "torn",
                    "{what}, the {c} {}: the document was\n  {}\nwould be\n  {}\nand is\n  {}",
                    if p { "panics" } else { "rejects" },
                    show(&before),
                    show(&after),
                    show(&got)
                );
            }
        }
    }
    reps[i].m = got;
    simrt::state(hash(&reps[i].m));
    balance(reps, &what);
    reps[i].check(&format!("after {what}"));
}

/// A value of one of the types above from a dynamic one.
fn typed_part(s: &S, v: &M) -> Option<Box<dyn Reflect>> {
    let m = from_v(s, v)?;
    fn go<T: Doc>(s: &S, m: &M) -> Option<Box<dyn Reflect>> {
        (T::schema().id == s.id).then(|| Box::new(T::from_m(m)) as Box<dyn Reflect>)
    }
    go::<Guarded>(s, &m)
        .or_else(|| go::<GuardedE>(s, &m))
        .or_else(|| go::<GuardedT>(s, &m))
        .or_else(|| go::<GKey>(s, &m))
        .or_else(|| go::<Hand>(s, &m))
        .or_else(|| go::<Vec<GuardedT>>(s, &m))
        .or_else(|| go::<Vec<Token>>(s, &m))
        .or_else(|| go::<Vec<Hand>>(s, &m))
        .or_else(|| go::<Vault>(s, &m))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        run: c10,
        prep: None,
        quick: 60_000,
        thorough: 3_000_000,
        budget: 2_500_000_000,
        cpu: 60,
        rule: "1 or 2 documents of 13 types whose conversions, clones, defaults and key comparisons are user code; each of 2 to 9 edits (or conversions or copies) runs once undisturbed on a copy to count its calls of user code, then on the document with a drawn one of them failing: conversions answer None or panic, the rest panic; non-trivial: at least one failure took place",
        real: crate::gd::REAL,
        stub: crate::gd::STUB,
    }]
}
