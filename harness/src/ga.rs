//! Threads, panics and process lifetimes against the shared cache of type descriptions.
use crate::types::*;
use crate::{desc, Prop};
use mirror_mirror::type_info::graph::*;
use mirror_mirror::{DescribeType, Reflect, TypeDescriptor};
use simrt::{chance, count, draw, ev, nontrivial, outside, violate, SchedCfg};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};

// ------------------------------------------------------- user code that runs while types are described

pub const HOOKS: usize = 10;

struct Plan {
    /// requests hook k makes: entries of the pool
    nest: [Vec<usize>; HOOKS],
    /// bit n: the n-th call of hook k panics
    panics: [u64; HOOKS],
    calls: [u32; HOOKS],
}
static mut PLAN: Plan = Plan {
    nest: [const { Vec::new() }; HOOKS],
    panics: [0; HOOKS],
    calls: [0; HOOKS],
};

struct Req {
    task: usize,
    ent: usize,
    started: u64,
    ended: u64,
    /// hooks that ran on behalf of this request
    ran: Vec<usize>,
    /// a panic was injected into it, directly or by a request nested in it
    injected: bool,
    got: Option<&'static TypeDescriptor>,
    owned: bool,
    panic: Option<String>,
}
static mut LOG: Vec<Req> = Vec::new();
static mut STACK: [Vec<usize>; 17] = [const { Vec::new() }; 17];
static mut SEQ: u64 = 0;

#[allow(static_mut_refs)]
fn plan() -> &'static mut Plan {
    unsafe { &mut PLAN }
}
#[allow(static_mut_refs)]
fn log() -> &'static mut Vec<Req> {
    unsafe { &mut LOG }
}
fn me() -> usize {
    simrt::task().unwrap_or(16)
}
#[allow(static_mut_refs)]
fn stack() -> &'static mut Vec<usize> {
    unsafe { &mut STACK[me()] }
}
fn seq() -> u64 {
    unsafe {
        SEQ += 1;
        SEQ
    }
}

fn hook(k: usize) -> i32 {
    let (nest, boom) = outside(|| {
        let p = plan();
        let n = p.calls[k];
        p.calls[k] += 1;
        if let Some(r) = stack().last() {
            log()[*r].ran.push(k);
        }
        (p.nest[k].clone(), n < 64 && p.panics[k] >> n & 1 == 1)
    });
    for e in nest {
        count("user.nested_request");
        if let Err(m) = request(e, false) {
            outside(|| {
                if let Some(r) = stack().last() {
                    log()[*r].injected = true;
                }
            });
            std::panic::panic_any(m);
        }
    }
    if boom {
        count("fault.panic_in_description");
        outside(|| {
            if let Some(r) = stack().last() {
                log()[*r].injected = true;
            }
        });
        std::panic::panic_any(format!("injected {k}"));
    }
    k as i32
}

#[derive(Reflect, Clone, Debug)]
#[reflect(meta(x = hook(1)))]
struct H1 {
    a: i32,
}
#[derive(Reflect, Clone, Debug)]
struct H2 {
    #[reflect(meta(x = hook(2)))]
    a: Vec<u8>,
    b: i32,
}
#[derive(Reflect, Clone, Debug)]
enum H3 {
    A,
    #[reflect(meta(x = hook(3)))]
    B(i32, Option<Box<H3>>),
}
#[derive(Reflect, Clone, Debug)]
struct H4(#[reflect(meta(x = hook(4)))] i32, String, Vec<H4>);
#[derive(Reflect, Clone, Debug)]
enum H5 {
    A {
        #[reflect(meta(x = hook(5)))]
        a: i32,
        l: Vec<H5>,
    },
    B(#[reflect(meta(y = hook(5)))] i32),
}
struct H6;
impl DescribeType for H6 {
    fn build(graph: &mut TypeGraph) -> NodeId {
        let x = hook(6);
        graph.get_or_build_node_with::<Self, _>(|g| {
            let f = NamedFieldNode::new::<Shape>("shape", BTreeMap::new(), &[], g);
            StructNode::new::<Self>(&[f], [("x", x.to_value())].into(), &[])
        })
    }
}
struct H7;
impl DescribeType for H7 {
    fn build(graph: &mut TypeGraph) -> NodeId {
        graph.get_or_build_node_with::<Self, _>(|g| {
            let f = [
                UnnamedFieldNode::new::<H6>(BTreeMap::new(), &[], g),
                UnnamedFieldNode::new::<Vec<H7>>(BTreeMap::new(), &[], g),
            ];
            let x = hook(7);
            TupleStructNode::new::<Self>(&f, [("x", x.to_value())].into(), &[])
        })
    }
}
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(x = hook(8)))]
struct H8<A>
where
    A: Reflect + mirror_mirror::FromReflect + DescribeType + Clone + std::fmt::Debug,
{
    a: A,
    more: Vec<H8<A>>,
}
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(a = hook(9), b = hook(9)))]
struct H9 {
    h1: H1,
    h4: H4,
    h8: Option<H8<H2>>,
    t: Tree,
    next: Vec<H9>,
}

pub struct Ent {
    pub name: &'static str,
    f: fn() -> Cow<'static, TypeDescriptor>,
    ty: Option<Ty>,
    /// the highest hook that runs when it is described; 0 for none
    level: usize,
}
fn h<T: DescribeType>(level: usize) -> Ent {
    Ent {
        name: std::any::type_name::<T>(),
        f: <T as DescribeType>::type_descriptor,
        ty: None,
        level,
    }
}

/// The types that are asked for. The hooked ones come first.
pub fn pool() -> &'static Vec<Ent> {
    static P: std::sync::OnceLock<Vec<Ent>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![
            h::<H1>(1),
            h::<H2>(2),
            h::<H3>(3),
            h::<H4>(4),
            h::<H5>(5),
            h::<H6>(6),
            h::<H7>(7),
            h::<H8<i32>>(8),
            h::<H8<H1>>(8),
            h::<H9>(9),
            h::<Vec<H1>>(1),
            h::<Option<H3>>(3),
            h::<BTreeMap<u8, H5>>(5),
            h::<(H5, H1)>(5),
            h::<[H2; 3]>(2),
            h::<Box<H9>>(9),
        ];
        for t in recursive().into_iter().chain(zoo()) {
            if !v
                .iter()
                .any(|e| e.name == t.name && e.ty.is_none_or(|x| (x.type_id)() == (t.type_id)()))
            {
                v.push(Ent {
                    name: t.name,
                    f: t.descriptor,
                    ty: Some(t),
                    level: 0,
                });
            }
        }
        for e in [
            h::<u8>(0),
            h::<bool>(0),
            h::<f32>(0),
            h::<char>(0),
            h::<Vec<i32>>(0),
            h::<Vec<bool>>(0),
            h::<u128>(0),
        ] {
            if !v.iter().any(|x| x.name == e.name) {
                v.push(e);
            }
        }
        v.push(h::<Crowd>(0));
        PLAIN.store(v.len(), std::sync::atomic::Ordering::SeqCst);
        fillers(&mut v);
        v
    })
}
const HOOKED: usize = 16;
/// How many types there are before the crowd of small ones.
static PLAIN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn plain() -> usize {
    pool();
    PLAIN.load(std::sync::atomic::Ordering::SeqCst)
}

/// Several hundred small types, for caches that hold only so many.
fn fillers(v: &mut Vec<Ent>) {
    macro_rules! pairs {
        ($v:ident; $($a:ty),*; $b:tt) => { $( pairs!(@ $v $a; $b); )* };
        (@ $v:ident $a:ty; [$($b:ty),*]) => { $(
            $v.push(h::<[($a, $b); 1]>(0));
            $v.push(h::<Vec<[$b; std::mem::size_of::<$a>() + 40]>>(0));
        )* };
    }
    let mut w = vec![];
    pairs!(w; u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool, char, f32, f64, String, usize;
        [u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool, char, f32, f64, String, usize]);
    for e in w {
        if !v.iter().any(|x| x.name == e.name) {
            v.push(e);
        }
    }
}

/// Runs `f` in a forked child of this process and returns what it wrote.
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::alarm(20);
            let rl = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            std::panic::set_hook(Box::new(|_| {}));
            if let Ok(b) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                use std::os::fd::FromRawFd;
                let mut w = std::fs::File::from_raw_fd(fds[1]);
                let _ = w.write_all(&[1]);
                let _ = w.write_all(&b);
                drop(w);
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        use std::os::fd::FromRawFd;
        let mut b = vec![];
        std::fs::File::from_raw_fd(fds[0])
            .read_to_end(&mut b)
            .ok()?;
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if b.first() == Some(&1) {
            b.remove(0);
            Some(b)
        } else {
            None
        }
    }
}

static REFS: std::sync::OnceLock<Vec<Option<String>>> = std::sync::OnceLock::new();

/// What a lone request in a fresh process returns, per type.
pub fn references() {
    let _ = REFS.get_or_init(|| {
        pool()
            .iter()
            .map(|e| {
                in_child(|| format!("{:?}", *(e.f)()).into_bytes())
                    .map(|b| String::from_utf8_lossy(&b).into_owned())
            })
            .collect()
    });
}

/// Asks for a description, by type or through a value, and writes down what happens.
fn request(ent: usize, by_value: bool) -> Result<&'static TypeDescriptor, String> {
    let e = &pool()[ent];
    let v = match (by_value, &e.ty) {
        (true, Some(t)) if !e.name.starts_with("alloc::boxed::Box") => {
            outside(|| Some((t.new)(&crate::model::gen(&(t.schema)(), 1))))
        }
        _ => None,
    };
    let i = outside(|| {
        log().push(Req {
            task: me(),
            ent,
            started: seq(),
            ended: u64::MAX,
            ran: vec![],
            injected: false,
            got: None,
            owned: false,
            panic: None,
        });
        let i = log().len() - 1;
        stack().push(i);
        i
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &v {
        Some(v) => Reflect::type_descriptor(v.r()),
        None => (e.f)(),
    }));
    outside(|| {
        stack().pop();
        let q = &mut log()[i];
        q.ended = seq();
        match r {
            Ok(Cow::Borrowed(d)) => {
                q.got = Some(d);
                Ok(d)
            }
            Ok(Cow::Owned(d)) => {
                q.owned = true;
                let d: &'static TypeDescriptor = Box::leak(Box::new(d));
                q.got = Some(d);
                Ok(d)
            }
            Err(p) => {
                let m = simrt::panic_message(&*p);
                q.panic = Some(m.clone());
                std::mem::forget(p);
                Err(m)
            }
        }
    })
}

pub fn sched() -> SchedCfg {
    SchedCfg {
        gap_bits: 2 + draw(11),
        max_preempts: [4, 12, 40, 120][draw(4) as usize],
        stalls: draw(4),
        spurious: draw(3),
    }
}

/// One round of threads, each with its list of requests.
fn round(lists: Vec<Vec<(usize, bool)>>) {
    for (t, l) in lists.iter().enumerate() {
        let s: Vec<String> = l
            .iter()
            .map(|(e, v)| format!("{}{}", pool()[*e].name, if *v { " (by value)" } else { "" }))
            .collect();
        ev!("thread {t} asks for {}", s.join(", "));
    }
    let cfg = sched();
    let bodies: Vec<Box<dyn FnOnce() + Send>> = lists
        .into_iter()
        .map(|l| {
            Box::new(move || {
                for (e, v) in l {
                    let _ = request(e, v);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    for (i, p) in simrt::run_threads(cfg, bodies).into_iter().enumerate() {
        if let Some(m) = p {
            violate!("thread-panic", "thread {i} panicked: {m}");
        }
    }
}

fn lists(chosen: &[usize], threads: u32, len: u32) -> Vec<Vec<(usize, bool)>> {
    (0..threads)
        .map(|_| {
            (0..1 + draw(len))
                .map(|_| (chosen[draw(chosen.len() as u32) as usize], chance(1, 4)))
                .collect::<Vec<_>>()
        })
        .collect()
}

/// The history of requests against what must hold of it.
fn check_log() {
    outside(|| {
        let refs = REFS.get().expect("references");
        let mut first: BTreeMap<usize, &'static TypeDescriptor> = BTreeMap::new();
        for q in log().iter() {
            let name = pool()[q.ent].name;
            match (&q.panic, q.injected) {
                (Some(m), false) => violate!(
                    "request-panic",
                    "a request for {name} on thread {} panicked: {m}",
                    q.task
                ),
                (None, true) => violate!(
                    "swallowed",
                    "a request for {name} survived a panic of the code that describes it"
                ),
                (Some(m), true) if !m.starts_with("injected") => {
                    violate!(
                        "wrong-panic",
                        "a request for {name} panicked with {m:?} instead of the panic it ran into"
                    )
                }
                _ => {}
            }
            let Some(d) = q.got else { continue };
            if q.owned {
                violate!(
                    "not-shared",
                    "a request for {name} returned a description of its own"
                );
            }
            match first.get(&q.ent) {
                Some(f) => {
                    if !std::ptr::eq(*f, d) {
                        violate!(
                            "not-shared",
                            "two requests for {name} returned different descriptions"
                        );
                    }
                }
                None => {
                    first.insert(q.ent, d);
                    let t = format!("{:?}", *d);
                    match &refs[q.ent] {
                        None => violate!(
                            "reference",
                            "a lone request for {name} in a fresh process does not return"
                        ),
                        Some(r) if *r != t => {
                            violate!(
                                "wrong-description",
                                "the description of {name} is not the one a lone request gets"
                            )
                        }
                        _ => {}
                    }
                }
            }
        }
        for (a, x) in &first {
            for (b, y) in &first {
                if a < b && std::ptr::eq(*x, *y) {
                    violate!(
                        "mixed-up",
                        "{} and {} share one description",
                        pool()[*a].name,
                        pool()[*b].name
                    );
                }
            }
        }
        for q in log().iter().filter(|q| !q.ran.is_empty()) {
            for e in log().iter() {
                if e.ent == q.ent && e.got.is_some() && e.ended < q.started {
                    violate!(
                        "rebuilt",
                        "{} was described again after a request for it had returned",
                        pool()[q.ent].name
                    );
                }
            }
        }
        for q in log().iter().filter(|q| q.ent < plain()) {
            ev!(
                "{} {} hooks {:?}{}",
                q.task,
                pool()[q.ent].name,
                q.ran,
                if q.panic.is_some() { " panicked" } else { "" }
            );
        }
        // which requests overlapped is the state that was reached
        let mut h = simrt::FNV0;
        let (mut overlap, mut both) = (false, false);
        for (i, a) in log().iter().enumerate() {
            for b in &log()[i + 1..] {
                let o = a.started < b.ended && b.started < a.ended && a.task != b.task;
                overlap |= o;
                both |= o && a.ent == b.ent && !a.ran.is_empty() && !b.ran.is_empty();
                h = simrt::mix(h, (a.ent as u64) << 32 | (b.ent as u64) << 1 | o as u64);
            }
        }
        simrt::state(h);
        if overlap {
            nontrivial();
            count("reach.overlapping_requests");
        }
        if both {
            count("reach.same_type_built_twice_at_once");
        }
    })
}

fn pick_types(hooked: bool, n: u32) -> Vec<usize> {
    (0..1 + draw(n))
        .map(|_| {
            if hooked && draw(3) < 2 {
                draw(HOOKED as u32) as usize
            } else {
                HOOKED + draw((plain() - HOOKED) as u32) as usize
            }
        })
        .collect()
}

/// Sometimes the process has described many other types as well.
fn crowd() {
    if !chance(1, 12) {
        return;
    }
    let all = pool().len() - plain();
    let n = (1 << draw(10)) as usize;
    let from = draw(all as u32) as usize;
    ev!("{n} other types are described");
    count("reach.many_types");
    for i in 0..n.min(all) {
        let e = plain() + (from + i) % all;
        if let Err(m) = request(e, false) {
            violate!(
                "request-panic",
                "a request for {} panicked: {m}",
                pool()[e].name
            );
        }
    }
}
fn threads() -> u32 {
    if chance(1, 16) {
        count("reach.many_threads");
        7 + draw(9)
    } else {
        2 + draw(5)
    }
}

fn final_requests(chosen: &[usize]) {
    for e in chosen {
        if let Err(m) = request(*e, false) {
            violate!(
                "request-panic",
                "a later request for {} panicked: {m}",
                pool()[*e].name
            );
        }
    }
}

fn c01() {
    let chosen = pick_types(true, 4);
    round(lists(&chosen, threads(), 4));
    final_requests(&chosen);
    crowd();
    if chance(1, 4) {
        let n = 1 + draw(3);
        round(lists(&chosen, n, 3));
    }
    final_requests(&chosen);
    check_log();
}

fn nest_plan() {
    for k in 1..HOOKS {
        while chance(2, 5) {
            let e = draw(plain() as u32) as usize;
            if pool()[e].level < k {
                plan().nest[k].push(e);
                ev!("describing with hook {k} asks for {}", pool()[e].name);
            }
        }
    }
}

fn c02() {
    nest_plan();
    let p = pool();
    let rec = HOOKED + recursive().len();
    let chosen: Vec<usize> = (0..1 + draw(5))
        .map(|_| match draw(4) {
            0 => draw(HOOKED as u32) as usize,
            1 => draw(plain() as u32) as usize,
            _ => HOOKED + draw((rec - HOOKED) as u32) as usize,
        })
        .collect();
    let n = match threads() {
        n if n > 6 => n,
        n => n - 1,
    };
    round(lists(&chosen, n, 3));
    crowd();
    final_requests(&chosen);
    outside(|| {
        for q in log().iter() {
            if let (Some(d), Some(t)) = (q.got, &p[q.ent].ty) {
                desc::check_all(d, &(t.schema)());
            }
        }
    });
    check_log();
    if log().iter().any(|q| !q.ran.is_empty()) || n > 1 {
        nontrivial();
    }
}

fn c03() {
    if chance(1, 3) {
        nest_plan();
    }
    let chosen = pick_types(true, 4);
    for k in 1..HOOKS {
        if chance(1, 2) {
            let m = match draw(4) {
                0 => 1,
                1 => 2,
                2 => draw(16) as u64,
                _ => u64::MAX,
            };
            plan().panics[k] = m;
            if m != 0 {
                ev!("hook {k} panics at calls {m:b}");
            }
        }
    }
    let n = 1 + draw(4);
    round(lists(&chosen, n, 4));
    for _ in 0..draw(3) {
        let _ = request(chosen[draw(chosen.len() as u32) as usize], false);
    }
    let hit = log().iter().any(|q| q.injected);
    plan().panics = [0; HOOKS];
    if chance(1, 2) {
        let n = 1 + draw(3);
        round(lists(&chosen, n, 2));
    }
    final_requests(&chosen);
    check_log();
    outside(|| simrt::shared().nontrivial = hit as u32);
    if hit {
        count("reach.panic_then_recovered");
    }
}

// --------------------------------------------------------------------------------- process lifetimes

#[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq)]
struct Report {
    ent: u32,
    debug: String,
    answers: u64,
    hash: u64,
    hash_std: u64,
    speedy: Vec<u8>,
    bincode: Vec<u8>,
    /// another lifetime's stored description equals the one computed here
    stored_equal: Option<bool>,
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = simrt::fnv(self.0, b)
    }
}

/// One process lifetime: a history of requests, then a report on the wanted types.
pub fn lifetime(a: &[&str]) -> i32 {
    use speedy::{Readable, Writable};
    let seed: u64 = a[0].parse().unwrap();
    let entropy: u64 = a[1].parse().unwrap();
    let skew: i64 = a[2].parse().unwrap();
    let want: Vec<usize> = a[3].split(',').map(|s| s.parse().unwrap()).collect();
    let mut stored = vec![];
    std::io::stdin().read_to_end(&mut stored).unwrap();
    let stored: Vec<Report> = if stored.is_empty() {
        vec![]
    } else {
        bincode::deserialize(&stored).unwrap()
    };
    simrt::map_shared();
    simrt::activate(simrt::Source::Seed(seed), 400_000_000);
    simrt::seed_entropy(entropy);
    simrt::jump_wall_clock(skew);
    if seed != 0 {
        for _ in 0..draw(4) {
            let _ = request(draw(plain() as u32) as usize, chance(1, 3));
        }
        crowd();
        if chance(1, 2) {
            let mut chosen = pick_types(true, 4);
            chosen.extend(&want);
            let n = 2 + draw(3);
            round(lists(&chosen, n, 3));
        }
        simrt::advance(draw(1 << 30) as u64);
    }
    let mut out = vec![];
    for e in want {
        let Ok(d) = request(e, false) else { return 3 };
        let mut f = Fnv(simrt::FNV0);
        d.hash(&mut f);
        #[allow(deprecated)]
        let mut s = std::hash::SipHasher::new();
        d.hash(&mut s);
        let stored_equal = stored.iter().find(|r| r.ent == e as u32).map(|r| {
            let x = TypeDescriptor::read_from_buffer(&r.speedy);
            let y = bincode::deserialize::<TypeDescriptor>(&r.bincode);
            matches!((x, y), (Ok(x), Ok(y)) if x == *d && y == *d && desc::answers(&x) == desc::answers(d))
        });
        out.push(Report {
            ent: e as u32,
            debug: format!("{d:?}"),
            answers: simrt::fnv(simrt::FNV0, desc::answers(d).as_bytes()),
            hash: f.finish(),
            hash_std: s.finish(),
            speedy: d.write_to_vec().unwrap(),
            bincode: bincode::serialize(d).unwrap(),
            stored_equal,
        });
    }
    simrt::deactivate();
    std::io::stdout()
        .write_all(&bincode::serialize(&out).unwrap())
        .unwrap();
    0
}

struct Life {
    seed: u64,
    entropy: u64,
    skew: i64,
    ldso: bool,
    stack_mb: u64,
    pad: usize,
}

fn live(l: &Life, want: &[usize], stored: &[Report]) -> Option<Vec<Report>> {
    use std::os::unix::process::CommandExt;
    use std::process::{Command, Stdio};
    outside(|| {
        let exe = std::env::current_exe().unwrap();
        let w: Vec<String> = want.iter().map(|e| e.to_string()).collect();
        let mut c = if l.ldso {
            let mut c = Command::new("/lib64/ld-linux-x86-64.so.2");
            c.arg(exe);
            c
        } else {
            Command::new(exe)
        };
        c.args([
            "lifetime",
            &l.seed.to_string(),
            &l.entropy.to_string(),
            &l.skew.to_string(),
            &w.join(","),
        ]);
        c.env_clear().env("PAD", "x".repeat(l.pad));
        let mb = l.stack_mb;
        unsafe {
            c.pre_exec(move || {
                // an address-space layout that the seed decides, if the sandbox allows it
                libc::personality(libc::ADDR_NO_RANDOMIZE as _);
                let rl = libc::rlimit {
                    rlim_cur: mb << 20,
                    rlim_max: libc::RLIM_INFINITY,
                };
                libc::setrlimit(libc::RLIMIT_STACK, &rl);
                libc::alarm(60);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        c.stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null());
        let mut k = c.spawn().ok()?;
        let mut i = k.stdin.take().unwrap();
        if !stored.is_empty() {
            let _ = i.write_all(&bincode::serialize(&stored.to_vec()).unwrap());
        }
        drop(i);
        let o = k.wait_with_output().ok()?;
        bincode::deserialize(&o.stdout).ok()
    })
}

fn c04() {
    let want = {
        let mut w = pick_types(true, 4);
        w.sort();
        w.dedup();
        w
    };
    let names: Vec<&str> = want.iter().map(|e| pool()[*e].name).collect();
    ev!("types {}", names.join(", "));
    let base = Life {
        seed: 0,
        entropy: 0,
        skew: 0,
        ldso: false,
        stack_mb: 8,
        pad: 0,
    };
    let Some(first) = live(&base, &want, &[]) else {
        violate!("lifetime", "the first process did not finish")
    };
    let mut last = first.clone();
    for n in 0..1 + draw(3) {
        let l = Life {
            seed: draw(1 << 16) as u64,
            entropy: draw(1 << 16) as u64,
            skew: (draw(1 << 16) as i64 - (1 << 14))
                * 1_000_000_000
                * if chance(1, 2) { 40_000 } else { 1 },
            ldso: chance(1, 3),
            stack_mb: 8 + 8 * draw(16) as u64,
            pad: draw(4000) as usize,
        };
        ev!(
            "process {n}: history {} entropy {} clock {} loader {} stack {} env {}",
            l.seed,
            l.entropy,
            l.skew,
            l.ldso,
            l.stack_mb,
            l.pad
        );
        count("fault.restarted_process");
        if l.entropy != 0 {
            count("fault.other_entropy");
        }
        if l.skew != 0 {
            count("fault.clock_jump");
        }
        if l.ldso || l.stack_mb != 8 || l.pad != 0 {
            count("fault.other_address_layout");
        }
        let Some(mut r) = live(&l, &want, &last) else {
            violate!("lifetime", "process {n} did not finish")
        };
        for (x, y) in first.iter().zip(&r) {
            let name = pool()[x.ent as usize].name;
            if y.stored_equal != Some(true) {
                violate!(
                    "stored",
                    "the description of {name} stored by one process is not equal to another's"
                );
            }
            let what = if x.debug != y.debug {
                "content"
            } else if x.answers != y.answers {
                "answers"
            } else if x.hash != y.hash || x.hash_std != y.hash_std {
                "hash"
            } else if x.speedy != y.speedy || x.bincode != y.bincode {
                "bytes"
            } else {
                continue;
            };
            violate!(
                "unstable",
                "the {what} of the description of {name} differ between processes"
            );
        }
        r.iter_mut().for_each(|x| x.stored_equal = None);
        last = r;
        simrt::state(simrt::mix(
            simrt::mix(l.seed, l.entropy),
            l.stack_mb << 32 | l.pad as u64 | (l.ldso as u64) << 60,
        ));
        nontrivial();
    }
}

const REAL: &[&str] = &[
    "mirror-mirror (all of it, from /repo)",
    "mirror-mirror-macros derive expansions",
    "once_cell::race::OnceBox",
    "std RwLock and HashMap, ahash",
];
const STUB: &[&str] = &[
    "thread scheduling (one thread at a time, chosen at basic-block edges)",
    "futex wait and wake",
    "clocks, sleeping and kernel entropy",
    "user code in metadata expressions and hand-written DescribeType impls",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: c01,
            prep: Some(references),
            quick: 50_000,
            thorough: 6_000_000,
            budget: 100_000_000,
            cpu: 20,
            rule: "2 to 6 threads each ask for up to 4 descriptions out of 1 to 4 drawn types (plain, generic, recursive, hand-described), by type or through a value, under a drawn preemption schedule; non-trivial: at least two requests of different threads overlap in time",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C02",
            run: c02,
            prep: Some(references),
            quick: 40_000,
            thorough: 4_000_000,
            budget: 300_000_000,
            cpu: 20,
            rule: "1 to 6 threads ask for drawn recursive and mutually recursive types and for types whose description asks for other types (a drawn acyclic relation); non-trivial: several threads, or a description that runs user code",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C03",
            run: c03,
            prep: Some(references),
            quick: 50_000,
            thorough: 6_000_000,
            budget: 100_000_000,
            cpu: 20,
            rule: "as C01, with panics injected at drawn calls of the user code that describes types, then retries without panics; non-trivial: at least one panic was injected into a request",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C04",
            run: c04,
            prep: None,
            quick: 4000,
            thorough: 400_000,
            budget: 100_000_000,
            cpu: 20,
            rule: "2 to 4 processes of the same binary with drawn request histories, threads, kernel entropy, clocks and address-space layouts describe the same 1 to 4 types and exchange stored descriptions; non-trivial: at least one process differs from the first in environment or history",
            real: REAL,
            stub: STUB,
        },
    ]
}
