//! Deterministic simulation of programs that use mirror-mirror. See /verif/DESIGN.md.
#![allow(dead_code)]
extern crate simrt;

#[macro_use]
mod types;
mod conv;
mod desc;
mod drive;
mod ga;
mod gb;
mod gc;
mod gd;
mod ge;
mod gf;
mod model;
mod wire;
mod world;

#[global_allocator]
static ALLOC: simrt::Accounting = simrt::Accounting;

pub struct Prop {
    pub id: &'static str,
    /// one simulated run
    pub run: fn(),
    /// done once, before the first run
    pub prep: Option<fn()>,
    pub quick: u64,
    pub thorough: u64,
    /// edges a run may execute
    pub budget: u64,
    /// CPU seconds a run may take
    pub cpu: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

fn props() -> Vec<Prop> {
    let mut p = vec![];
    p.extend(ga::props());
    p.extend(gb::props());
    p.extend(gc::props());
    p.extend(gd::props());
    p.extend(ge::props());
    p.extend(gf::props());
    p
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match &a[1..] {
        ["check", id] => drive::check(&find(id)),
        ["replay", file] => drive::replay(file, &find),
        ["one", id, seed] => drive::one(&find(id), seed.parse().unwrap()),
        ["selftest", id, n] => drive::selftest(&find(id), n.parse().unwrap()),
        ["lifetime", rest @ ..] => ga::lifetime(rest),
        _ => {
            eprintln!("usage: harness check ID | replay FILE | one ID SEED | selftest ID N");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> Prop {
    props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}
