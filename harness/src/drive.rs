//! The search: many seeded runs over forked workers, minimisation, replay files and evidence.
use crate::Prop;
use serde::{Deserialize, Serialize};
use simrt::{fnv, mix, Outcome, Source, FNV0};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[derive(Serialize, Deserialize, Default)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    max_steps: u64,
    sim_ns: u64,
    switches: u64,
    ctr: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    traces: BTreeSet<u64>,
    edges: Vec<u64>,
    samples: Vec<(u64, String)>,
    rechecked: u64,
    mismatches: u64,
    fail: Option<(u64, String, String)>,
    out_of_time: bool,
}

const SET_CAP: usize = 400_000;

fn seed_of(base: u64, id: &str, i: u64) -> u64 {
    mix(mix(base, fnv(FNV0, id.as_bytes())), i)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k)
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(d)
}

fn exec(p: &Prop, src: &Source, keep: bool) -> Outcome {
    simrt::run_keep(src, p.budget, p.cpu, &|| (p.run)(), keep)
}

fn worker(
    p: &Prop,
    base: u64,
    w: u64,
    n: u64,
    total: u64,
    cap_s: f64,
    min_fail: &AtomicU64,
) -> Stats {
    let t0 = Instant::now();
    let mut s = Stats {
        edges: vec![0; simrt::EDGE_WORDS],
        ..Default::default()
    };
    let mut i = w;
    while i < total {
        if i > min_fail.load(SeqCst) {
            break;
        }
        if t0.elapsed().as_secs_f64() > cap_s {
            s.out_of_time = true;
            break;
        }
        let src = Source::Seed(seed_of(base, p.id, i));
        let keep = s.samples.len() < 2 && i < 64;
        let o = exec(p, &src, keep);
        s.runs += 1;
        s.steps += o.steps;
        s.max_steps = s.max_steps.max(o.steps);
        s.sim_ns += o.sim_ns;
        s.switches += o.switches;
        for (k, v) in &o.ctr {
            *s.ctr.entry(k.clone()).or_default() += v;
        }
        for h in &o.states {
            if s.states.len() < SET_CAP {
                s.states.insert(*h);
            }
        }
        if o.switches > 0 && s.scheds.len() < SET_CAP {
            s.scheds.insert(o.sched_hash);
        }
        for (a, b) in s.edges.iter_mut().zip(simrt::last_edges()) {
            *a |= *b;
        }
        if o.nontrivial {
            s.nontrivial += 1;
            if s.traces.len() < SET_CAP {
                s.traces.insert(o.trace_hash);
            }
            if keep {
                s.samples.push((i, excerpt(&o.trace)));
            }
        }
        if let Some((k, m)) = o.bad {
            min_fail.fetch_min(i, SeqCst);
            s.fail = Some((i, k, m));
            break;
        }
        if i % 61 == 7 {
            let o2 = exec(p, &src, false);
            s.rechecked += 1;
            if (o2.trace_hash, o2.sched_hash, o2.steps, o2.bad.is_some())
                != (o.trace_hash, o.sched_hash, o.steps, o.bad.is_some())
            {
                s.mismatches += 1;
            }
        }
        i += n;
    }
    s
}

fn excerpt(t: &str) -> String {
    let mut out = String::new();
    for (i, l) in t.lines().enumerate() {
        if i >= 24 || out.len() > 2500 {
            out += "...\n";
            break;
        }
        let l: String = l.chars().take(300).collect();
        out += &l;
        out.push('\n');
    }
    out
}

fn map_atomic() -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let a = &*(p as *const AtomicU64);
        a.store(u64::MAX, SeqCst);
        a
    }
}

/// Forks workers over the run indices `0..total`.
fn search(p: &Prop, base: u64, total: u64, workers: u64, cap_s: f64) -> Stats {
    let min_fail = map_atomic();
    let mut kids = vec![];
    for w in 0..workers {
        unsafe {
            let mut fds = [0; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                simrt::map_shared();
                let s = worker(p, base, w, workers, total, cap_s, min_fail);
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&bincode::serialize(&s).unwrap());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    let mut all = Stats {
        edges: vec![0; simrt::EDGE_WORDS],
        ..Default::default()
    };
    for (pid, fd) in kids {
        let mut b = vec![];
        unsafe { std::fs::File::from_raw_fd(fd) }
            .read_to_end(&mut b)
            .unwrap();
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        let s: Stats = match bincode::deserialize(&b) {
            Ok(s) => s,
            Err(_) => {
                eprintln!("a worker died (status {st})");
                std::process::exit(2);
            }
        };
        all.runs += s.runs;
        all.nontrivial += s.nontrivial;
        all.steps += s.steps;
        all.max_steps = all.max_steps.max(s.max_steps);
        all.sim_ns += s.sim_ns;
        all.switches += s.switches;
        all.rechecked += s.rechecked;
        all.mismatches += s.mismatches;
        all.out_of_time |= s.out_of_time;
        for (k, v) in s.ctr {
            *all.ctr.entry(k).or_default() += v;
        }
        all.states.extend(s.states);
        all.scheds.extend(s.scheds);
        all.traces.extend(s.traces);
        for (a, b) in all.edges.iter_mut().zip(&s.edges) {
            *a |= *b;
        }
        all.samples.extend(s.samples);
        if let Some(f) = s.fail {
            if all.fail.as_ref().map_or(true, |g| f.0 < g.0) {
                all.fail = Some(f);
            }
        }
    }
    all.samples.sort();
    all.samples.truncate(3);
    all
}

fn trim(mut t: Vec<u32>) -> Vec<u32> {
    while t.last() == Some(&0) {
        t.pop();
    }
    t
}

/// Makes the tape of a failing run smaller while the same kind of violation persists.
fn shrink(p: &Prop, kind: &str, tape: Vec<u32>, limit_s: f64) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut best = trim(tape);
    let mut tries = 0;
    let over = |t: &Instant| t.elapsed().as_secs_f64() > limit_s;
    let mut attempt = |c: &[u32], best: &mut Vec<u32>| -> bool {
        tries += 1;
        let o = exec(p, &Source::Tape(c.to_vec()), true);
        match o.bad {
            Some((k, _)) if k == kind => {
                let t = trim(o.tape);
                let new = if t.len() <= c.len() {
                    t
                } else {
                    trim(c.to_vec())
                };
                let gain = (new.len(), new.iter().map(|x| *x as u64).sum::<u64>())
                    < (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
                if gain {
                    *best = new;
                }
                gain
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // shorter
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                if over(&t0) {
                    return (best, tries);
                }
                let lo = i.saturating_sub(size);
                let mut c = best.clone();
                if lo < c.len() {
                    c.drain(lo..i.min(c.len()));
                    attempt(&c, &mut best);
                }
                i = lo.min(best.len());
            }
            size /= 2;
        }
        // simpler
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if over(&t0) {
                    return (best, tries);
                }
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempt(&c, &mut best);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            while i < best.len() && best[i] > 1 {
                if over(&t0) {
                    return (best, tries);
                }
                let mut c = best.clone();
                c[i] /= 2;
                if !attempt(&c, &mut best) {
                    break;
                }
            }
        }
        if best == before {
            return (best, tries);
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn check(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let total = env_u64("VERIF_RUNS", if thorough { p.thorough } else { p.quick });
    let workers = env_u64("VERIF_WORKERS", 8);
    let cap = env_u64("VERIF_CAP_S", if thorough { 3600 } else { 240 }) as f64;
    if let Some(f) = p.prep {
        f();
    }
    let s = search(p, base, total, workers, cap);
    let search_s = t0.elapsed().as_secs_f64();
    simrt::map_shared();
    let mut code = 0;
    let mut line = String::new();
    if let Some((i, kind, msg)) = &s.fail {
        let seed = seed_of(base, p.id, *i);
        let mut again = None;
        for _ in 0..5 {
            let o = exec(p, &Source::Seed(seed), true);
            if matches!(&o.bad, Some((k, _)) if k == kind) {
                again = Some(o);
                break;
            }
        }
        match again {
            None => {
                println!(
                    "run {i} (seed {seed}) failed once and could not be repeated: {kind}: {msg}"
                );
                line = "unrepeatable".into();
            }
            Some(o) => {
                let full = trim(o.tape.clone());
                // (an attempt that hangs takes as long as a run is given)
                let limit = if kind == "hang" {
                    0
                } else {
                    env_u64("VERIF_SHRINK_S", 45)
                } as f64;
                let (tape, tries) = shrink(p, kind, full.clone(), limit);
                // every run from the tape must be the same
                let a = exec(p, &Source::Tape(tape.clone()), true);
                let b = exec(p, &Source::Tape(tape.clone()), true);
                let (tape, a) = if a.bad.is_some() && a.trace_hash == b.trace_hash && a.bad == b.bad
                {
                    (tape, a)
                } else {
                    (full, o)
                };
                let path = write_replay(p, seed, *i, &tape, &a, tries);
                let (k, m) = a.bad.unwrap();
                println!("run {i} seed {seed}: {k}: {m}");
                for l in excerpt(&a.trace).lines() {
                    println!("    {l}");
                }
                let st = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["replay", &path])
                    .stdout(std::process::Stdio::null())
                    .status();
                println!(
                    "replay in a fresh process: {}",
                    match st.map(|s| s.code()) {
                        Ok(Some(1)) => "reproduced exactly",
                        _ => "NOT reproduced",
                    }
                );
                line = format!("VIOLATION property={} replay={}", p.id, path);
                code = 1;
            }
        }
    }
    evidence(
        p,
        &s,
        base,
        thorough,
        total,
        workers,
        search_s,
        t0.elapsed().as_secs_f64(),
        code,
    );
    println!(
        "{}: {} runs, {} non-trivial, {} distinct, {:.1} s{}",
        p.id,
        s.runs,
        s.nontrivial,
        s.traces.len(),
        t0.elapsed().as_secs_f64(),
        if s.out_of_time {
            " (time cap reached)"
        } else {
            ""
        }
    );
    if s.mismatches > 0 {
        println!("{} of {} repeated runs differed", s.mismatches, s.rechecked);
    }
    if code == 1 {
        println!("{line}");
    }
    code
}

fn write_replay(p: &Prop, seed: u64, index: u64, tape: &[u32], o: &Outcome, tries: u64) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{seed:016x}.json", p.id);
    let (k, m) = o.bad.clone().unwrap_or_default();
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let tr: Vec<String> = o.trace.lines().map(js).collect();
    let j = format!(
        "{{\n\"property\": {},\n\"seed\": {seed},\n\"index\": {index},\n\"kind\": {},\n\"message\": {},\n\
         \"trace_hash\": \"{:016x}\",\n\"shrink_attempts\": {tries},\n\"tape\": [{}],\n\"trace\": [\n{}\n]\n}}\n",
        js(p.id),
        js(&k),
        js(&m),
        o.trace_hash,
        t.join(","),
        tr.join(",\n")
    );
    std::fs::write(&path, j).expect("write replay file");
    path
}

fn field<'a>(j: &'a str, k: &str) -> &'a str {
    let pat = format!("\"{k}\": ");
    let i = j.find(&pat).expect("replay file") + pat.len();
    let e = j[i..].find('\n').unwrap();
    j[i..i + e].trim_end_matches(',').trim_matches('"')
}

pub fn replay(file: &str, find: &dyn Fn(&str) -> Prop) -> i32 {
    let j = std::fs::read_to_string(file).expect("replay file");
    let p = find(field(&j, "property"));
    let tape: Vec<u32> = field(&j, "tape")
        .trim_matches(|c| c == '[' || c == ']')
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap())
        .collect();
    if let Some(f) = p.prep {
        f();
    }
    simrt::map_shared();
    let o = exec(&p, &Source::Tape(tape), true);
    print!("{}", o.trace);
    match o.bad {
        Some((k, m)) => {
            let exact = k == field(&j, "kind")
                && format!("{:016x}", o.trace_hash) == field(&j, "trace_hash");
            println!("{k}: {m}");
            println!(
                "{}",
                if exact {
                    "same violation, same trace"
                } else {
                    "violation, but not the recorded one"
                }
            );
            println!("VIOLATION property={} replay={}", p.id, file);
            if exact {
                1
            } else {
                3
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn one(p: &Prop, seed: u64) -> i32 {
    if let Some(f) = p.prep {
        f();
    }
    simrt::map_shared();
    let o = exec(p, &Source::Seed(seed), true);
    print!("{}", o.trace);
    println!(
        "steps {} switches {} tape {} nontrivial {} {:?}",
        o.steps,
        o.switches,
        o.tape.len(),
        o.nontrivial,
        o.ctr
    );
    println!("{:?}", o.bad);
    o.bad.is_some() as i32
}

/// Runs the same seeds twice, with different worker counts, and compares.
pub fn selftest(p: &Prop, n: u64) -> i32 {
    let base = env_u64("VERIF_SEED", 1);
    if let Some(f) = p.prep {
        f();
    }
    let mut sums = vec![];
    for workers in [8, 3, 16] {
        let s = search(p, base, n, workers, 1e9);
        let sum = (
            s.runs,
            s.steps,
            s.switches,
            s.sim_ns,
            s.nontrivial,
            s.traces.iter().fold(0u64, |a, b| mix(a, *b)),
            s.scheds.iter().fold(0u64, |a, b| mix(a, *b)),
            s.states.iter().fold(0u64, |a, b| mix(a, *b)),
            s.ctr.clone(),
        );
        println!(
            "{} {workers} workers: {} runs, {} repeated, {} differed, {} steps",
            p.id, s.runs, s.rechecked, s.mismatches, s.steps
        );
        if s.mismatches > 0 {
            return 1;
        }
        sums.push(sum);
    }
    if sums[0] == sums[1] && sums[1] == sums[2] {
        0
    } else {
        println!("{}: totals differ between worker counts: {sums:?}", p.id);
        1
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop,
    s: &Stats,
    base: u64,
    thorough: bool,
    total: u64,
    workers: u64,
    search_s: f64,
    wall: f64,
    code: i32,
) {
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let obj = |m: Vec<(String, u64)>| -> String {
        format!(
            "{{{}}}",
            m.iter()
                .map(|(k, v)| format!("{}: {v}", js(k)))
                .collect::<Vec<_>>()
                .join(", ")
        )
    };
    let pick = |pre: &str| -> Vec<(String, u64)> {
        s.ctr
            .iter()
            .filter(|(k, _)| k.starts_with(pre))
            .map(|(k, v)| (k[pre.len()..].to_string(), *v))
            .collect()
    };
    let rest: Vec<(String, u64)> = s
        .ctr
        .iter()
        .filter(|(k, _)| !k.starts_with("fault."))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let arr = |v: &[&str]| {
        format!(
            "[{}]",
            v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")
        )
    };
    let edges: u32 = s.edges.iter().map(|w| w.count_ones()).sum();
    let samples: Vec<String> = s
        .samples
        .iter()
        .map(|(i, t)| {
            format!(
                "{{\"run\": {i}, \"seed\": {}, \"trace\": {}}}",
                seed_of(base, p.id, *i),
                js(t)
            )
        })
        .collect();
    let hours = search_s.max(0.001) / 3600.0;
    let j = format!(
        "{{\n\"property\": {},\n\"tier\": \"{}\",\n\"seed\": {base},\n\"level\": \"exploration\",\n\"coverage\": {{\n\
         \"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"samples\": [{}],\n\
         \"runs_planned\": {total},\n\"time_cap_reached\": {},\n\"nontrivial_runs\": {},\n\"seeds_per_hour\": {:.0},\n\
         \"workers\": {workers},\n\"executed_edges\": {},\n\"longest_run_edges\": {},\n\"simulated_seconds\": {:.6},\n\
         \"context_switches\": {},\n\"distinct_interleavings\": {},\n\"interleaving_measure\": \"hash of the sequence of (from, to, code location) of all context switches of a run\",\n\
         \"distinct_states\": {},\n\"state_measure\": \"hash of the document or history state after each step, as computed by the model\",\n\
         \"distinct_code_edges\": {edges},\n\"instrumented_code_edges\": {},\n\
         \"faults_injected\": {},\n\"counters\": {},\n\
         \"runs_repeated_for_determinism\": {},\n\"repeated_runs_that_differed\": {},\n\
         \"ran_real_code\": {},\n\"ran_simulated_or_stubbed\": {}\n}},\n\
         \"assumptions\": [\"sequentially consistent memory: threads interleave at basic-block edges and futex calls; weaker orderings are not explored\", \"seeded sampling: a quiet batch is evidence, not proof\"],\n\
         \"wall_s\": {wall:.3},\n\"violations\": {}\n}}\n",
        js(p.id),
        if thorough { "thorough" } else { "quick" },
        s.runs,
        s.traces.len(),
        js(p.rule),
        samples.join(", "),
        s.out_of_time,
        s.nontrivial,
        s.runs as f64 / hours,
        s.steps,
        s.max_steps,
        s.sim_ns as f64 / 1e9,
        s.switches,
        s.scheds.len(),
        s.states.len(),
        simrt::GUARDS.load(SeqCst),
        obj(pick("fault.")),
        obj(rest),
        s.rechecked,
        s.mismatches,
        arr(p.real),
        arr(p.stub),
        code,
    );
    std::fs::write(format!("{dir}/{}.json", p.id), j).expect("write evidence");
}
