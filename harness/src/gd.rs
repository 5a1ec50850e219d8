//! C10 to C17: replicated, stored and remotely edited documents.
use crate::conv;
use crate::model::*;
use crate::types::{self, DocObj, Ty};
use crate::wire;
use crate::world::*;
use crate::Prop;
use mirror_mirror::key_path::GetPath;
use mirror_mirror::{Reflect, Value};
use simrt::{chance, count, draw, ev, nontrivial, violate};

// ---------------------------------------------------------------------------------------------
// C11: replicas follow the model

/// Converts a document to the given form through its value form, as a new replica would.
fn hand_over(src: &Rep, ty: Ty, name: String) -> Option<Rep> {
    let s = (ty.schema)();
    let v = match draw(4) {
        0 => src.doc.r().to_value(),
        1 => Value::from(src.doc.r()),
        2 => src.doc.r().clone_reflect().to_value(),
        _ => {
            let c = draw_codec();
            let b = wire::to_vec(c, &src.doc.r().to_value());
            match b.and_then(|b| wire::from_buf::<Value>(c, &b)) {
                Ok((v, _)) => v,
                Err(e) => violate!(
                    "wire",
                    "the value form of {} does not survive {c:?}: {e}",
                    src.name
                ),
            }
        }
    };
    let want = from_v(&s, &src.view());
    let got = (ty.from_reflect)(&v);
    match (want, got) {
        (Some(m), Some(doc)) => {
            let r = Rep {
                name,
                ty,
                s,
                doc,
                m,
            };
            r.check("when created from another's value form");
            Some(r)
        }
        (None, None) => None,
        (w, g) => violate!(
            "conversion",
            "{} as {}: conversion {} and should {}",
            show(&src.view()),
            ty.name,
            if g.is_some() { "succeeds" } else { "fails" },
            if w.is_some() { "succeed" } else { "fail" }
        ),
    }
}

/// Merges a part of one document directly into the same part of another.
fn paste(reps: &mut [Rep], from: usize, to: usize) {
    let path = {
        let r = &reps[from];
        gen_path(&r.s, &r.m, (1, 3))
    };
    let Some(v) = get(&reps[from].s, &reps[from].m, &path) else {
        return;
    };
    let mut m = std::mem::replace(&mut reps[to].m, M::Tuple(vec![]));
    let s = reps[to].s.clone();
    let want = apply(&s, &mut m, &path, &Op::Patch(v));
    reps[to].m = m;
    let src = reps[from].doc.dup();
    let kp = conv::key_path(&path);
    let Some(part) = src.r().at(&kp) else {
        violate!(
            "lookup",
            "{} finds nothing at {}",
            reps[from].name,
            show_path(&path)
        )
    };
    let got = match conv::reach(reps[to].doc.rm(), &path) {
        Some(r) => {
            r.patch(part);
            Ret::Done
        }
        None => Ret::NotFound,
    };
    ev!(
        "{} takes {} from {}",
        reps[to].name,
        show_path(&path),
        reps[from].name
    );
    if got != want {
        violate!(
            "result",
            "{}: merging at {} gives {got:?}, should be {want:?}",
            reps[to].name,
            show_path(&path)
        );
    }
    count("reach.direct_merge");
    let name = reps[from].name.clone();
    reps[to].check(&format!("after merging {} of {name}", show_path(&path)));
}

fn c11() {
    let ty = draw_type(|_| true);
    let s = (ty.schema)();
    let m0 = gen(&s, 3);
    let skips = types::has_skips(&s);
    let n = 1 + draw(4) as usize;
    let mut reps: Vec<Rep> = (0..n)
        .map(|i| {
            if i == 0 || draw(2) == 0 {
                Rep::new(format!("typed{i}"), ty, m0.clone())
            } else {
                Rep::new(format!("dyn{i}"), types::erased(), view(&s, &m0))
            }
        })
        .collect();
    ev!("{} replicas of {}: {}", n, ty.name, show(&m0));
    let codec = draw_codec();
    let mut author = m0;
    let mut edits: Vec<(Edit, Vec<u8>)> = vec![];
    let mut applied = vec![0usize; n];
    let mut net = Net::new(n);
    let max = 2 + draw(24) as usize;
    let mut forks = 0;
    let mut steps = 0;
    while edits.len() < max || !net.links.iter().all(|l| l.is_empty()) {
        steps += 1;
        if steps > 600 {
            break;
        }
        match draw(12) {
            0..=4 if edits.len() < max => {
                let e = gen_edit(
                    &s,
                    &author,
                    if draw(5) == 4 { Fit::Near } else { Fit::Exact },
                );
                apply(&s, &mut author, &e.path, &e.op);
                ev!("edit {}: {}", edits.len(), show_edit(&e));
                let b = encode_edit(codec, &e);
                for i in 0..n {
                    net.send(i, edits.len(), &b);
                }
                edits.push((e, b));
            }
            10 if chance(1, 3) => net.partition(),
            11 => {
                // a replica is replaced by one made from another's value form
                let (a, b) = (draw(n as u32) as usize, draw(n as u32) as usize);
                let form = if draw(2) == 0 { ty } else { types::erased() };
                if let Some(r) = hand_over(&reps[a], form, format!("{}/{}", reps[a].name, forks)) {
                    ev!("{} replaces {}", r.name, reps[b].name);
                    forks += 1;
                    count("reach.handover");
                    applied[b] = applied[a];
                    reps[b] = r;
                }
            }
            9 if n > 1 && !skips && total(&ty) => {
                // replicas at the same point in the history share a part directly
                let (a, b) = (draw(n as u32) as usize, draw(n as u32) as usize);
                // of the same form: a typed array is not merged into a dynamic list
                if a != b && reps[a].is_erased() == reps[b].is_erased() {
                    let keep = reps[b].doc.dup();
                    let km = reps[b].m.clone();
                    paste(&mut reps, a, b);
                    // undo: the history of the replica goes on without it
                    reps[b].doc = keep;
                    reps[b].m = km;
                    reps[b].check("after going back to a copy");
                }
            }
            _ => {
                if let Some((i, p)) = net.next() {
                    if p.seq == applied[i] {
                        let e = decode_edit(codec, &p.bytes, &edits[p.seq].0);
                        ev!("{} gets {}", reps[i].name, p.seq);
                        reps[i].apply(&e.path, &e.op);
                        applied[i] += 1;
                        nontrivial();
                    } else if p.seq > applied[i] {
                        // a gap: ask again for what is missing
                        count("reach.gap");
                        let missing = applied[i];
                        let b = edits[missing].1.clone();
                        net.send(i, missing, &b);
                    }
                }
            }
        }
    }
    // faults stop: everything arrives, in a bounded number of steps
    net.heal();
    for i in 0..n {
        while applied[i] < edits.len() {
            let e = decode_edit(codec, &edits[applied[i]].1, &edits[applied[i]].0);
            reps[i].apply(&e.path, &e.op);
            applied[i] += 1;
        }
    }
    // a document is what it is, whoever holds it: by clone, by owned parts, by value form
    for r in &reps {
        let c = r.doc.r().clone_reflect();
        let got = conv::read_owned(c);
        if got != r.view() {
            violate!(
                "clone",
                "a clone of {} is {} and should be {}",
                r.name,
                show(&got),
                show(&r.view())
            );
        }
        if draw(3) == 1 && total(&ty) {
            count("reach.every_part_audited");
            let mut d = r.doc.dup();
            conv::audit(d.r());
            conv::audit_mut(d.rm());
            conv::audit(d.r());
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C12: crash recovery

struct Store {
    disk: Disk,
    codec: wire::Codec,
    /// which snapshot slot and log are current
    slot: usize,
    log_off: usize,
}

fn frame(
    disk: &mut Disk,
    file: &str,
    off: usize,
    body: &mut dyn FnMut(&mut DiskWriter<'_>) -> Result<(), String>,
) -> Result<usize, String> {
    // record: length and checksum behind the body, so that a torn record is recognised
    let mut w = DiskWriter {
        disk,
        name: file.into(),
        off: off + 12,
        crc: simrt::FNV0,
    };
    body(&mut w)?;
    let len = w.off - off - 12;
    let crc = w.crc;
    let mut h = (len as u32).to_le_bytes().to_vec();
    h.extend(crc.to_le_bytes());
    let mut w = DiskWriter {
        disk: w.disk,
        name: file.into(),
        off,
        crc: 0,
    };
    std::io::Write::write_all(&mut w, &h).map_err(|e| e.to_string())?;
    Ok(off + 12 + len)
}

fn unframe<'a>(b: &mut &'a [u8]) -> Option<&'a [u8]> {
    if b.len() < 12 {
        return None;
    }
    let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    if b.len() - 12 < n || n == 0 {
        return None;
    }
    let body = &b[12..12 + n];
    if simrt::fnv(simrt::FNV0, body).to_le_bytes() != b[4..12] {
        return None;
    }
    *b = &b[12 + n..];
    Some(body)
}

impl Store {
    fn snapshot(&mut self, seq: u64, r: &dyn Reflect) -> Result<(), String> {
        let k = 1 - self.slot;
        let (snap, log) = (format!("snap{k}"), format!("log{k}"));
        let c = self.codec;
        let v = r.to_value();
        self.disk.truncate(&snap).map_err(|e| e.to_string())?;
        frame(&mut self.disk, &snap, 0, &mut |w| {
            std::io::Write::write_all(w, &seq.to_le_bytes()).map_err(|e| e.to_string())?;
            wire::write(c, &v, w)
        })?;
        self.disk.sync(&snap).map_err(|e| e.to_string())?;
        self.disk.truncate(&log).map_err(|e| e.to_string())?;
        self.disk.sync(&log).map_err(|e| e.to_string())?;
        self.slot = k;
        self.log_off = 0;
        Ok(())
    }
    fn append(&mut self, seq: u64, e: &Edit) -> Result<(), String> {
        let log = format!("log{}", self.slot);
        let c = self.codec;
        let end = frame(&mut self.disk, &log, self.log_off, &mut |w| {
            std::io::Write::write_all(w, &seq.to_le_bytes()).map_err(|e| e.to_string())?;
            write_edit(c, e, w)
        })?;
        self.disk.sync(&log).map_err(|e| e.to_string())?;
        self.log_off = end;
        Ok(())
    }
    /// The newest snapshot and the edits after it.
    fn load(&mut self) -> Option<(u64, Value, Vec<(u64, Edit)>)> {
        let mut best: Option<(u64, Value, usize)> = None;
        for k in 0..2 {
            let b = self.disk.contents(&format!("snap{k}"));
            let mut p = &b[..];
            let Some(body) = unframe(&mut p) else {
                continue;
            };
            let seq = u64::from_le_bytes(body[..8].try_into().unwrap());
            let v: Value = match wire::read(
                self.codec,
                SliceReader {
                    b: &body[8..],
                    faulty: true,
                },
            ) {
                Ok(v) => v,
                Err(e) => violate!(
                    "recovery",
                    "an intact snapshot does not read back ({:?}): {e}",
                    self.codec
                ),
            };
            if best.as_ref().map_or(true, |b| seq > b.0) {
                best = Some((seq, v, k));
            }
        }
        let (seq, v, k) = best?;
        let mut edits = vec![];
        let mut next = seq + 1;
        for l in [1 - k, k] {
            let b = self.disk.contents(&format!("log{l}"));
            let mut p = &b[..];
            while let Some(body) = unframe(&mut p) {
                let n = u64::from_le_bytes(body[..8].try_into().unwrap());
                if n == next {
                    let mut r = SliceReader {
                        b: &body[8..],
                        faulty: true,
                    };
                    match read_edit(self.codec, &mut r) {
                        Ok(e) => edits.push((n, e)),
                        Err(e) => violate!(
                            "recovery",
                            "an intact log record does not read back ({:?}): {e}",
                            self.codec
                        ),
                    }
                    next += 1;
                }
            }
        }
        Some((seq, v, edits))
    }
}

fn c12() {
    let ty = draw_type(total);
    let s = (ty.schema)();
    let m0 = gen(&s, 3);
    let form = if draw(3) == 2 { types::erased() } else { ty };
    let mut rep = if form.name == ty.name {
        Rep::new("store".into(), ty, m0.clone())
    } else {
        Rep::new("store".into(), form, view(&s, &m0))
    };
    let codec = draw_codec();
    let mut st = Store {
        disk: Disk::default(),
        codec,
        slot: 0,
        log_off: 0,
    };
    ev!(
        "a stored {} ({}), {codec:?}: {}",
        ty.name,
        if rep.is_erased() { "dynamic" } else { "typed" },
        show(&rep.m)
    );
    // the first snapshot is part of setting up
    if let Err(e) = st.snapshot(0, rep.doc.r()) {
        violate!("wire", "storing a snapshot on a healthy disk fails: {e}");
    }
    st.disk.faulty = true;
    let lives = 1 + draw(5);
    // what a reader saw after each edit
    let mut seen: Vec<M> = vec![rep.view()];
    let mut acked = 0u64;
    for life in 0..lives {
        st.disk.fuse = Some(draw(40) + draw(2) * draw(400));
        let mut budget = 4 + draw(24);
        let mut in_flight: Option<Edit> = None;
        let failed = loop {
            if budget == 0 {
                break false;
            }
            budget -= 1;
            if chance(1, 8) {
                match st.snapshot(acked, rep.doc.r()) {
                    Ok(()) => {
                        ev!("snapshot at {acked}");
                        count("reach.snapshot");
                        continue;
                    }
                    Err(e) => {
                        if !st.disk.dead {
                            violate!(
                                "wire",
                                "storing a snapshot fails though the disk does not: {e}"
                            );
                        }
                        break true;
                    }
                }
            }
            let e = gen_edit(&rep.s, &rep.m, Fit::Exact);
            match st.append(acked + 1, &e) {
                Ok(()) => {
                    if st.disk.dead {
                        violate!(
                            "wire",
                            "the log claims to have stored {} though the disk failed",
                            show_edit(&e)
                        );
                    }
                    ev!("edit {}: {}", acked + 1, show_edit(&e));
                    rep.apply(&e.path, &e.op);
                    acked += 1;
                    seen.truncate(acked as usize);
                    seen.push(rep.view());
                }
                Err(err) => {
                    if !st.disk.dead {
                        violate!(
                            "wire",
                            "storing {} fails though the disk does not: {err}",
                            show_edit(&e)
                        );
                    }
                    in_flight = Some(e);
                    break true;
                }
            }
        };
        if !failed && life + 1 == lives {
            count("fault.power_loss_when_idle");
        }
        st.disk.crash();
        nontrivial();
        ev!("crash after {acked} acknowledged edits");
        let Some((base, v, log)) = st.load() else {
            violate!("recovery", "no snapshot survived")
        };
        let last = log.last().map_or(base, |l| l.0);
        if last < acked || last > acked + 1 {
            violate!(
                "recovery",
                "{acked} edits were acknowledged, {last} survived"
            );
        }
        if last == acked + 1 {
            count("reach.in_flight_edit_survived");
            let (_, e) = log.last().unwrap();
            if Some(e) != in_flight.as_ref() {
                violate!(
                    "recovery",
                    "an edit was recovered that is not the one in flight: {}",
                    show_edit(e)
                );
            }
        }
        // the recovered document, in the form it had
        let doc = match (form.from_reflect)(&v) {
            Some(d) => d,
            None => violate!(
                "recovery",
                "{} does not convert back from its own value form {}",
                form.name,
                show(&conv::norm_value(&v))
            ),
        };
        let Some(m) = from_v(&rep.s, &seen[base as usize]) else {
            violate!(
                "harness",
                "the model cannot convert {}",
                show(&seen[base as usize])
            )
        };
        let got = conv::norm_value(&v);
        if got != seen[base as usize] {
            violate!(
                "recovery",
                "the snapshot of edit {base} holds\n  {}\ninstead of\n  {}",
                show(&got),
                show(&seen[base as usize])
            );
        }
        rep = Rep {
            name: "store".into(),
            ty: form,
            s: rep.s,
            doc,
            m,
        };
        rep.check("when loaded from the snapshot");
        for (n, e) in &log {
            rep.apply(&e.path, &e.op);
            if *n <= acked && rep.view() != seen[*n as usize] {
                violate!(
                    "recovery",
                    "after replaying edit {n} the document is\n  {}\nit was\n  {}",
                    show(&rep.view()),
                    show(&seen[*n as usize])
                );
            }
        }
        if last > acked {
            seen.push(rep.view());
        }
        acked = last;
        // a new life starts with a snapshot of what was recovered
        if let Err(e) = st.snapshot(acked, rep.doc.r()) {
            if !st.disk.dead {
                violate!(
                    "wire",
                    "storing a snapshot fails though the disk does not: {e}"
                );
            }
            // the disk failed again, before anything new was acknowledged
            count("fault.crash_during_recovery");
            st.disk.crash();
            st.disk.faulty = false;
            let Some((base, v, log)) = st.load() else {
                violate!("recovery", "no snapshot survived")
            };
            if log.last().map_or(base, |l| l.0) != acked {
                violate!("recovery", "a crash during recovery lost edits");
            }
            let doc = (form.from_reflect)(&v)
                .unwrap_or_else(|| violate!("recovery", "the snapshot does not convert back"));
            let m = from_v(&rep.s, &seen[base as usize]).unwrap();
            rep = Rep {
                name: "store".into(),
                ty: form,
                s: rep.s,
                doc,
                m,
            };
            for (_, e) in &log {
                rep.apply(&e.path, &e.op);
            }
            if let Err(e) = st.snapshot(acked, rep.doc.r()) {
                violate!("wire", "storing a snapshot on a healthy disk fails: {e}");
            }
            st.disk.faulty = true;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C13: duplicate delivery

fn c13() {
    let ty = draw_type(|_| true);
    let s = (ty.schema)();
    let m0 = gen(&s, 3);
    let erase = draw(3) == 2;
    let mut rep = if erase {
        Rep::new("dyn".into(), types::erased(), view(&s, &m0))
    } else {
        Rep::new("typed".into(), ty, m0)
    };
    ev!("{}: {}", ty.name, show(&rep.m));
    let codec = draw_codec();
    for _ in 0..2 + draw(10) {
        let e = gen_edit(
            &rep.s,
            &rep.m,
            if draw(2) == 0 { Fit::Exact } else { Fit::Near },
        );
        let b = encode_edit(codec, &e);
        let e = decode_edit(codec, &b, &e);
        ev!("{}", show_edit(&e));
        match e.op {
            Op::Patch(_) | Op::Insert(..) | Op::Delete(_) => {}
            _ => {
                rep.apply(&e.path, &e.op);
                continue;
            }
        }
        let first = rep.apply(&e.path, &e.op);
        let before = rep.doc.m();
        let text = format!("{:?}", rep.doc.r());
        for k in 0..1 + draw(3) {
            count("fault.message_duplicated");
            // the duplicate is decoded and applied by another route
            let e2 = decode_edit(codec, &b, &e);
            let again = conv::edit(rep.doc.rm(), &e2.path, &e2.op);
            if rep.doc.m() != before || format!("{:?}", rep.doc.r()) != text {
                violate!(
                    "idempotence",
                    "delivery {} of {} changed\n  {}\nto\n  {}",
                    k + 2,
                    show_edit(&e),
                    show(&before),
                    show(&rep.doc.m())
                );
            }
            let ok = match (&e.op, &first, &again) {
                // the edit itself may have replaced the variant its path names
                (Op::Patch(_), a, b) => a == b || matches!((a, b), (Ret::Done, Ret::NotFound)),
                (Op::Insert(..), Ret::Out(_), Ret::Out(_)) => true,
                (Op::Delete(_), Ret::Out(_), Ret::Out(b)) => b.is_none(),
                (_, a, b) => a == b,
            };
            if !ok {
                violate!(
                    "result",
                    "delivery {} of {} returned {again:?} after {first:?}",
                    k + 2,
                    show_edit(&e)
                );
            }
            if let (Op::Insert(k, v), Ret::Out(out)) = (&e.op, &again) {
                // what the duplicate replaces is what the first delivery put there
                let (ps, _) = at(&rep.s, &mut rep.m, &e.path).unwrap();
                let (kt, vt) = entry(&ps).unwrap();
                let want = match (from_v(&kt, k), from_v(&vt, v)) {
                    (Some(_), Some(v)) => Some(view(&vt, &v)),
                    _ => None,
                };
                if *out != want {
                    violate!(
                        "result",
                        "a repeated {} returned {out:?}, should be {want:?}",
                        show_edit(&e)
                    );
                }
            }
            nontrivial();
        }
        // a document, merged into itself or a copy
        if draw(3) == 0 {
            let mut copy = rep.doc.dup();
            let own = rep.doc.r().to_value();
            let v0 = conv::read(rep.doc.r());
            match draw(3) {
                0 => copy.rm().patch(&own),
                1 => copy.rm().patch(rep.doc.r()),
                _ => {
                    let c = rep.doc.r().clone_reflect();
                    copy.rm().patch(&*c)
                }
            }
            let v1 = conv::read(copy.r());
            if v0 != v1 {
                violate!(
                    "idempotence",
                    "merging a document into a copy of itself changed\n  {}\nto\n  {}",
                    show(&v0),
                    show(&v1)
                );
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C14: edits to different parts

/// The steps as they identify a part: variants left out, indices alike.
fn ident(s: &S, m: &M, path: &[Kx]) -> Vec<Kx> {
    let mut c = m.clone();
    let (mut s, mut cur): (S, &mut M) = (s.clone(), &mut c);
    let mut out = vec![];
    for k in path {
        match (k, &*cur) {
            (Kx::Var(_), _) => {}
            (Kx::Get(i), M::List(_)) => out.push(Kx::Num(key_index(i).unwrap())),
            (Kx::Get(i), M::Map(_)) => {
                // the key as stored
                let k = match &s.k {
                    SK::Map(kt, _) => from_v(&kt(), i).unwrap(),
                    _ => i.clone(),
                };
                out.push(Kx::Get(k));
            }
            (k, _) => out.push(k.clone()),
        }
        let Some((s2, m2)) = step(&s, cur, k) else {
            break;
        };
        s = s2;
        cur = m2;
    }
    out
}

fn disjoint(a: &[Kx], b: &[Kx]) -> bool {
    let n = a.len().min(b.len());
    a[..n] != b[..n]
}

fn has_seq(m: &M) -> bool {
    match m {
        M::List(_) | M::Map(_) => true,
        M::Sc(..) | M::Str(_) | M::Enum(_, K::Unit) => false,
        M::Struct(f) | M::Enum(_, K::Struct(f)) => f.iter().any(|x| has_seq(&x.1)),
        M::TStruct(f) | M::Tuple(f) | M::Enum(_, K::Tuple(f)) => f.iter().any(has_seq),
    }
}

fn c14() {
    let ty = draw_type(|_| true);
    let s = (ty.schema)();
    let mut m0 = gen(&s, 4);
    for _ in 0..4 {
        if size(&m0) > 3 {
            break;
        }
        m0 = gen(&s, 4);
    }
    let erase = draw(3) == 2;
    let rep = if erase {
        Rep::new("dyn".into(), types::erased(), view(&s, &m0))
    } else {
        Rep::new("typed".into(), ty, m0)
    };
    let s = rep.s.clone();
    ev!("{}: {}", ty.name, show(&rep.m));
    // up to 4 edits to parts none of which contains another
    let mut edits: Vec<Edit> = vec![];
    let mut ids: Vec<Vec<Kx>> = vec![];
    for _ in 0..12 {
        let e = gen_edit(&s, &rep.m, if draw(3) > 0 { Fit::Exact } else { Fit::Near });
        let id = ident(&s, &rep.m, &e.path);
        if ids.iter().all(|x| disjoint(x, &id)) && edits.len() < 4 {
            ids.push(id);
            edits.push(e);
        }
    }
    let codec = draw_codec();
    let msgs: Vec<Vec<u8>> = edits.iter().map(|e| encode_edit(codec, e)).collect();
    let orders = 1 + draw(3);
    let mut end: Option<M> = None;
    for o in 0..orders {
        let mut net: Vec<usize> = (0..edits.len()).collect();
        if o > 0 {
            for i in (1..net.len()).rev() {
                net.swap(i, draw(i as u32 + 1) as usize);
            }
            count("fault.message_reordered");
        }
        ev!("order {net:?}");
        let mut r = Rep {
            name: rep.name.clone(),
            ty: rep.ty,
            s: s.clone(),
            doc: rep.doc.dup(),
            m: rep.m.clone(),
        };
        for i in net {
            let e = decode_edit(codec, &msgs[i], &edits[i]);
            ev!("{}", show_edit(&e));
            // what the other edits address, before
            let before: Vec<Option<M>> = edits
                .iter()
                .map(|x| r.doc.r().at(&conv::key_path(&x.path)).map(conv::read))
                .collect();
            let all = conv::read(r.doc.r());
            r.apply(&e.path, &e.op);
            for (j, x) in edits.iter().enumerate() {
                if i == j {
                    continue;
                }
                let now = r.doc.r().at(&conv::key_path(&x.path)).map(conv::read);
                if now != before[j] {
                    violate!(
                        "interference",
                        "{} changed what is at {} from {:?} to {:?}",
                        show_edit(&e),
                        show_path(&x.path),
                        before[j].as_ref().map(show),
                        now.as_ref().map(show)
                    );
                }
                nontrivial();
            }
            // everything outside the part is as before
            let kp = ident(&s, &rep.m, &e.path);
            let (a, b) = (mask(&all, &kp), mask(&conv::read(r.doc.r()), &kp));
            if a != b {
                violate!(
                    "interference",
                    "{} changed something else:\n  {}\nto\n  {}",
                    show_edit(&e),
                    show(&a),
                    show(&b)
                );
            }
            // reading back a complete value
            if let Op::Patch(v) = &e.op {
                let mut c = r.m.clone();
                // the merge may have replaced the variant that the path ends in
                let mut path = e.path.clone();
                while matches!(path.last(), Some(Kx::Var(_))) {
                    path.pop();
                }
                let Some((ps, _)) = at(&s, &mut c, &path) else {
                    continue;
                };
                if !matches!(ps.k, SK::Any) && !has_seq(v) && from_v(&ps, v).is_some() {
                    let want = view(&ps, &from_v(&ps, v).unwrap());
                    let got = r.doc.r().at(&conv::key_path(&path)).map(conv::read);
                    if got.as_ref() != Some(&want) && no_with(&ps) {
                        violate!(
                            "read back",
                            "after {} reading gives {:?}",
                            show_edit(&e),
                            got.as_ref().map(show)
                        );
                    }
                    count("reach.read_back");
                }
            }
        }
        let got = conv::read(r.doc.r());
        match &end {
            None => end = Some(got),
            Some(w) if *w == got => count("reach.reordered_runs_compared"),
            Some(w) => violate!(
                "order",
                "edits to different parts in another order give\n  {}\ninstead of\n  {}",
                show(&got),
                show(w)
            ),
        }
    }
}
fn no_with(s: &S) -> bool {
    !s.name.contains("Even")
}

/// The tree with the part at the path blanked out.
fn mask(m: &M, path: &[Kx]) -> M {
    let Some((k, rest)) = path.split_first() else {
        return M::Tuple(vec![]);
    };
    let mut m = m.clone();
    let part = match (k, &mut m) {
        (Kx::Name(n), M::Struct(f) | M::Enum(_, K::Struct(f))) => {
            f.iter_mut().find(|x| x.0 == *n).map(|x| &mut x.1)
        }
        (Kx::Num(i), M::TStruct(f) | M::Tuple(f) | M::Enum(_, K::Tuple(f)) | M::List(f)) => {
            f.get_mut(*i)
        }
        (Kx::Get(k), M::Map(e)) => e.iter_mut().find(|x| x.0 == *k).map(|x| &mut x.1),
        _ => None,
    };
    if let Some(p) = part {
        *p = mask(p, rest);
    }
    m
}

// ---------------------------------------------------------------------------------------------
// C15: edits that do not apply

/// Does a value of the type look the same through its accessors as its value form does?
fn plain(s: &S) -> bool {
    fn go(s: &S, seen: &mut Vec<std::any::TypeId>) -> bool {
        if seen.contains(&s.id) {
            return true;
        }
        seen.push(s.id);
        let mut fs = |f: &[F]| f.iter().all(|f| f.skip.is_none() && go(&(f.ty)(), seen));
        match &s.k {
            SK::Struct(f) | SK::TStruct(f) => fs(f),
            SK::Tuple(t) => t.iter().all(|t| go(&t(), seen)),
            SK::Enum(v) => v.iter().all(|v| match &v.k {
                VK::Unit => true,
                VK::Tuple(f) | VK::Struct(f) => fs(f),
            }),
            SK::List(t) => go(&t(), seen),
            SK::Map(k, v) => go(&k(), seen) && go(&v(), seen),
            SK::Sc(_) | SK::Str | SK::Any => true,
            SK::Arr(..) | SK::NonZero(_) | SK::Dur => false,
        }
    }
    go(s, &mut vec![])
}

/// A part of some typed document, as it is, is merged, pushed, inserted or converted.
fn foreign(rep: &mut Rep) {
    // (a value of the same type need not pass its custom conversions again)
    let st = if draw(3) == 0 && total(&rep.ty) {
        rep.ty
    } else {
        draw_type(total)
    };
    let ss = (st.schema)();
    let mut sm = gen(&ss, 3);
    let doc = (st.new)(&sm);
    let sp = gen_path(&ss, &sm, (1, 2));
    let Some((ps, _)) = at(&ss, &mut sm, &sp) else {
        return;
    };
    let Some(v) = get(&ss, &sm, &sp) else { return };
    let Some(part) = doc.r().at(&conv::key_path(&sp)) else {
        violate!("lookup", "{} has nothing at {}", st.name, show_path(&sp))
    };
    // (an array is a list only in its value form)
    let array = match &ps.k {
        SK::Arr(e, _) => plain(&e()),
        _ => false,
    };
    if !array && !plain(&ps) {
        return;
    }
    let tp = gen_path(&rep.s, &rep.m, (1, 3));
    let Some((ts, there)) = at(&rep.s, &mut rep.m, &tp) else {
        return;
    };
    let there = there.clone();
    let fits = |t: &S| !array || !matches!(t.k, SK::List(_) | SK::Any);
    let mut key = None;
    let op = match (&ts.k, &there) {
        (SK::List(e), _) if draw(2) == 0 => {
            if !fits(&e()) {
                return;
            }
            Op::Push(v.clone())
        }
        (SK::Map(k, e), M::Map(_)) if draw(2) == 0 => {
            if !fits(&e()) {
                return;
            }
            key = Some(gen_key(&k()));
            Op::Insert(key.clone().unwrap(), v.clone())
        }
        _ if fits(&ts) => Op::Patch(v.clone()),
        _ => return,
    };
    ev!(
        "a {} from {}: {} at {}",
        ps.name,
        st.name,
        show_op(&op),
        show_path(&tp)
    );
    let want = apply(&rep.s.clone(), &mut rep.m, &tp, &op);
    let Some(r) = conv::reach(rep.doc.rm(), &tp) else {
        violate!(
            "lookup",
            "{} has nothing at {}",
            rep.ty.name,
            show_path(&tp)
        )
    };
    let got = conv::edit_with(r, &op, part, key.as_ref());
    if got != want {
        violate!(
            "result",
            "{} at {} of a {} returned {got:?}, should be {want:?}",
            show_op(&op),
            show_path(&tp),
            rep.ty.name
        );
    }
    rep.check(&format!(
        "after {} at {} with a {} from a {}",
        show_op(&op),
        show_path(&tp),
        ps.name,
        st.name
    ));
    count("reach.part_of_another_type");
    let t = if draw(2) == 0 {
        st
    } else {
        draw_type(|_| true)
    };
    let s = (t.schema)();
    if array && !matches!(s.k, SK::Arr(..)) {
        return;
    }
    let want = from_v(&s, &v).map(|mut m| {
        norm(&mut m);
        m
    });
    let got = (t.from_reflect)(part).map(|d| d.m());
    if got != want {
        violate!(
            "conversion",
            "a {} ({}) as {} gives {:?}, should be {:?}",
            ps.name,
            show(&v),
            t.name,
            got.as_ref().map(show),
            want.as_ref().map(show)
        );
    }
}

fn c15() {
    let ty = draw_type(|_| true);
    let s = (ty.schema)();
    let m0 = gen(&s, 3);
    let erase = draw(3) == 2;
    let mut rep = if erase {
        Rep::new("dyn".into(), types::erased(), view(&s, &m0))
    } else {
        Rep::new("typed".into(), ty, m0)
    };
    let s = rep.s.clone();
    ev!("{}: {}", ty.name, show(&rep.m));
    let mut old: Vec<M> = vec![rep.m.clone()];
    for _ in 0..3 + draw(14) {
        // the author looks at a state that may be long gone
        let lag = draw(old.len() as u32) as usize;
        if lag > 0 {
            count("fault.stale_author");
        }
        let base = old[old.len() - 1 - lag].clone();
        let mut e = gen_edit(&s, &base, if draw(3) == 0 { Fit::Exact } else { Fit::Near });
        match draw(6) {
            0 => {
                // a step too far
                e.path.push(gen_wild_key());
                count("fault.misaddressed");
            }
            1 if !e.path.is_empty() => {
                let i = draw(e.path.len() as u32) as usize;
                e.path[i] = if chance(1, 2) {
                    near_key(&e.path[i])
                } else {
                    gen_wild_key()
                };
                count("fault.misaddressed");
            }
            2 if !e.path.is_empty() => {
                // a step left out
                let i = draw(e.path.len() as u32) as usize;
                e.path.remove(i);
                count("fault.misaddressed");
            }
            3 => {
                // the operation of another place
                let o = gen_edit(&s, &base, Fit::Near);
                e.op = o.op;
                count("fault.mismatched_value");
            }
            _ => {}
        }
        ev!("{}", show_edit(&e));
        let before = conv::read(rep.doc.r());
        // reading never changes anything and agrees with the model
        let found = rep.doc.r().at(&conv::key_path(&e.path)).map(conv::read);
        let want = get(&s, &rep.m, &e.path);
        if found != want {
            violate!(
                "lookup",
                "{} finds {:?}, should find {:?}",
                show_path(&e.path),
                found.as_ref().map(show),
                want.as_ref().map(show)
            );
        }
        let ret = rep.apply(&e.path, &e.op);
        if matches!(ret, Ret::NotFound | Ret::WrongKind) {
            nontrivial();
            count("reach.edit_not_applicable");
            let after = conv::read(rep.doc.r());
            if before != after {
                violate!(
                    "harm",
                    "{} was not applicable ({ret:?}) but changed\n  {}\nto\n  {}",
                    show_edit(&e),
                    show(&before),
                    show(&after)
                );
            }
        }
        if draw(3) == 0 {
            foreign(&mut rep);
        }
        // the same value, as a conversion to the document's type
        if let Op::Patch(v) | Op::Push(v) | Op::Insert(_, v) = &e.op {
            let t = draw_type(|_| true);
            let ts = (t.schema)();
            let v = if draw(2) == 0 {
                v.clone()
            } else {
                gen_near(&ts, 2)
            };
            let want = from_v(&ts, &v).map(|m| {
                let mut m = m;
                norm(&mut m);
                m
            });
            let got = (t.from_reflect)(&conv::to_value(&v)).map(|d| d.m());
            if got != want {
                violate!(
                    "conversion",
                    "{} as {} gives {:?}, should be {:?}",
                    show(&v),
                    t.name,
                    got.as_ref().map(show),
                    want.as_ref().map(show)
                );
            }
            count(if want.is_some() {
                "reach.converted"
            } else {
                "reach.conversion_rejected"
            });
        }
        if old.len() > 6 {
            old.remove(0);
        }
        old.push(rep.m.clone());
    }
}

pub const REAL: &[&str] = &[
    "mirror-mirror (all of it, from /repo)",
    "mirror-mirror-macros derive expansions",
    "speedy and serde derive impls, bincode",
];
pub const STUB: &[&str] = &[
    "network between author and replicas (delays, losses, duplicates, partitions)",
    "self-describing serde format",
    "the application: author, replicas and protocol",
];
pub const STUB_DISK: &[&str] = &[
    "disk (unsynced writes lost or torn, short and interrupted I/O, errors, full)",
    "the application: write-ahead log, snapshots and recovery",
    "self-describing serde format",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            run: c11,
            prep: None,
            quick: 60_000,
            thorough: 2_000_000,
            budget: 2_500_000_000,
            cpu: 60,
            rule: "an author makes 2 to 25 edits to a document of a drawn type (45 types); 1 to 4 typed and dynamic replicas receive them over lossy, duplicating, reordering links, hand over to one another through value forms, and paste parts; non-trivial: at least one edit reached a replica over the network",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C12",
            run: c12,
            prep: None,
            quick: 60_000,
            thorough: 2_000_000,
            budget: 2_500_000_000,
            cpu: 60,
            rule: "a stored document lives through 1 to 5 crashes at drawn disk operations, each after up to 28 edits and snapshots; non-trivial: at least one crash and recovery",
            real: REAL,
            stub: STUB_DISK,
        },
        Prop {
            id: "C13",
            run: c13,
            prep: None,
            quick: 60_000,
            thorough: 2_000_000,
            budget: 2_500_000_000,
            cpu: 60,
            rule: "a replica receives 2 to 11 edits, idempotent ones 2 to 4 times; non-trivial: at least one duplicate",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C14",
            run: c14,
            prep: None,
            quick: 60_000,
            thorough: 2_000_000,
            budget: 2_500_000_000,
            cpu: 60,
            rule: "up to 4 edits to parts none of which contains another, delivered in up to 4 orders; non-trivial: at least two such edits",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C15",
            run: c15,
            prep: None,
            quick: 60_000,
            thorough: 2_000_000,
            budget: 2_500_000_000,
            cpu: 60,
            rule: "3 to 16 edits made against states up to 7 edits old, with wrong, missing or additional path steps, values that do not fit, and conversions to drawn types; non-trivial: at least one edit does not apply",
            real: REAL,
            stub: STUB,
        },
    ]
}

#[allow(unused)]
fn _u(_: &dyn DocObj) {}
