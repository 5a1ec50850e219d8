//! Replicas of documents, the edits they exchange, and the simulated network and disk between them.
use crate::conv;
use crate::model::*;
use crate::types::{self, DocObj, Ty};
use crate::wire::{self, Codec, CODECS};
use mirror_mirror::{Reflect, Value};
use simrt::{chance, count, draw, ev, violate};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};

// ---------------------------------------------------------------------------------------------
// replicas

/// A document held by the library, with what the model says it holds.
pub struct Rep {
    pub name: String,
    pub ty: Ty,
    pub s: S,
    pub doc: Box<dyn DocObj>,
    pub m: M,
}

impl Rep {
    pub fn new(name: String, ty: Ty, m: M) -> Rep {
        let r = Rep {
            name,
            ty,
            s: (ty.schema)(),
            doc: (ty.new)(&m),
            m,
        };
        r.check("when created");
        r
    }
    pub fn is_erased(&self) -> bool {
        matches!(self.s.k, SK::Any)
    }
    /// What a reader of the document sees, according to the model.
    pub fn view(&self) -> M {
        view(&self.s, &self.m)
    }
    /// Compares everything that can be observed of the document with the model.
    pub fn check(&self, when: &str) {
        let got = self.doc.m();
        if got != self.m {
            violate!(
                "state",
                "{} {when}: the document ({}) is\n  {}\nand should be\n  {}",
                self.name,
                self.ty.name,
                show(&got),
                show(&self.m)
            );
        }
        let want = self.view();
        let seen = conv::read(self.doc.r());
        if seen != want {
            violate!(
                "read",
                "{} {when}: reading the document ({}) gives\n  {}\nand should give\n  {}",
                self.name,
                self.ty.name,
                show(&seen),
                show(&want)
            );
        }
        if draw(4) == 1 {
            let v = conv::norm_value(&self.doc.r().to_value());
            if v != want {
                violate!(
                    "value form",
                    "{} {when}: the value form of {} is\n  {}\nand should be\n  {}",
                    self.name,
                    self.ty.name,
                    show(&v),
                    show(&want)
                );
            }
        }
    }
    pub fn apply(&mut self, path: &[Kx], op: &Op) -> Ret {
        let want = apply(&self.s, &mut self.m, path, op);
        let got = conv::edit(self.doc.rm(), path, op);
        if got != want {
            violate!(
                "result",
                "{}: {} at {} of a {} returned {got:?}, should be {want:?}",
                self.name,
                show_op(op),
                show_path(path),
                self.ty.name
            );
        }
        self.check(&format!("after {} at {}", show_op(op), show_path(path)));
        simrt::state(hash(&self.m));
        want
    }
}

/// Draws a document type; `keep` says which are suitable.
pub fn draw_type(keep: fn(&Ty) -> bool) -> Ty {
    let z: Vec<Ty> = types::zoo().into_iter().filter(keep).collect();
    z[draw(z.len() as u32) as usize]
}
/// Whether values of the type always convert back to it.
pub fn total(t: &Ty) -> bool {
    !t.name.contains("Even")
}

// ---------------------------------------------------------------------------------------------
// edits

#[derive(Clone, Debug, PartialEq)]
pub struct Edit {
    pub path: Vec<Kx>,
    pub op: Op,
}

pub fn show_edit(e: &Edit) -> String {
    format!("{} at {}", show_op(&e.op), show_path(&e.path))
}

/// How well the values of an edit fit what it addresses.
#[derive(Clone, Copy, PartialEq)]
pub enum Fit {
    Exact,
    Near,
}

pub fn gen_value(s: &S, part: Option<&M>, fit: Fit) -> M {
    if let SK::Any = s.k {
        // something like what is there, most of the time
        if let (Some(p), true) = (part, draw(3) > 0) {
            let mut m = p.clone();
            for _ in 0..1 + draw(2) {
                damage(&mut m, 3);
            }
            norm(&mut m);
            return m;
        }
        let mut m = gen_any(2);
        norm(&mut m);
        return m;
    }
    match fit {
        Fit::Exact => {
            let mut m = view(s, &gen(s, 2));
            norm(&mut m);
            m
        }
        Fit::Near => {
            let mut m = match (part, draw(3)) {
                (Some(p), 1) => view(s, p),
                _ => view(s, &gen(s, 2)),
            };
            while chance(2, 3) {
                damage(&mut m, 3);
            }
            norm(&mut m);
            m
        }
    }
}

pub fn gen_op(s: &S, part: &M, fit: Fit) -> Op {
    let key = |t: &S, e: &[(M, M)]| -> M {
        if fit == Fit::Near && draw(4) == 1 {
            return gen_key(&any());
        }
        if !e.is_empty() && draw(2) == 1 {
            return view(t, &e[draw(e.len() as u32) as usize].0);
        }
        view(t, &gen_key(t))
    };
    match part {
        M::List(l) if elem(s).is_some() && draw(3) > 0 => {
            let t = elem(s).unwrap();
            match draw(4) {
                0 | 1 => Op::Push(gen_value(&t, l.last(), fit)),
                2 => Op::Pop,
                _ => Op::Remove(match draw(4) {
                    3 => [l.len(), l.len() + 1, usize::MAX][draw(3) as usize],
                    _ => draw(l.len() as u32 + 1) as usize,
                }),
            }
        }
        M::Map(e) if entry(s).is_some() && draw(3) > 0 => {
            let (kt, vt) = entry(s).unwrap();
            let k = key(&kt, e);
            match draw(3) {
                0 | 1 => Op::Insert(k, gen_value(&vt, e.first().map(|x| &x.1), fit)),
                _ => Op::Delete(k),
            }
        }
        _ => match (fit, draw(8)) {
            (Fit::Near, 6) => [
                Op::Pop,
                Op::Remove(draw(3) as usize),
                Op::Push(gen_any(1)),
                Op::Delete(gen_key(&any())),
            ][draw(4) as usize]
                .clone(),
            _ => Op::Patch(gen_value(s, Some(part), fit)),
        },
    }
}

/// An edit to something that exists in the document.
pub fn gen_edit(s: &S, m: &M, fit: Fit) -> Edit {
    let path = if draw(6) == 5 {
        vec![]
    } else {
        gen_path(s, m, (1, 4))
    };
    let mut c = m.clone();
    let (ps, pm) = at(s, &mut c, &path).expect("generated path");
    let op = gen_op(&ps, pm, fit);
    Edit { path, op }
}

// ---------------------------------------------------------------------------------------------
// messages

pub fn draw_codec() -> Codec {
    CODECS[draw(CODECS.len() as u32) as usize]
}

fn put<T: wire::Thing>(c: Codec, v: &T, w: &mut dyn Write) -> Result<(), String> {
    wire::write(c, v, w)
}

/// Writes an edit as a key path and values, with the library's serialization.
pub fn write_edit(c: Codec, e: &Edit, w: &mut dyn Write) -> Result<(), String> {
    let (tag, vals): (u8, Vec<&M>) = match &e.op {
        Op::Patch(v) => (0, vec![v]),
        Op::Push(v) => (1, vec![v]),
        Op::Pop => (2, vec![]),
        Op::Remove(_) => (3, vec![]),
        Op::Insert(k, v) => (4, vec![k, v]),
        Op::Delete(k) => (5, vec![k]),
    };
    w.write_all(&[tag]).map_err(|e| e.to_string())?;
    put(c, &conv::key_path_plain(&e.path), w)?;
    if let Op::Remove(i) = e.op {
        put(c, &Value::usize(i), w)?;
    }
    for v in vals {
        put(c, &conv::to_value(v), w)?;
    }
    Ok(())
}
pub fn read_edit(c: Codec, r: &mut dyn Read) -> Result<Edit, String> {
    let mut tag = [0];
    r.read_exact(&mut tag).map_err(|e| e.to_string())?;
    let path: mirror_mirror::key_path::KeyPath = wire::read(c, &mut *r)?;
    let path = path.iter().map(conv::from_key).collect();
    let mut val = || -> Result<M, String> {
        let v: Value = wire::read(c, &mut *r)?;
        Ok(conv::norm_value(&v))
    };
    let op = match tag[0] {
        0 => Op::Patch(val()?),
        1 => Op::Push(val()?),
        2 => Op::Pop,
        3 => match val()? {
            M::Sc(T::Usize, i) => Op::Remove(i as usize),
            _ => return Err("not an index".into()),
        },
        4 => Op::Insert(val()?, val()?),
        5 => Op::Delete(val()?),
        _ => return Err("bad tag".into()),
    };
    Ok(Edit { path, op })
}
pub fn encode_edit(c: Codec, e: &Edit) -> Vec<u8> {
    let mut b = vec![];
    if let Err(err) = write_edit(c, e, &mut b) {
        violate!(
            "wire",
            "cannot serialize {} with {c:?}: {err}",
            show_edit(e)
        );
    }
    b
}
pub fn decode_edit(c: Codec, b: &[u8], sent: &Edit) -> Edit {
    let mut r = b;
    match read_edit(c, &mut r) {
        Ok(e) if e == *sent && r.is_empty() => e,
        Ok(e) => violate!(
            "wire",
            "sent {} with {c:?}, received {}",
            show_edit(sent),
            show_edit(&e)
        ),
        Err(err) => violate!(
            "wire",
            "sent {} with {c:?}, reading it fails: {err}",
            show_edit(sent)
        ),
    }
}

// ---------------------------------------------------------------------------------------------
// network

pub struct Packet {
    pub at: u64,
    pub seq: usize,
    pub bytes: Vec<u8>,
}

/// The links from the author to each replica.
pub struct Net {
    pub now: u64,
    pub links: Vec<Vec<Packet>>,
    pub cut: Vec<bool>,
    pub faulty: bool,
}

impl Net {
    pub fn new(n: usize) -> Net {
        Net {
            now: 0,
            links: (0..n).map(|_| vec![]).collect(),
            cut: vec![false; n],
            faulty: true,
        }
    }
    pub fn send(&mut self, to: usize, seq: usize, bytes: &[u8]) {
        let mut copies = 1;
        if self.faulty {
            if self.cut[to] {
                count("fault.partitioned_message");
                return;
            }
            if chance(1, 10) {
                count("fault.message_lost");
                return;
            }
            if chance(1, 8) {
                count("fault.message_duplicated");
                copies = 2;
            }
        }
        for _ in 0..copies {
            let delay = if self.faulty && chance(1, 4) {
                count("fault.message_delayed");
                1_000 + draw(1 << 16) as u64 * 1000
            } else {
                1_000
            };
            let p = Packet {
                at: self.now + delay,
                seq,
                bytes: bytes.to_vec(),
            };
            if self.links[to].last().is_some_and(|l| l.at > p.at) {
                count("fault.message_reordered");
            }
            self.links[to].push(p);
        }
    }
    /// The next packet to arrive anywhere.
    pub fn next(&mut self) -> Option<(usize, Packet)> {
        let mut best: Option<(u64, usize, usize)> = None;
        for (l, q) in self.links.iter().enumerate() {
            for (i, p) in q.iter().enumerate() {
                if best.map_or(true, |b| p.at < b.0) {
                    best = Some((p.at, l, i));
                }
            }
        }
        let (t, l, i) = best?;
        if t > self.now {
            simrt::advance(t - self.now);
            self.now = t;
        }
        Some((l, self.links[l].remove(i)))
    }
    pub fn partition(&mut self) {
        let l = draw(self.cut.len() as u32) as usize;
        self.cut[l] = !self.cut[l];
        if self.cut[l] {
            count("fault.partition");
            ev!("link {l} is cut");
            self.links[l].clear();
        } else {
            count("fault.heal");
            ev!("link {l} is back");
        }
    }
    pub fn heal(&mut self) {
        self.faulty = false;
        self.cut.iter_mut().for_each(|c| *c = false);
    }
}

// ---------------------------------------------------------------------------------------------
// disk

#[derive(Default, Clone)]
struct File {
    durable: Vec<u8>,
    /// unsynced writes, oldest first
    pending: Vec<(usize, Vec<u8>)>,
    truncated: bool,
}
impl File {
    fn now(&self) -> Vec<u8> {
        let mut b = if self.truncated {
            vec![]
        } else {
            self.durable.clone()
        };
        for (o, d) in &self.pending {
            if b.len() < o + d.len() {
                b.resize(o + d.len(), 0);
            }
            b[*o..o + d.len()].copy_from_slice(d);
        }
        b
    }
}

/// A disk whose unsynced writes may be lost or torn when the machine stops.
#[derive(Default)]
pub struct Disk {
    files: BTreeMap<String, File>,
    /// operations until the machine stops
    pub fuse: Option<u32>,
    pub dead: bool,
    pub faulty: bool,
    pub ops: u64,
}

impl Disk {
    fn op(&mut self) -> io::Result<()> {
        if self.dead {
            return Err(io::Error::new(
                io::ErrorKind::Other,
                "the machine has stopped",
            ));
        }
        self.ops += 1;
        if let Some(f) = &mut self.fuse {
            if *f == 0 {
                self.dead = true;
                count("fault.crash_at_disk_operation");
                return Err(io::Error::new(
                    io::ErrorKind::Other,
                    "the machine has stopped",
                ));
            }
            *f -= 1;
        }
        if self.faulty && chance(1, 300) {
            self.dead = true;
            count("fault.disk_error");
            return Err(io::Error::new(io::ErrorKind::Other, "I/O error"));
        }
        Ok(())
    }
    /// Writes, perhaps less than asked.
    pub fn write(&mut self, name: &str, off: usize, b: &[u8]) -> io::Result<usize> {
        let stop = self.op();
        let mut n = b.len();
        if stop.is_err() {
            // part of it may have reached the disk all the same
            n = draw(n as u32 + 1) as usize;
        } else if self.faulty && n > 1 {
            if chance(1, 16) {
                count("fault.write_interrupted");
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            if chance(1, 6) {
                n = 1 + draw(n as u32 - 1) as usize;
                count("fault.short_write");
            }
            if chance(1, 200) {
                count("fault.disk_full");
                self.dead = true;
                return Err(io::Error::new(
                    io::ErrorKind::Other,
                    "no space left on device",
                ));
            }
        }
        self.files
            .entry(name.into())
            .or_default()
            .pending
            .push((off, b[..n].to_vec()));
        stop.map(|_| n)
    }
    pub fn truncate(&mut self, name: &str) -> io::Result<()> {
        self.op()?;
        let f = self.files.entry(name.into()).or_default();
        f.pending.clear();
        f.truncated = true;
        Ok(())
    }
    pub fn sync(&mut self, name: &str) -> io::Result<()> {
        self.op()?;
        let f = self.files.entry(name.into()).or_default();
        f.durable = f.now();
        f.pending.clear();
        f.truncated = false;
        Ok(())
    }
    pub fn contents(&self, name: &str) -> Vec<u8> {
        self.files.get(name).map(|f| f.now()).unwrap_or_default()
    }
    /// The machine stops: what was not synced survives in part.
    pub fn crash(&mut self) {
        for f in self.files.values_mut() {
            let mut kept = vec![];
            for (o, mut d) in std::mem::take(&mut f.pending) {
                match draw(3) {
                    0 => kept.push((o, d)),
                    1 => count("fault.lost_write"),
                    _ => {
                        let n = draw(d.len() as u32 + 1) as usize;
                        if n < d.len() {
                            count("fault.torn_write");
                        }
                        d.truncate(n);
                        kept.push((o, d));
                    }
                }
            }
            if f.truncated && draw(2) == 1 {
                f.truncated = false;
                count("fault.lost_truncate");
            }
            f.pending = kept;
            f.durable = f.now();
            f.pending.clear();
            f.truncated = false;
        }
        self.dead = false;
        self.fuse = None;
    }
}

/// A file of the disk as a stream.
pub struct DiskWriter<'a> {
    pub disk: &'a mut Disk,
    pub name: String,
    pub off: usize,
    pub crc: u64,
}
impl Write for DiskWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.disk.write(&self.name, self.off, b)?;
        self.off += n;
        self.crc = simrt::fnv(self.crc, &b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Reading back, in pieces.
pub struct SliceReader<'a> {
    pub b: &'a [u8],
    pub faulty: bool,
}
impl Read for SliceReader<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        let mut n = o.len().min(self.b.len());
        if self.faulty && n > 1 {
            if chance(1, 16) {
                count("fault.read_interrupted");
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            if chance(1, 6) {
                count("fault.short_read");
                n = 1 + draw(n as u32 - 1) as usize;
            }
        }
        o[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

pub fn r_of(x: &Rep) -> &dyn Reflect {
    x.doc.r()
}
