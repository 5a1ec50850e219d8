//! C05 to C09: streams, descriptions on the wire, damaged bytes, text sinks, visitors.
use crate::conv;
use crate::desc;
use crate::model::*;
use crate::types::{self, Ty};
use crate::wire::{self, Codec, Node, Thing, CODECS};
use crate::world::*;
use crate::Prop;
use mirror_mirror::key_path::{GetPath, Key, KeyPath};
use mirror_mirror::try_visit::{try_visit, TryVisit};
use mirror_mirror::type_info::*;
use mirror_mirror::{Reflect, ScalarOwned, TypeDescriptor, Value};
use simrt::{chance, count, draw, ev, nontrivial, violate};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------------------------------------
// streams

/// A stream to write to: takes pieces, gets interrupted, and fails when it is told to.
struct Tx {
    out: Vec<u8>,
    faulty: bool,
    left: Option<usize>,
    zero: bool,
    failed: bool,
}
impl Tx {
    fn new(faulty: bool, left: Option<usize>) -> Tx {
        Tx {
            out: vec![],
            faulty,
            left,
            zero: draw(3) == 2,
            failed: false,
        }
    }
}
impl Write for Tx {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.faulty && chance(1, 16) {
            count("fault.write_interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        if self.faulty && n > 1 && chance(1, 6) {
            count("fault.short_write");
            n = 1 + draw(n as u32 - 1) as usize;
        }
        if let Some(l) = &mut self.left {
            if *l == 0 {
                self.failed = true;
                if self.zero {
                    count("fault.write_accepts_nothing");
                    return Ok(0);
                }
                count("fault.write_error");
                return Err([
                    io::ErrorKind::BrokenPipe,
                    io::ErrorKind::TimedOut,
                    io::ErrorKind::WouldBlock,
                    io::ErrorKind::Other,
                ][draw(4) as usize]
                    .into());
            }
            n = n.min(*l);
            *l -= n;
        }
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A stream to read from: delivers pieces, gets interrupted, ends or fails when it is told to.
struct Rx<'a> {
    b: &'a [u8],
    pos: usize,
    faulty: bool,
    interrupts: bool,
    error_at_end: bool,
    ended: bool,
}
impl Read for Rx<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        if o.is_empty() {
            return Ok(0);
        }
        if self.faulty && self.interrupts && chance(1, 16) {
            count("fault.read_interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = o.len().min(self.b.len() - self.pos);
        if n == 0 {
            self.ended = true;
            if self.error_at_end {
                count("fault.read_error");
                return Err(io::ErrorKind::ConnectionReset.into());
            }
            count("fault.early_end");
            return Ok(0);
        }
        if self.faulty && n > 1 && chance(1, 6) {
            count("fault.short_read");
            n = 1 + draw(n as u32 - 1) as usize;
        }
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// One of the things that travel.
#[derive(Clone, Debug)]
enum Any {
    Value(Value, M),
    Path(KeyPath, Vec<Kx>),
    Key(Key, Kx),
    Scalar(ScalarOwned, M),
}
impl Any {
    fn draw() -> Any {
        match draw(6) {
            0 | 1 => {
                let ty = draw_type(|_| true);
                let s = (ty.schema)();
                let m = gen(&s, 3);
                let doc = (ty.new)(&m);
                Any::Value(doc.r().to_value(), view(&s, &m))
            }
            2 => {
                let m = gen_any(3);
                Any::Value(conv::to_value(&m), m)
            }
            3 => {
                let ty = draw_type(|_| true);
                let s = (ty.schema)();
                let m = gen(&s, 3);
                let mut p = gen_path(&s, &m, (1, 5));
                if draw(4) == 0 {
                    p.push(gen_wild_key());
                }
                Any::Path(conv::key_path(&p), p)
            }
            4 => {
                let k = gen_wild_key();
                Any::Key(conv::key(&k), k)
            }
            _ => {
                let m = if draw(6) == 0 {
                    M::Str(gen_str())
                } else {
                    gen_sc(ALL_T[draw(15) as usize])
                };
                Any::Scalar(conv::to_scalar(&m).unwrap(), m)
            }
        }
    }
    fn write(&self, c: Codec, w: &mut Tx) -> Result<(), String> {
        match self {
            Any::Value(v, _) => put(c, v, w),
            Any::Path(v, _) => put(c, v, w),
            Any::Key(v, _) => put(c, v, w),
            Any::Scalar(v, _) => put(c, v, w),
        }
    }
    fn vec(&self, c: Codec) -> Vec<u8> {
        let r = match self {
            Any::Value(v, _) => wire::to_vec(c, v),
            Any::Path(v, _) => wire::to_vec(c, v),
            Any::Key(v, _) => wire::to_vec(c, v),
            Any::Scalar(v, _) => wire::to_vec(c, v),
        };
        r.unwrap_or_else(|e| violate!("wire", "{} cannot be written with {c:?}: {e}", self.show()))
    }
    /// Reads a thing of this kind from a stream and says how it differs, if it does.
    fn read(&self, c: Codec, r: &mut Rx<'_>) -> Result<Option<String>, String> {
        fn get<T: Thing>(c: Codec, r: &mut Rx<'_>) -> Result<T, String> {
            wire::read(c, r)
        }
        Ok(match self {
            Any::Value(v, m) => diff_value(v, m, &get(c, r)?),
            Any::Path(v, m) => diff_path(v, m, &get(c, r)?),
            Any::Key(v, m) => diff_key(v, m, &get(c, r)?),
            Any::Scalar(_, m) => diff_scalar(m, &get(c, r)?),
        })
    }
    fn read_buf(&self, c: Codec, b: &[u8]) -> Result<(Option<String>, usize), String> {
        Ok(match self {
            Any::Value(v, m) => {
                let (x, n) = wire::from_buf(c, b)?;
                (diff_value(v, m, &x), n)
            }
            Any::Path(v, m) => {
                let (x, n) = wire::from_buf(c, b)?;
                (diff_path(v, m, &x), n)
            }
            Any::Key(v, m) => {
                let (x, n) = wire::from_buf(c, b)?;
                (diff_key(v, m, &x), n)
            }
            Any::Scalar(_, m) => {
                let (x, n) = wire::from_buf(c, b)?;
                (diff_scalar(m, &x), n)
            }
        })
    }
    fn read_buffered(&self, c: Codec, r: &mut Rx<'_>) -> Result<Option<String>, String> {
        let e = if c == Codec::SpeedyBe {
            speedy::Endianness::BigEndian
        } else {
            speedy::Endianness::LittleEndian
        };
        Ok(match self {
            Any::Value(v, m) => diff_value(v, m, &Value::speedy_stream(e, r, true)?),
            Any::Path(v, m) => diff_path(v, m, &KeyPath::speedy_stream(e, r, true)?),
            Any::Key(v, m) => diff_key(v, m, &Key::speedy_stream(e, r, true)?),
            Any::Scalar(_, m) => diff_scalar(m, &ScalarOwned::speedy_stream(e, r, true)?),
        })
    }
    fn show(&self) -> String {
        match self {
            Any::Value(_, m) | Any::Scalar(_, m) => show(m),
            Any::Path(_, p) => format!("path {}", show_path(p)),
            Any::Key(_, k) => format!("key {}", show_path(std::slice::from_ref(k))),
        }
    }
}

/// Through the library's serialization or, for our own format, with fields in any order.
fn put<T: Thing>(c: Codec, v: &T, w: &mut Tx) -> Result<(), String> {
    if c != Codec::Tree || draw(2) == 0 {
        return wire::write(c, v, w);
    }
    count("reach.fields_shuffled");
    let mut n = wire::to_tree(v)?;
    n.shuffle(&mut |k| draw(k));
    let mut b = vec![];
    n.put(&mut b);
    w.write_all(&(b.len() as u32).to_le_bytes())
        .map_err(|e| e.to_string())?;
    w.write_all(&b).map_err(|e| e.to_string())
}

fn diff_value(v: &Value, m: &M, got: &Value) -> Option<String> {
    let g = conv::norm_value(got);
    if g != *m {
        return Some(show(&g));
    }
    (got != v || v != got).then(|| "something that compares different".into())
}
fn diff_path(v: &KeyPath, p: &[Kx], got: &KeyPath) -> Option<String> {
    let g: Vec<Kx> = got.iter().map(conv::from_key).collect();
    if g != *p {
        return Some(show_path(&g));
    }
    (got != v || got.len() != p.len()).then(|| "something that compares different".into())
}
fn diff_key(v: &Key, k: &Kx, got: &Key) -> Option<String> {
    let g = conv::from_key(got);
    if g != *k {
        return Some(show_path(&[g]));
    }
    (got != v).then(|| "something that compares different".into())
}
fn diff_scalar(m: &M, got: &ScalarOwned) -> Option<String> {
    let g = conv::sc_owned(got);
    (g != *m).then(|| show(&g))
}

fn c05() {
    let c = draw_codec();
    let n = 1 + draw(6) as usize;
    let things: Vec<Any> = (0..n).map(|_| Any::draw()).collect();
    let mut ends = vec![];
    let mut all = vec![];
    for t in &things {
        ev!("{c:?}: {}", t.show());
        all.extend(t.vec(c));
        ends.push(all.len());
    }
    // the writer, connection by connection, each of which may break
    let tries = draw(3);
    let mut stream = vec![];
    for k in 0..=tries {
        let fail = (k < tries).then(|| draw(all.len() as u32) as usize);
        let mut w = Tx::new(true, fail);
        let mut broke = false;
        for (i, t) in things.iter().enumerate() {
            let r = t.write(c, &mut w);
            match (&r, w.failed) {
                (Ok(()), false) | (Err(_), true) => {}
                (Ok(()), true) => violate!(
                    "write",
                    "writing {} to a failed stream is reported as success",
                    t.show()
                ),
                (Err(e), false) => violate!(
                    "write",
                    "writing {} to a stream that takes it fails: {e}",
                    t.show()
                ),
            }
            if r.is_err() {
                broke = true;
                ev!(
                    "the connection breaks after {} bytes, in message {i}",
                    w.out.len()
                );
                break;
            }
            if c != Codec::Tree && w.out != all[..ends[i]] {
                violate!(
                    "write",
                    "the stream got other bytes for {} than a buffer gets",
                    t.show()
                );
            }
        }
        if broke && c != Codec::Tree && w.out != all[..w.out.len()] {
            violate!("write", "the stream got other bytes than a buffer gets");
        }
        if broke {
            // what arrived is read as far as it goes
            let whole = if c == Codec::Tree {
                complete(&w.out)
            } else {
                ends.iter().filter(|e| **e <= w.out.len()).count()
            };
            receive(c, &things, &w.out, whole);
        } else {
            stream = w.out;
        }
    }
    nontrivial();
    let mut lens = vec![];
    if c == Codec::Tree {
        let mut p = 0;
        while p < stream.len() {
            p += 4 + u32::from_le_bytes(stream[p..p + 4].try_into().unwrap()) as usize;
            lens.push(p);
        }
    } else {
        lens = ends.clone();
    }
    receive(c, &things, &stream, n);
    // the stream ends early
    let cut = draw(stream.len() as u32) as usize;
    receive(
        c,
        &things,
        &stream[..cut],
        lens.iter().filter(|e| **e <= cut).count(),
    );
    // no proper prefix of an encoding reads as a value, from a buffer either
    let i = draw(n as u32) as usize;
    let start = if i == 0 { 0 } else { lens[i - 1] };
    let enc = &stream[start..lens[i]];
    match things[i].read_buf(c, enc) {
        Ok((None, k)) if k == enc.len() => {}
        Ok((Some(d), _)) => violate!(
            "read",
            "{} is read back from a buffer as {d}",
            things[i].show()
        ),
        Ok((None, k)) => violate!(
            "read",
            "{} takes {k} of {} bytes",
            things[i].show(),
            enc.len()
        ),
        Err(e) => violate!(
            "read",
            "{} is not read back from a buffer: {e}",
            things[i].show()
        ),
    }
    let tries: Vec<usize> = if enc.len() <= 48 {
        (0..enc.len()).collect()
    } else {
        (0..16).map(|_| draw(enc.len() as u32) as usize).collect()
    };
    for k in tries {
        count("fault.truncated");
        if things[i].read_buf(c, &enc[..k]).is_ok() {
            violate!(
                "read",
                "{k} of {} bytes of {} read as something",
                enc.len(),
                things[i].show()
            );
        }
    }
    if matches!(c, Codec::SpeedyLe | Codec::SpeedyBe) {
        let mut r = Rx {
            b: enc,
            pos: 0,
            faulty: true,
            interrupts: false,
            error_at_end: false,
            ended: false,
        };
        match things[i].read_buffered(c, &mut r) {
            Ok(None) => {}
            Ok(Some(d)) => violate!(
                "read",
                "{} is read back through a buffering reader as {d}",
                things[i].show()
            ),
            Err(e) => violate!(
                "read",
                "{} is not read back through a buffering reader: {e}",
                things[i].show()
            ),
        }
    }
}
fn complete(b: &[u8]) -> usize {
    let mut p = 0;
    let mut n = 0;
    while p + 4 <= b.len() {
        p += 4 + u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        if p > b.len() {
            break;
        }
        n += 1;
    }
    n
}
fn receive(c: Codec, things: &[Any], b: &[u8], whole: usize) {
    let mut r = Rx {
        b,
        pos: 0,
        faulty: true,
        interrupts: true,
        error_at_end: draw(2) == 1,
        ended: false,
    };
    for (i, t) in things.iter().enumerate() {
        match t.read(c, &mut r) {
            Ok(None) if i < whole => {}
            Ok(Some(d)) if i < whole => violate!("read", "{} is read back as {d}", t.show()),
            Ok(_) => violate!(
                "read",
                "{} is read from a stream that ended before its end",
                t.show()
            ),
            Err(e) if i < whole => violate!("read", "{} is not read back: {e}", t.show()),
            Err(_) => {
                count("reach.reader_told_of_failure");
                return;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C06: descriptions on the wire

fn all_types() -> Vec<Ty> {
    let mut z = types::zoo();
    z.extend(types::recursive());
    z.push(types::ty::<types::Crowd>());
    z
}

fn fnv_hash<T: Hash>(v: &T) -> u64 {
    struct H(u64);
    impl Hasher for H {
        fn write(&mut self, b: &[u8]) {
            self.0 = simrt::mix(simrt::fnv(self.0, b), b.len() as u64);
        }
        fn finish(&self) -> u64 {
            self.0
        }
    }
    let mut h = H(simrt::FNV0);
    v.hash(&mut h);
    h.finish()
}

fn c06() {
    let z = all_types();
    let ty = z[draw(z.len() as u32) as usize];
    let s = (ty.schema)();
    let d = (ty.descriptor)();
    let want = desc::answers(&d);
    ev!("the description of {}", ty.name);
    let hops = 1 + draw(3);
    let mut cur: TypeDescriptor = (*d).clone();
    for hop in 0..hops {
        let c = draw_codec();
        let full = match wire::to_vec(c, &cur) {
            Ok(b) => b,
            Err(e) => violate!(
                "wire",
                "the description of {} cannot be written with {c:?}: {e}",
                ty.name
            ),
        };
        // retried until it has arrived
        let tries = draw(3);
        for k in 0..=tries {
            let fail = (k < tries).then(|| draw(full.len() as u32) as usize);
            let mut w = Tx::new(true, fail);
            let r = put(c, &cur, &mut w);
            if r.is_ok() == w.failed {
                violate!(
                    "write",
                    "writing to a stream that {} is reported as {r:?}",
                    if w.failed { "failed" } else { "works" }
                );
            }
            ev!("hop {hop}, {c:?}: {} of {} bytes", w.out.len(), full.len());
            let mut b = w.out;
            if r.is_ok() && draw(3) == 0 {
                // lost on the way after it was sent
                b.truncate(draw(b.len() as u32) as usize);
            }
            let whole = r.is_ok() && b.len() == full.len();
            let rx = Rx {
                b: &b,
                pos: 0,
                faulty: true,
                interrupts: true,
                error_at_end: draw(2) == 1,
                ended: false,
            };
            match wire::read::<TypeDescriptor, _>(c, rx) {
                Ok(x) if whole => cur = x,
                Ok(_) => violate!(
                    "read",
                    "a description is read from {} of {} bytes",
                    b.len(),
                    full.len()
                ),
                Err(e) if whole => violate!(
                    "read",
                    "the description of {} is not read back: {e}",
                    ty.name
                ),
                Err(_) => {
                    count("reach.reader_told_of_failure");
                    if k == tries {
                        // once more, healthy
                        match wire::from_buf::<TypeDescriptor>(c, &full) {
                            Ok((x, n)) if n == full.len() => cur = x,
                            Ok((_, n)) => {
                                violate!("read", "a description takes {n} of {} bytes", full.len())
                            }
                            Err(e) => violate!(
                                "read",
                                "the description of {} is not read back from a buffer: {e}",
                                ty.name
                            ),
                        }
                    }
                }
            }
        }
        if cur != *d || *d != cur {
            violate!(
                "equality",
                "the received description of {} is not equal to the original",
                ty.name
            );
        }
        if fnv_hash(&cur) != fnv_hash(&*d) {
            violate!(
                "equality",
                "the received description of {} hashes differently",
                ty.name
            );
        }
        nontrivial();
    }
    let got = desc::answers(&cur);
    if got != want {
        let (a, b) = want
            .lines()
            .zip(got.lines())
            .find(|(a, b)| a != b)
            .unwrap_or(("", ""));
        violate!(
            "answers",
            "the received description of {} answers\n  {b}\nand the original\n  {a}",
            ty.name
        );
    }
    desc::check_all(&cur, &s);
    // lookups by path
    for _ in 0..4 {
        let mut m = gen(&s, 3);
        let mut p = gen_path(&s, &m, (1, 4));
        if draw(3) == 0 {
            let k = draw(p.len() as u32 + 1) as usize;
            p.insert(k, gen_wild_key());
        } else if let Some((sub, _)) = at(&s, &mut m, &p) {
            // the type at the path, with a description of its own
            let direct = draw(2) == 1;
            if let (Some(x), Some(y)) = (desc::part(&d, &p, direct), desc::part(&cur, &p, !direct))
            {
                desc::check_all(&y, &sub);
                if desc::answers(&x) != desc::answers(&y) {
                    violate!(
                        "answers",
                        "the descriptions of the type at {} in {} differ",
                        show_path(&p),
                        ty.name
                    );
                }
                count("reach.description_of_a_part");
            }
        }
        let k = draw(p.len() as u32 + 1) as usize;
        if let Some(b) = desc::at_text_split(&cur, &p, k) {
            let a = desc::at_text(&d, &p);
            if a != b {
                violate!(
                    "answers",
                    "at {} in two steps {} has\n  {b}\nand not\n  {a}",
                    show_path(&p),
                    ty.name
                );
            }
        }
        let (a, b) = (desc::at_text(&d, &p), desc::at_text(&cur, &p));
        if a != b {
            violate!(
                "answers",
                "at {} the received description of {} has\n  {b}\nand the original\n  {a}",
                show_path(&p),
                ty.name
            );
        }
    }
    // two descriptions are equal only if they are of the same type
    let other = z[draw(z.len() as u32) as usize];
    let o = (other.descriptor)();
    if (*o == cur) != (desc::answers(&o) == got) {
        violate!(
            "equality",
            "the descriptions of {} and {} compare {}",
            ty.name,
            other.name,
            *o == cur
        );
    }
}

// ---------------------------------------------------------------------------------------------
// C07: damaged bytes

fn damage_bytes(b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..1 + draw(3) {
        let n = b.len() as u32;
        if n == 0 {
            break;
        }
        let at = draw(n) as usize;
        let len = 1 + draw(12.min(n - at as u32)) as usize;
        let len = len.min(b.len() - at);
        match draw(9) {
            0 => {
                count("fault.bit_flipped");
                b[at] ^= 1 << draw(8)
            }
            1 => {
                count("fault.byte_changed");
                b[at] = [0, 1, 0x7f, 0x80, 0xff, 2, 3, 0x20][draw(8) as usize]
            }
            2 => {
                count("fault.bytes_lost");
                b.drain(at..at + len);
            }
            3 => {
                count("fault.bytes_duplicated");
                let d: Vec<u8> = b[at..at + len].to_vec();
                let k = 1 + draw(8) as usize;
                b.splice(at..at, d.iter().copied().cycle().take(len * k));
            }
            4 => {
                count("fault.truncated");
                b.truncate(at)
            }
            5 => {
                count("fault.spliced");
                let k = draw(other.len() as u32 + 1) as usize;
                b.truncate(at);
                b.extend(&other[k.min(other.len())..]);
            }
            6 => {
                count("fault.bytes_zeroed");
                b[at..at + len].fill(0)
            }
            7 => {
                count("fault.length_field_changed");
                let w = [4usize, 8][draw(2) as usize].min(b.len() - at);
                let v = [u64::MAX, 1 << 31, 1 << 24, 0x7fff_ffff_ffff_ffff, 256][draw(5) as usize]
                    .to_le_bytes();
                b[at..at + w].copy_from_slice(&v[..w]);
            }
            _ => {
                count("fault.bytes_swapped");
                let to = draw(n) as usize;
                b.swap(at, to);
            }
        }
    }
}

/// Decodes within a memory limit that is in proportion to the input.
fn decode_limited<T: Thing>(c: Codec, b: &[u8]) -> Option<T> {
    // serde reserves up to 1 MiB for each announced length
    let limit = (16 << 20) + 4096 * b.len();
    let (r, peak) = simrt::with_memory_limit(limit, || wire::from_buf::<T>(c, b));
    if peak > limit {
        violate!(
            "memory",
            "decoding {} bytes ({c:?}) takes {peak} bytes of memory",
            b.len()
        );
    }
    match r {
        Ok((v, n)) => {
            if n > b.len() {
                violate!("read", "decoding took {n} of {} bytes", b.len());
            }
            count("reach.damaged_bytes_decoded");
            Some(v)
        }
        Err(_) => {
            count("reach.damaged_bytes_rejected");
            None
        }
    }
}

/// What can be seen of a thing, without insisting that all ways to look at it agree.
fn soft(r: &dyn Reflect) -> M {
    use mirror_mirror::enum_::VariantKind;
    use mirror_mirror::ReflectRef as R;
    match r.reflect_ref() {
        R::Scalar(_) | R::Opaque(_) => conv::raw(r),
        R::Struct(s) => M::Struct(s.fields().map(|(n, v)| (n.to_string(), soft(v))).collect()),
        R::TupleStruct(s) => M::TStruct(s.fields().map(soft).collect()),
        R::Tuple(s) => M::Tuple(s.fields().map(soft).collect()),
        R::List(s) => M::List(s.iter().map(soft).collect()),
        R::Array(s) => M::List(s.iter().map(soft).collect()),
        R::Map(s) => M::Map(s.iter().map(|(k, v)| (soft(k), soft(v))).collect()),
        R::Enum(e) => {
            use mirror_mirror::enum_::VariantField as F;
            let k = match e.variant_kind() {
                VariantKind::Unit => K::Unit,
                VariantKind::Tuple => K::Tuple(
                    e.fields()
                        .map(|f| match f {
                            F::Tuple(x) | F::Struct(_, x) => soft(x),
                        })
                        .collect(),
                ),
                VariantKind::Struct => K::Struct(
                    e.fields()
                        .map(|f| match f {
                            F::Struct(n, x) => (n.to_string(), soft(x)),
                            F::Tuple(x) => (String::new(), soft(x)),
                        })
                        .collect(),
                ),
            };
            M::Enum(e.variant_name().to_string(), k)
        }
    }
}

/// Uses a value that came from damaged bytes in every way.
fn use_value(v: &Value, c: Codec) {
    let text = format!("{v:?} {v:#?} {:?} {:#?}", v.as_reflect(), v.as_reflect());
    let m = soft(v);
    ev!("decoded {}", show(&m));
    // look around
    fn look(r: &dyn Reflect, n: &mut u32) {
        *n += 1;
        if *n > 300 {
            return;
        }
        soft(r);
        let _ = (r.type_name(), r.type_descriptor().type_name().len());
        use mirror_mirror::ReflectRef as R;
        match r.reflect_ref() {
            R::Struct(s) => {
                for (k, x) in s.fields() {
                    s.field(k);
                    look(x, n);
                }
                for i in 0..s.fields_len().min(50) {
                    s.field_at(i);
                    s.name_at(i);
                }
            }
            R::TupleStruct(s) => s.fields().for_each(|x| look(x, n)),
            R::Tuple(s) => s.fields().for_each(|x| look(x, n)),
            R::Enum(e) => {
                let _ = (e.variant_kind(), e.variants_len(), e.fields_len());
                for f in e.fields() {
                    match f {
                        mirror_mirror::enum_::VariantField::Struct(k, x) => {
                            e.field(k);
                            look(x, n)
                        }
                        mirror_mirror::enum_::VariantField::Tuple(x) => look(x, n),
                    }
                }
                for i in 0..e.fields_len().min(50) {
                    e.field_at(i);
                    e.name_at(i);
                }
            }
            R::List(l) => l.iter().for_each(|x| look(x, n)),
            R::Array(l) => l.iter().for_each(|x| look(x, n)),
            R::Map(m) => m.iter().for_each(|(k, x)| {
                m.get(k);
                look(k, n);
                look(x, n);
            }),
            R::Scalar(s) => {
                let _ = format!("{s:?}");
            }
            R::Opaque(_) => {}
        }
    }
    look(v, &mut 0);
    // compare
    let w = v.clone();
    let _ = (
        *v == w,
        v.cmp(&w),
        fnv_hash(v),
        mirror_mirror::reflect_eq(v, &w),
    );
    if *v != w || v.cmp(&w) != std::cmp::Ordering::Equal {
        violate!(
            "equality",
            "a decoded value differs from its clone: {}",
            show(&m)
        );
    }
    // by path
    for _ in 0..4 {
        let p = gen_path(&any(), &m, (1, 4));
        let kp = conv::key_path(&p);
        let _ = v.at(&kp).map(soft);
        let mut w = v.clone();
        if let Some(x) = w.at_mut(&kp) {
            x.patch(&Value::from(1i32));
        }
    }
    // as an edit
    let ty = draw_type(|t| !t.name.contains("value::Value"));
    let s = (ty.schema)();
    let dm = gen(&s, 3);
    let mut doc = (ty.new)(&dm);
    let p = gen_path(&s, &dm, (1, 3));
    if let Some(x) = doc.rm().at_mut(&conv::key_path(&p)) {
        x.patch(v);
    }
    doc.rm().patch(v);
    soft(doc.r());
    let mut er = view(&s, &dm);
    norm(&mut er);
    let mut e = conv::to_value(&er);
    e.patch(v);
    let mut w = v.clone();
    w.patch(doc.r());
    w.patch(&e);
    soft(&w);
    let _ = (ty.from_reflect)(v);
    // and on
    if format!("{v:?} {v:#?} {:?} {:#?}", v.as_reflect(), v.as_reflect()) != text {
        violate!(
            "inspection",
            "using a decoded value changed it: {}",
            show(&m)
        );
    }
    again(v, c);
}
fn again<T: Thing + PartialEq>(v: &T, c: Codec) {
    let d = CODECS[draw(5) as usize];
    for c in [c, d] {
        let b = match wire::to_vec(c, v) {
            Ok(b) => b,
            Err(e) => violate!(
                "wire",
                "a decoded thing cannot be encoded again with {c:?}: {e}"
            ),
        };
        match wire::from_buf::<T>(c, &b) {
            Ok((w, n)) => {
                if w != *v || n != b.len() {
                    violate!("wire", "a decoded thing, encoded and decoded again with {c:?}, is different: {v:?}, {w:?}");
                }
            }
            Err(e) => violate!(
                "wire",
                "a decoded thing, encoded again, is not decoded ({c:?}): {e}: {v:?}"
            ),
        }
    }
}

fn c07() {
    let c = draw_codec();
    let a = Any::draw();
    let other = match draw(3) {
        0 => Any::draw().vec(c),
        1 => {
            let z = types::zoo();
            let t = z[draw(z.len() as u32) as usize];
            wire::to_vec(c, &*(t.descriptor)()).unwrap()
        }
        _ => (0..draw(40)).map(|_| draw(256) as u8).collect(),
    };
    if draw(5) == 4 {
        // a description
        let z = all_types();
        let t = z[draw(z.len() as u32) as usize];
        let mut b = wire::to_vec(c, &*(t.descriptor)()).unwrap();
        damage_bytes(&mut b, &other);
        ev!("{c:?}: the description of {}, damaged", t.name);
        if let Some(d) = decode_limited::<TypeDescriptor>(c, &b) {
            let _ = (format!("{d:?}"), fnv_hash(&d), d.clone() == d);
            again(&d, c);
            nontrivial();
        }
        return;
    }
    let mut b = a.vec(c);
    if c == Codec::Tree && draw(2) == 0 {
        // damage that a checksum of our own format would not see: the tree itself
        let mut n = match &a {
            Any::Value(v, _) => wire::to_tree(v),
            Any::Path(v, _) => wire::to_tree(v),
            Any::Key(v, _) => wire::to_tree(v),
            Any::Scalar(v, _) => wire::to_tree(v),
        }
        .unwrap();
        damage_tree(&mut n);
        let mut x = vec![];
        n.put(&mut x);
        b = (x.len() as u32).to_le_bytes().to_vec();
        b.extend(x);
    } else {
        damage_bytes(&mut b, &other);
    }
    ev!("{c:?}: {} damaged to {} bytes", a.show(), b.len());
    // also read as something that it never was
    match if draw(6) == 0 { draw(4) } else { 9 } {
        0 => drop(decode_limited::<TypeDescriptor>(c, &b)),
        1 => drop(decode_limited::<KeyPath>(c, &b)),
        2 => drop(decode_limited::<ScalarOwned>(c, &b)),
        3 => {
            if let Some(v) = decode_limited::<Value>(c, &b) {
                use_value(&v, c);
            }
        }
        _ => {}
    }
    match &a {
        Any::Value(..) => {
            if let Some(v) = decode_limited::<Value>(c, &b) {
                use_value(&v, c);
                nontrivial();
            }
        }
        Any::Path(..) => {
            if let Some(p) = decode_limited::<KeyPath>(c, &b) {
                let _ = (
                    format!("{p} {p:?} {p:#?}"),
                    p.len(),
                    p.is_empty(),
                    fnv_hash(&p),
                    p.clone() == p,
                );
                for k in p.iter().take(50) {
                    let _ = format!("{k}");
                }
                let ty = draw_type(|_| true);
                let s = (ty.schema)();
                let dm = gen(&s, 3);
                let mut doc = (ty.new)(&dm);
                let _ = doc.r().at(&p).map(soft);
                if let Some(x) = doc.rm().at_mut(&p) {
                    soft(x);
                }
                if ty.name != "mirror_mirror::value::Value" {
                    use mirror_mirror::key_path::GetTypePath;
                    let d = (ty.descriptor)();
                    let _ = d.type_at(&p).map(|t| t.type_name().len());
                }
                again(&p, c);
                nontrivial();
            }
        }
        Any::Key(..) => {
            if let Some(k) = decode_limited::<Key>(c, &b) {
                let _ = (format!("{k} {k:?}"), fnv_hash(&k), k.clone() == k);
                again(&k, c);
                nontrivial();
            }
        }
        Any::Scalar(..) => {
            if let Some(s) = decode_limited::<ScalarOwned>(c, &b) {
                let m = conv::sc_owned(&s);
                let _ = format!("{s:?}");
                let e = wire::to_vec(c, &s)
                    .unwrap_or_else(|e| violate!("wire", "{s:?} cannot be encoded again: {e}"));
                match wire::from_buf::<ScalarOwned>(c, &e) {
                    Ok((t, _)) if conv::sc_owned(&t) == m => {}
                    x => violate!("wire", "{s:?}, encoded and decoded again, gives {x:?}"),
                }
                nontrivial();
            }
        }
    }
}
/// Damage within the structure: parts swapped, lost, doubled, of another kind.
fn damage_tree(n: &mut Node) {
    fn go(n: &mut Node, p: &mut u32) {
        if *p == 0 {
            return;
        }
        *p -= 1;
        if *p == 0 {
            n.damage(&mut |k| draw(k));
            count("fault.structure_damaged");
            return;
        }
        n.each(&mut |c| go(c, p));
    }
    for _ in 0..1 + draw(2) {
        let mut p = 1 + draw(n.size().min(200) as u32);
        go(n, &mut p);
    }
}

// ---------------------------------------------------------------------------------------------
// C08: text sinks

struct Sink {
    got: String,
    /// bytes it takes before it fails
    left: Option<usize>,
    panics: bool,
    failed: bool,
    after: u32,
}
struct SinkPanic;
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        if let Some(l) = &mut self.left {
            if s.len() > *l {
                self.failed = true;
                if self.panics {
                    count("fault.sink_panicked");
                    std::panic::panic_any(SinkPanic);
                }
                count("fault.sink_failed");
                return Err(fmt::Error);
            }
            *l -= s.len();
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn c08() {
    let mut docs: Vec<Rep> = vec![];
    let ty = draw_type(|_| true);
    let s = (ty.schema)();
    let m = gen(&s, 3);
    let p = gen_path(&s, &m, (1, 4));
    let d = (ty.descriptor)();
    docs.push(Rep::new("typed".into(), ty, m.clone()));
    docs.push(Rep::new("dyn".into(), types::erased(), view(&s, &m)));
    ev!("{}: {}", ty.name, show(&m));
    let kp = conv::key_path(&p);
    let value = docs[0].doc.r().to_value();
    let simple = SimpleTypeName::new(d.type_name());
    let key = conv::key(&gen_wild_key());
    let z = all_types();
    let d2 = (z[draw(z.len() as u32) as usize].descriptor)();
    let d3 = (z[draw(z.len() as u32) as usize].descriptor)();
    // what is printed, and how
    let print = |w: &mut Sink, what: u32, alt: bool| -> fmt::Result {
        use fmt::Write;
        match (what, alt) {
            (0, false) => write!(w, "{kp}"),
            (0, true) => write!(w, "{kp:#?}"),
            (1, false) => write!(w, "{:?}", docs[0].doc.r()),
            (1, true) => write!(w, "{:#?}", docs[0].doc.r()),
            (2, false) => write!(w, "{:?}", docs[1].doc.r()),
            (2, true) => write!(w, "{:#?}", docs[1].doc.r()),
            (3, _) => write!(w, "{}", d.pretty_print_root()),
            (4, false) => write!(w, "{value:?}"),
            (4, true) => write!(w, "{value:#?}"),
            (5, _) => match &simple {
                Some(n) => write!(w, "{n}"),
                None => Ok(()),
            },
            (6, false) => write!(w, "{key}"),
            (6, true) => write!(w, "{key:#?}"),
            (7, false) => write!(w, "{}", d2.get_type().pretty_print_root()),
            (7, true) => write!(w, "{}", d3.pretty_print_root()),
            (_, false) => write!(w, "{kp:?}"),
            (_, true) => write!(w, "{:?}", *d2),
        }
    };
    let name_of = |what: u32| {
        [
            "key path",
            "document",
            "dynamic document",
            "description",
            "value",
            "type name",
            "key",
            "description",
            "key path or description",
        ][what as usize]
    };
    let healthy = |what: u32, alt: bool| {
        let mut w = Sink {
            got: String::new(),
            left: None,
            panics: false,
            failed: false,
            after: 0,
        };
        match catch_unwind(AssertUnwindSafe(|| print(&mut w, what, alt))) {
            Ok(Ok(())) => w.got,
            Ok(Err(_)) => violate!(
                "print",
                "printing a {} fails on a healthy sink after {:?}",
                name_of(what),
                w.got
            ),
            Err(e) => resume_unwind(e),
        }
    };
    // all that is printed in this run, which no failure of a print may change
    let mut texts: Vec<(u32, bool, String)> = vec![];
    let rounds = 1 + draw(4);
    for _ in 0..rounds + 2 {
        let (what, alt) = (draw(9), draw(3) == 2);
        texts.push((what, alt, healthy(what, alt)));
    }
    for (what, alt, full) in &texts[..rounds as usize] {
        let (what, alt, full) = (*what, *alt, &**full);
        let name = name_of(what);
        if what == 0 && !alt {
            // the text of a path is known
            let want: String = p
                .iter()
                .map(|k| match k {
                    Kx::Name(n) => format!(".{n}"),
                    Kx::Num(i) => format!(".{i}"),
                    Kx::Get(m) => format!("[{:?}]", conv::to_value(m).as_reflect()),
                    Kx::Var(n) => format!("::{n}"),
                })
                .collect();
            if full != want {
                violate!("print", "the path {want} prints as {full}");
            }
        }
        let tries: Vec<usize> = if full.len() < 12 {
            (0..=full.len()).collect()
        } else {
            (0..6)
                .map(|_| draw(full.len() as u32 + 1) as usize)
                .collect()
        };
        for left in tries {
            let mut w = Sink {
                got: String::new(),
                left: Some(left),
                panics: draw(3) == 2,
                failed: false,
                after: 0,
            };
            ev!(
                "print the {name} to a sink that takes {left} of {} bytes",
                full.len()
            );
            let r = catch_unwind(AssertUnwindSafe(|| print(&mut w, what, alt)));
            match (&r, w.failed, w.panics) {
                (Ok(Ok(())), false, _) => {
                    if w.got != full {
                        violate!(
                            "print",
                            "the {name} prints as {:?} and then as {:?}",
                            full,
                            w.got
                        );
                    }
                }
                (Ok(Err(_)), true, false) => {}
                (Err(e), true, true) if e.is::<SinkPanic>() => {}
                (Ok(Ok(())), true, _) => violate!(
                    "print",
                    "the sink failed after {:?} and printing the {name} reports success",
                    w.got
                ),
                (Ok(Err(_)), false, _) => violate!(
                    "print",
                    "the sink did not fail and printing the {name} reports an error after {:?}",
                    w.got
                ),
                (Ok(Err(_)), true, true) => {
                    violate!("print", "the panic of the sink turned into an error")
                }
                (Err(_), _, _) => resume_unwind(r.unwrap_err()),
            }
            if w.after > 0 {
                violate!(
                    "print",
                    "the {name} is printed on after the sink failed ({} more writes)",
                    w.after
                );
            }
            if !full.starts_with(&w.got) {
                violate!(
                    "print",
                    "the sink got {:?} of the {name}, whose text is {full:?}",
                    w.got
                );
            }
            nontrivial();
        }
        for (what, alt, text) in &texts {
            let now = healthy(*what, *alt);
            if now != *text {
                violate!("print", "the {} prints as {now:?} after failed attempts to print the {name}, and before as {text:?}", name_of(*what));
            }
        }
    }
    for r in &docs {
        r.check("after printing");
    }
}

// ---------------------------------------------------------------------------------------------
// C09: visitors

#[derive(Debug, PartialEq)]
struct Stop(u64);

struct V<'a> {
    want: &'a [Leaf],
    at: usize,
    fail: Option<usize>,
    panics: bool,
    code: u64,
    done: bool,
}
impl V<'_> {
    fn got(&mut self, l: Leaf) -> Result<(), Stop> {
        if self.done {
            violate!("visit", "a callback was made after one failed: {l:?}");
        }
        let Some(w) = self.want.get(self.at) else {
            violate!(
                "visit",
                "a callback {l:?} after the last of {} leaves",
                self.want.len()
            )
        };
        if *w != l {
            violate!(
                "visit",
                "callback {} is made with {l:?}, should be {w:?}",
                self.at
            );
        }
        let k = self.at;
        self.at += 1;
        if self.fail == Some(k) {
            self.done = true;
            if self.panics {
                count("fault.visitor_panicked");
                std::panic::panic_any(Stop(self.code));
            }
            count("fault.visitor_failed");
            return Err(Stop(self.code));
        }
        Ok(())
    }
}
macro_rules! visit {
    ($($f:ident $t:ty => $e:expr;)*) => {
        $(fn $f(&mut self, v: $t) -> Result<(), Stop> {
            let to: fn($t) -> M = $e;
            self.got(Leaf::Sc(to(v)))
        })*
    };
}
impl TryVisit for V<'_> {
    type Error = Stop;
    visit! {
        try_visit_usize usize => |v| M::Sc(T::Usize, v as u128);
        try_visit_u8 u8 => |v| M::Sc(T::U8, v as u128);
        try_visit_u16 u16 => |v| M::Sc(T::U16, v as u128);
        try_visit_u32 u32 => |v| M::Sc(T::U32, v as u128);
        try_visit_u64 u64 => |v| M::Sc(T::U64, v as u128);
        try_visit_u128 u128 => |v| M::Sc(T::U128, v);
        try_visit_i8 i8 => |v| int(T::I8, v as i128);
        try_visit_i16 i16 => |v| int(T::I16, v as i128);
        try_visit_i32 i32 => |v| int(T::I32, v as i128);
        try_visit_i64 i64 => |v| int(T::I64, v as i128);
        try_visit_i128 i128 => |v| int(T::I128, v);
        try_visit_bool bool => |v| M::Sc(T::Bool, v as u128);
        try_visit_char char => |v| M::Sc(T::Char, v as u128);
        try_visit_f32 f32 => |v| M::Sc(T::F32, v.to_bits() as u128);
        try_visit_f64 f64 => |v| M::Sc(T::F64, v.to_bits() as u128);
        try_visit_string &String => |v| M::Str(v.clone());
    }
    fn try_visit_opaque(&mut self, v: &dyn Reflect, ty: OpaqueType<'_>) -> Result<(), Stop> {
        if self.done {
            violate!("visit", "a callback was made after one failed");
        }
        conv::read(v);
        self.got(Leaf::Opaque(ty.type_name().to_string()))
    }
}

fn has_arr(s: &S, seen: &mut Vec<std::any::TypeId>) -> bool {
    if seen.contains(&s.id) {
        return false;
    }
    seen.push(s.id);
    let fs = |f: &[F], seen: &mut Vec<std::any::TypeId>| {
        f.iter()
            .any(|f| f.skip.is_none() && has_arr(&(f.ty)(), seen))
    };
    match &s.k {
        SK::Arr(..) => true,
        SK::Struct(f) | SK::TStruct(f) => fs(f, seen),
        SK::Tuple(t) => t.iter().any(|t| has_arr(&t(), seen)),
        SK::Enum(v) => v.iter().any(|v| match &v.k {
            VK::Unit => false,
            VK::Tuple(f) | VK::Struct(f) => fs(f, seen),
        }),
        SK::List(t) => has_arr(&t(), seen),
        SK::Map(k, v) => has_arr(&k(), seen) || has_arr(&v(), seen),
        _ => false,
    }
}

fn c09() {
    let ty = draw_type(|_| true);
    let s = (ty.schema)();
    let m = gen(&s, 4);
    let typed = Rep::new("typed".into(), ty, m.clone());
    // the dynamic form is visited along the concrete type's description
    let dynamic = draw(3) == 2;
    let rep = if dynamic {
        let mut v = view(&s, &m);
        // its fields may have been set in any order
        if draw(2) == 1 {
            crate::ge::reorder(&mut v);
        }
        Rep::new("dyn".into(), types::erased(), v)
    } else {
        typed
    };
    let own = (ty.descriptor)();
    let d: TypeDescriptor = if draw(3) == 0 {
        let c = draw_codec();
        let b = wire::to_vec(c, &*own).unwrap();
        wire::from_buf(c, &b)
            .unwrap_or_else(|e| violate!("wire", "{e}"))
            .0
    } else {
        (*own).clone()
    };
    ev!("{} ({}): {}", ty.name, rep.name, show(&rep.m));
    let mut want = vec![];
    // in the order in which the document holds its maps
    let ordered = if dynamic {
        conv::raw(rep.doc.r())
    } else {
        rep.doc.raw()
    };
    leaves(&s, &ordered, &mut want);
    let before = conv::read(rep.doc.r());
    for _ in 0..1 + draw(4) {
        let n = want.len();
        let fail = if n > 0 && draw(4) > 0 {
            Some(draw(n as u32) as usize)
        } else {
            None
        };
        let mut v = V {
            want: &want,
            at: 0,
            fail,
            panics: draw(3) == 2,
            code: simrt::draw64(),
            done: false,
        };
        ev!("visit {n} leaves, failing at {fail:?}");
        let code = v.code;
        let r = catch_unwind(AssertUnwindSafe(|| {
            try_visit(&mut v, rep.doc.r(), d.get_type())
        }));
        let (seen, panics) = (v.at, v.panics);
        match (r, fail) {
            (Ok(Ok(())), None) => {
                if seen != n {
                    violate!("visit", "{seen} of {n} leaves were visited");
                }
            }
            (Ok(Err(Stop(c))), Some(k)) if !panics => {
                if c != code || seen != k + 1 {
                    violate!("visit", "the visit ended with another error than the callback's, after {seen} callbacks");
                }
            }
            (Err(e), Some(k)) if panics => match e.downcast_ref::<Stop>() {
                Some(Stop(c)) if *c == code && seen == k + 1 => {}
                _ => resume_unwind(e),
            },
            (Ok(r), f) => violate!(
                "visit",
                "the visit ended with {r:?} after {seen} callbacks, where one fails at {f:?}"
            ),
            (Err(e), _) => resume_unwind(e),
        }
        nontrivial();
    }
    if conv::read(rep.doc.r()) != before {
        violate!("visit", "visiting changed the value");
    }
    rep.check("after visiting");
    // a part, along the part's type
    let p = gen_path(&s, &m, (1, 3));
    if dynamic || p.iter().any(|k| matches!(k, Kx::Var(_))) {
        return;
    }
    if let Some((t, None)) = crate::ge::as_type(d.get_type(), &p) {
        let mut c = ordered.clone();
        let Some((ps, pm)) = at(&s, &mut c, &p) else {
            return;
        };
        let mut want = vec![];
        leaves(&ps, pm, &mut want);
        let kp = conv::key_path(&p);
        let Some(part) = rep.doc.r().at(&kp) else {
            violate!("lookup", "nothing at {}", show_path(&p))
        };
        let mut v = V {
            want: &want,
            at: 0,
            fail: None,
            panics: false,
            code: 0,
            done: false,
        };
        if try_visit(&mut v, part, t) != Ok(()) || v.at != want.len() {
            violate!(
                "visit",
                "{} of {} leaves of the part at {} were visited",
                v.at,
                want.len(),
                show_path(&p)
            );
        }
        count("reach.part_visited");
    }
}

const REAL: &[&str] = &[
    "mirror-mirror with its derive macro, serde and speedy impls",
    "speedy and bincode",
];
const STUB: &[&str] = &[
    "streams and text sinks (simulated)",
    "a self-describing serde format (harness)",
];

pub fn props() -> Vec<Prop> {
    let p = |id: &'static str, run: fn(), quick: u64, rule: &'static str| Prop {
        id,
        run,
        prep: None,
        quick,
        thorough: 8_000_000,
        budget: 400_000_000,
        cpu: 20,
        rule,
        real: REAL,
        stub: STUB,
    };
    vec![
        p("C05", c05, 80_000, "1 to 6 values, key paths, keys and scalars on one stream in one of 5 formats, over connections that split, interrupt, break at a drawn byte and end early; every prefix of short encodings; non-trivial: every run"),
        p("C06", c06, 50_000, "the description of one of all document types travels 1 to 3 hops in drawn formats over streams that break and are retried, and answers every question; non-trivial: at least one hop completed"),
        p("C07", c07, 200_000, "an encoding of a value, key path, key, scalar or description in one of 5 formats with 1 to 3 damages; what decodes is used in every way; non-trivial: the damaged bytes decoded"),
        p("C08", c08, 80_000, "up to 4 prints of a document, value, key path, key, type name or description to sinks that fail or panic after a drawn number of bytes, every number for short texts; non-trivial: at least one print to a limited sink"),
        p("C09", c09, 80_000, "up to 4 visits of a document or its dynamic form along the original or a received description, with a visitor that fails or panics at a drawn leaf; non-trivial: at least one visit"),
    ]
}
