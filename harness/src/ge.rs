//! C16, C17: comparing replicas, and editing with nothing but the description.
use crate::conv;
use crate::desc;
use crate::model::*;
use crate::types::{self, Ty};
use crate::wire;
use crate::world::*;
use crate::Prop;
use mirror_mirror::enum_::VariantKind;
use mirror_mirror::key_path::{GetPath, GetTypePath, KeyPath};
use mirror_mirror::type_info::*;
use mirror_mirror::{reflect_eq, DescribeType, Reflect, ReflectRef, Value};
use simrt::{chance, count, draw, ev, nontrivial, violate};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------------------------------------
// C16: comparing

/// What comparing two documents of the same form reports: contents, floats as numbers.
fn req(a: &M, b: &M) -> bool {
    fn named(x: &[(String, M)], y: &[(String, M)]) -> bool {
        x.len() == y.len()
            && x.iter()
                .all(|(n, v)| y.iter().any(|(o, w)| n == o && req(v, w)))
    }
    fn list(x: &[M], y: &[M]) -> bool {
        x.len() == y.len() && x.iter().zip(y).all(|(a, b)| req(a, b))
    }
    match (a, b) {
        (M::Struct(x), M::Struct(y)) => named(x, y),
        (M::TStruct(x), M::TStruct(y)) | (M::Tuple(x), M::Tuple(y)) | (M::List(x), M::List(y)) => {
            list(x, y)
        }
        (M::Enum(n, x), M::Enum(o, y)) => {
            n == o
                && match (x, y) {
                    (K::Unit, K::Unit) => true,
                    (K::Tuple(x), K::Tuple(y)) => list(x, y),
                    (K::Struct(x), K::Struct(y)) => named(x, y),
                    _ => false,
                }
        }
        (M::Map(x), M::Map(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, v)| match map_find(y, k) {
                    Some(i) => req(v, &y[i].1),
                    None => false,
                })
        }
        _ => feq(a, b, false),
    }
}

/// A digest that also sees where one write ends and the next begins.
struct Writes(u64);
impl Hasher for Writes {
    fn write(&mut self, b: &[u8]) {
        self.0 = simrt::mix(simrt::fnv(self.0, b), b.len() as u64);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
struct Bytes(u64);
impl Hasher for Bytes {
    fn write(&mut self, b: &[u8]) {
        self.0 = simrt::fnv(self.0, b);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
fn digests<T: Hash>(v: &T) -> [u64; 3] {
    let mut a = Writes(simrt::FNV0);
    let mut b = Bytes(simrt::FNV0);
    #[allow(deprecated)]
    let mut c = std::hash::SipHasher::new();
    v.hash(&mut a);
    v.hash(&mut b);
    v.hash(&mut c);
    [a.finish(), b.finish(), c.finish()]
}

/// Another spelling of the same contents: the sign of zeros and the bits of NaNs.
fn respell(m: &mut M) {
    match m {
        M::Sc(T::F32, b) => {
            let f = f32::from_bits(*b as u32);
            if f == 0.0 {
                *b ^= 1 << 31;
            } else if f.is_nan() {
                *b = [0x7fc0_0000u128, 0xffc0_0000, 0x7f80_0001, 0x7fff_ffff][draw(4) as usize];
            }
        }
        M::Sc(T::F64, b) => {
            let f = f64::from_bits(*b as u64);
            if f == 0.0 {
                *b ^= 1 << 63;
            } else if f.is_nan() {
                *b = [
                    0x7ff8_0000_0000_0000u128,
                    0xfff8_0000_0000_0000,
                    0x7ff0_0000_0000_0001,
                ][draw(3) as usize];
            }
        }
        M::Sc(..) | M::Str(_) | M::Enum(_, K::Unit) => {}
        M::Struct(f) | M::Enum(_, K::Struct(f)) => f.iter_mut().for_each(|(_, v)| respell(v)),
        M::TStruct(f) | M::Tuple(f) | M::List(f) | M::Enum(_, K::Tuple(f)) => {
            f.iter_mut().for_each(respell)
        }
        M::Map(e) => e.iter_mut().for_each(|(_, v)| respell(v)),
    }
}

/// Names the fields in another order.
pub fn reorder(m: &mut M) {
    match m {
        M::Sc(..) | M::Str(_) | M::Enum(_, K::Unit) => {}
        M::Struct(f) | M::Enum(_, K::Struct(f)) => {
            if f.len() > 1 {
                let n = f.len();
                let (i, j) = (draw(n as u32) as usize, draw(n as u32) as usize);
                f.swap(i, j);
            }
            f.iter_mut().for_each(|(_, v)| reorder(v))
        }
        M::TStruct(f) | M::Tuple(f) | M::List(f) | M::Enum(_, K::Tuple(f)) => {
            f.iter_mut().for_each(reorder)
        }
        M::Map(e) => e.iter_mut().for_each(|(_, v)| reorder(v)),
    }
}

fn compare_docs(a: &Rep, b: &Rep) {
    let want = req(&a.view(), &b.view());
    for (x, y) in [(a, b), (b, a)] {
        let (p, q) = (x.doc.r(), y.doc.r());
        let got = [
            reflect_eq(p, q),
            Some(p == q),
            reflect_eq(&*p.clone_reflect(), q),
        ];
        if got.iter().any(|g| *g != Some(want)) {
            violate!(
                "comparison",
                "comparing {} with {} ({}) gives {got:?}, should be {want}:\n  {}\n  {}",
                x.name,
                y.name,
                x.ty.name,
                show(&x.view()),
                show(&y.view())
            );
        }
    }
    count(if want {
        "reach.equal_documents"
    } else {
        "reach.different_documents"
    });
    nontrivial();
}

/// Equality, order and digests of a pool of values against their contents.
fn compare_values(pool: &[(M, Value)]) {
    for (i, (m, v)) in pool.iter().enumerate() {
        for (j, (n, w)) in pool.iter().enumerate() {
            let want = veq(m, n);
            let o = v.cmp(w);
            if (v == w) != want || (v != w) == want || (o == Ordering::Equal) != want {
                violate!(
                    "equality",
                    "{} and {}: == gives {}, cmp {o:?}, should be {want}",
                    show(m),
                    show(n),
                    v == w
                );
            }
            if w.cmp(v) != o.reverse()
                || v.partial_cmp(w) != Some(o)
                || (v < w) != (o == Ordering::Less)
            {
                violate!(
                    "order",
                    "{} and {} are ordered {o:?} and {:?}",
                    show(m),
                    show(n),
                    w.cmp(v)
                );
            }
            if i == j {
                continue;
            }
            if want {
                count("reach.equal_values");
                if digests(v) != digests(w) {
                    violate!(
                        "digest",
                        "{} and {} are equal and hash differently",
                        show(m),
                        show(n)
                    );
                }
            }
        }
    }
    // transitivity: whatever order they are sorted from, every pair is in order afterwards
    let mut order: Vec<usize> = (0..pool.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, draw(i as u32 + 1) as usize);
    }
    // insertion sort: never panics, whatever the comparison does
    for i in 1..order.len() {
        let mut k = i;
        while k > 0 && pool[order[k]].1.cmp(&pool[order[k - 1]].1) == Ordering::Less {
            order.swap(k, k - 1);
            k -= 1;
        }
    }
    for i in 0..order.len() {
        for j in i + 1..order.len() {
            if pool[order[i]].1.cmp(&pool[order[j]].1) == Ordering::Greater {
                violate!(
                    "order",
                    "sorting leaves {} before {}",
                    show(&pool[order[i]].0),
                    show(&pool[order[j]].0)
                );
            }
        }
    }
    count("reach.pool_sorted");
}

fn c16() {
    let ty = draw_type(|_| true);
    let s = (ty.schema)();
    let m0 = gen(&s, 3);
    let form = if draw(3) == 2 { types::erased() } else { ty };
    let erased = form.name != ty.name || matches!(s.k, SK::Any);
    let base = if erased { view(&s, &m0) } else { m0 };
    ev!(
        "replicas of {} ({}): {}",
        ty.name,
        if erased { "dynamic" } else { "typed" },
        show(&base)
    );
    let n = 2 + draw(3) as usize;
    let mut reps: Vec<Rep> = (0..n)
        .map(|i| Rep::new(format!("r{i}"), form, base.clone()))
        .collect();
    let fs = reps[0].s.clone();
    let codec = draw_codec();
    let mut edits: Vec<(Edit, Vec<u8>)> = vec![];
    let mut applied = vec![0usize; n];
    let mut net = Net::new(n);
    let mut pool: Vec<(M, Value)> = vec![];
    for _ in 0..2 + draw(14) {
        match draw(8) {
            0..=2 => {
                // each edit is made where everything made so far has arrived
                let Some(i) = (0..n).find(|i| applied[*i] == edits.len()) else {
                    continue;
                };
                let e = gen_edit(&fs, &reps[i].m, Fit::Exact);
                let b = encode_edit(codec, &e);
                ev!("edit {}: {}", edits.len(), show_edit(&e));
                reps[i].apply(&e.path, &e.op);
                applied[i] += 1;
                for j in (0..n).filter(|j| *j != i) {
                    net.send(j, edits.len(), &b);
                }
                edits.push((e, b));
            }
            3 | 4 => {
                if let Some((i, p)) = net.next() {
                    if p.seq == applied[i] {
                        let e = decode_edit(codec, &p.bytes, &edits[p.seq].0);
                        ev!("r{i} gets {}", p.seq);
                        reps[i].apply(&e.path, &e.op);
                        applied[i] += 1;
                    }
                }
            }
            5 if erased => {
                // contents that arrived by another way: spelled or ordered differently
                let i = draw(n as u32) as usize;
                let mut m = reps[i].m.clone();
                if draw(2) == 0 {
                    respell(&mut m);
                } else {
                    reorder(&mut m);
                }
                norm(&mut m);
                ev!("r{i} is spelled {}", show(&m));
                let other = Rep::new(format!("r{i}'"), form, m);
                compare_docs(&reps[i], &other);
                pool.push((other.view(), other.doc.r().to_value()));
            }
            5 => {
                let i = draw(n as u32) as usize;
                let mut m = reps[i].m.clone();
                respell(&mut m);
                if from_v(&fs, &view(&fs, &m)).is_some() {
                    let other = Rep {
                        name: format!("r{i}'"),
                        ty: form,
                        s: fs.clone(),
                        doc: (form.new)(&m),
                        m,
                    };
                    if other.doc.m() == other.m {
                        compare_docs(&reps[i], &other);
                    }
                }
            }
            6 => {
                // bit rot: exactly one thing is different
                let i = draw(n as u32) as usize;
                let mut v = reps[i].view();
                if tweak(&mut v) {
                    ev!("r{i} turns into {}", show(&v));
                    pool.push((v.clone(), conv::to_value(&v)));
                    if let Some(m) = from_v(&fs, &v) {
                        let other = Rep::new(format!("r{i}~"), form, m);
                        compare_docs(&reps[i], &other);
                    }
                }
            }
            _ => {
                let (i, j) = (draw(n as u32) as usize, draw(n as u32) as usize);
                ev!("compare r{i} and r{j}");
                compare_docs(&reps[i], &reps[j]);
            }
        }
    }
    for r in &reps {
        pool.push((r.view(), r.doc.r().to_value()));
        // and parts of them, of whatever kinds
        let p = gen_path(&r.s, &r.m, (1, 3));
        if let Some(m) = get(&r.s, &r.m, &p) {
            let Some(part) = r.doc.r().at(&conv::key_path(&p)) else {
                violate!("lookup", "{} finds nothing at {}", r.name, show_path(&p))
            };
            pool.push((m, part.to_value()));
        }
    }
    if draw(2) == 0 {
        for _ in 0..3 {
            let m = gen_any(2);
            pool.push((m.clone(), conv::to_value(&m)));
        }
    }
    let k = draw(pool.len() as u32) as usize;
    let mut m = pool[k].0.clone();
    respell(&mut m);
    norm(&mut m);
    pool.push((m.clone(), conv::to_value(&m)));
    let (m, v) = &pool[k];
    pool.push((m.clone(), v.clone()));
    compare_values(&pool);
    // parts are addressed by paths, which compare by what they say
    let (p, q) = (
        gen_path(&reps[0].s, &reps[0].m, (1, 3)),
        gen_path(&reps[1].s, &reps[1].m, (1, 3)),
    );
    let same = p.len() == q.len()
        && p.iter().zip(&q).all(|(a, b)| match (a, b) {
            (Kx::Get(a), Kx::Get(b)) => veq(a, b),
            (a, b) => a == b,
        });
    let (a, b) = (conv::key_path(&p), conv::key_path(&q));
    if (a == b) != same || (same && digests(&a) != digests(&b)) {
        violate!(
            "equality",
            "the paths {} and {} compare {}",
            show_path(&p),
            show_path(&q),
            a == b
        );
    }
}

// ---------------------------------------------------------------------------------------------
// C17: the remote editor

fn odd(path: &KeyPath, what: &str) -> ! {
    violate!("description", "at {path}: {what}")
}

/// Walks the document along the description.
fn walk(
    root: Type<'_>,
    doc: &dyn Reflect,
    t: Type<'_>,
    r: &dyn Reflect,
    path: &KeyPath,
    n: &mut u32,
) {
    *n += 1;
    if *n > 400 {
        return;
    }
    // the path leads here in both
    let Some(at) = root.type_at(path) else {
        odd(path, "the description has nothing there")
    };
    if at.type_name() != t.type_name() {
        odd(
            path,
            &format!(
                "the description gives {}, and {} step by step",
                at.type_name(),
                t.type_name()
            ),
        );
    }
    match doc.at(path) {
        None => odd(path, "the document has nothing there"),
        Some(v) if conv::read(v) != conv::read(r) => {
            odd(path, "the document has something else there")
        }
        _ => {}
    }
    if let Type::Opaque(_) = t {
        // the description says nothing about what is inside
        if let Some(x) = root.type_at(&path.clone().field("inner")) {
            odd(
                path,
                &format!("a type {} inside an opaque one", x.type_name()),
            );
        }
        return;
    }
    if r.type_descriptor().type_name() != t.type_name() {
        odd(
            path,
            &format!(
                "the value is a {}, the description says {}",
                r.type_descriptor().type_name(),
                t.type_name()
            ),
        );
    }
    let kind = |k: &str| {
        odd(
            path,
            &format!("the value {r:?} is not the {k} that the description says"),
        )
    };
    let lacks = |p: KeyPath| {
        if root.type_at(&p).is_some() {
            odd(&p, "the description has a type for what does not exist");
        }
        if doc.at(&p).is_some() {
            odd(
                &p,
                "the document has a value for what the description lacks",
            );
        }
    };
    match (t, r.reflect_ref()) {
        (Type::Struct(st), ReflectRef::Struct(x)) => {
            if x.fields_len() != st.fields_len() || x.fields().count() != st.fields_len() {
                odd(
                    path,
                    &format!("{} fields, not {}", x.fields_len(), st.fields_len()),
                );
            }
            for (i, f) in st.field_types().enumerate() {
                let (Some(a), Some(b), Some(nm)) = (x.field(f.name()), x.field_at(i), x.name_at(i))
                else {
                    odd(path, &format!("no field {i} {}", f.name()))
                };
                if nm != f.name() || conv::read(a) != conv::read(b) {
                    odd(path, &format!("field {i} is {nm}, not {}", f.name()));
                }
                walk(root, doc, f.get_type(), a, &path.clone().field(f.name()), n);
            }
            lacks(path.clone().field("nope"));
            lacks(path.clone().field(0usize));
            lacks(path.clone().variant("Nope"));
            lacks(path.clone().get(0usize));
        }
        (Type::TupleStruct(st), ReflectRef::TupleStruct(x)) => {
            if x.fields_len() != st.fields_len() || x.fields().count() != st.fields_len() {
                odd(
                    path,
                    &format!("{} fields, not {}", x.fields_len(), st.fields_len()),
                );
            }
            for (i, f) in st.field_types().enumerate() {
                let Some(a) = x.field_at(i) else {
                    odd(path, &format!("no field {i}"))
                };
                walk(root, doc, f.get_type(), a, &path.clone().field(i), n);
            }
            lacks(path.clone().field(st.fields_len()));
            lacks(path.clone().field("nope"));
            lacks(path.clone().get(0usize));
        }
        (Type::Tuple(st), ReflectRef::Tuple(x)) => {
            if x.fields_len() != st.fields_len() || x.fields().count() != st.fields_len() {
                odd(
                    path,
                    &format!("{} fields, not {}", x.fields_len(), st.fields_len()),
                );
            }
            for (i, f) in st.field_types().enumerate() {
                let Some(a) = x.field_at(i) else {
                    odd(path, &format!("no field {i}"))
                };
                walk(root, doc, f.get_type(), a, &path.clone().field(i), n);
            }
            lacks(path.clone().field(st.fields_len()));
            lacks(path.clone().field("nope"));
            lacks(path.clone().get(0usize));
        }
        (Type::Enum(e), ReflectRef::Enum(x)) => {
            if e.variants_len() != x.variants_len() {
                odd(
                    path,
                    &format!("{} variants, not {}", x.variants_len(), e.variants_len()),
                );
            }
            let Some(v) = e.variant(x.variant_name()) else {
                odd(
                    path,
                    &format!("variant {} is not described", x.variant_name()),
                )
            };
            let vp = path.clone().variant(x.variant_name());
            match root.type_at(&vp) {
                Some(TypeAtPath::Variant(w)) if w == v => {}
                _ => odd(&vp, "the description does not lead to the variant"),
            }
            if doc.at(&vp).is_none() {
                odd(&vp, "the document has nothing there");
            }
            let kind = match v {
                Variant::Struct(_) => VariantKind::Struct,
                Variant::Tuple(_) => VariantKind::Tuple,
                Variant::Unit(_) => VariantKind::Unit,
            };
            if kind != x.variant_kind()
                || x.fields_len() != v.fields_len()
                || x.fields().count() != v.fields_len()
            {
                odd(
                    &vp,
                    &format!(
                        "{:?} with {} fields, not {kind:?} with {}",
                        x.variant_kind(),
                        x.fields_len(),
                        v.fields_len()
                    ),
                );
            }
            for (i, f) in v.field_types().enumerate() {
                let a = match f.name() {
                    Some(nm) => {
                        if x.name_at(i) != Some(nm) {
                            odd(&vp, &format!("field {i} is {:?}, not {nm}", x.name_at(i)));
                        }
                        x.field(nm)
                    }
                    None => x.field_at(i),
                };
                let (Some(a), Some(b)) = (a, x.field_at(i)) else {
                    odd(&vp, &format!("no field {i}"))
                };
                if conv::read(a) != conv::read(b) {
                    odd(&vp, &format!("field {i} is not the field of that name"));
                }
                let p = match f.name() {
                    Some(nm) => vp.clone().field(nm),
                    None => vp.clone().field(i),
                };
                walk(root, doc, f.get_type(), a, &p, n);
            }
            lacks(path.clone().variant("Nope"));
            lacks(vp.clone().field("nope"));
            lacks(vp.clone().field(v.fields_len()));
            // the other variants are in the description, and not in the document
            for o in e.variants().filter(|o| o.name() != x.variant_name()) {
                let p = path.clone().variant(o.name());
                if !matches!(root.type_at(&p), Some(TypeAtPath::Variant(w)) if w == o) {
                    odd(&p, "the description does not lead to the variant");
                }
                if doc.at(&p).is_some() {
                    odd(&p, "the document has a variant that it does not have");
                }
            }
        }
        (Type::List(l), ReflectRef::List(x)) => {
            for (i, v) in x.iter().enumerate() {
                if x.get(i).map(conv::read) != Some(conv::read(v)) {
                    odd(path, &format!("element {i} is not the one listed"));
                }
                walk(root, doc, l.element_type(), v, &path.clone().get(i), n);
            }
            lacks(path.clone().field(0usize));
            lacks(path.clone().field("nope"));
        }
        (Type::Array(l), ReflectRef::Array(x)) => {
            if x.len() != l.len() || x.iter().count() != l.len() || x.is_empty() != l.is_empty() {
                odd(path, &format!("length {}, not {}", x.len(), l.len()));
            }
            for (i, v) in x.iter().enumerate() {
                walk(root, doc, l.element_type(), v, &path.clone().get(i), n);
            }
            lacks(path.clone().field(0usize));
            lacks(path.clone().field("nope"));
        }
        (Type::Map(l), ReflectRef::Map(x)) => {
            for (k, v) in x.iter() {
                let kt = l.key_type();
                if !matches!(kt, Type::Opaque(_))
                    && k.type_descriptor().type_name() != kt.type_name()
                {
                    odd(
                        path,
                        &format!(
                            "a key of type {}, not {}",
                            k.type_descriptor().type_name(),
                            kt.type_name()
                        ),
                    );
                }
                let mut p = path.clone();
                p.push_get(k.to_value());
                walk(root, doc, l.value_type(), v, &p, n);
            }
            lacks(path.clone().field(0usize));
            lacks(path.clone().field("nope"));
        }
        (Type::Scalar(st), ReflectRef::Scalar(_)) => {
            let m = conv::read(r);
            let ok = match (st, &m) {
                (ScalarType::String, M::Str(_)) => true,
                (st, M::Sc(t, _)) => desc::scalar_tag(st) == Some(*t),
                _ => false,
            };
            if !ok {
                odd(path, &format!("{} is not a {}", show(&m), t.type_name()));
            }
            lacks(path.clone().field(0usize));
            lacks(path.clone().field("nope"));
            lacks(path.clone().get(0usize));
            lacks(path.clone().variant("Nope"));
        }
        (Type::Struct(_), _) => kind("struct"),
        (Type::TupleStruct(_), _) => kind("tuple struct"),
        (Type::Tuple(_), _) => kind("tuple"),
        (Type::Enum(_), _) => kind("enum"),
        (Type::List(_), _) => kind("list"),
        (Type::Array(_), _) => kind("array"),
        (Type::Map(_), _) => kind("map"),
        (Type::Scalar(_), _) => kind("scalar"),
        (Type::Opaque(_), _) => unreachable!(),
    }
}

/// A value made from nothing but the description; None where it says too little.
fn make(t: Type<'_>, depth: u32) -> Option<M> {
    Some(match t {
        Type::Scalar(ScalarType::String) => M::Str(gen_str()),
        Type::Scalar(s) => gen_sc(desc::scalar_tag(s)?),
        Type::Struct(s) => M::Struct(
            s.field_types()
                .map(|f| Some((f.name().to_string(), make(f.get_type(), depth)?)))
                .collect::<Option<_>>()?,
        ),
        Type::TupleStruct(s) => M::TStruct(
            s.field_types()
                .map(|f| make(f.get_type(), depth))
                .collect::<Option<_>>()?,
        ),
        Type::Tuple(s) => M::Tuple(
            s.field_types()
                .map(|f| make(f.get_type(), depth))
                .collect::<Option<_>>()?,
        ),
        Type::Enum(e) => {
            if e.variants_len() == 0 || depth == 0 {
                return None;
            }
            // a recursive variant may not end: then the others
            let n = e.variants_len();
            let k = draw(n as u32) as usize;
            for i in 0..n {
                let v = e.variants().nth((k + i) % n).unwrap();
                if let Some(m) = make_variant(v, depth - 1) {
                    return Some(m);
                }
            }
            return None;
        }
        Type::List(l) => {
            let n = if depth == 0 { 0 } else { draw(3) };
            M::List(
                (0..n)
                    .map_while(|_| make(l.element_type(), depth - 1))
                    .collect(),
            )
        }
        Type::Array(a) => M::List(
            (0..a.len())
                .map(|_| make(a.element_type(), depth))
                .collect::<Option<_>>()?,
        ),
        Type::Map(m) => {
            let n = if depth == 0 { 0 } else { draw(3) };
            let mut e: Vec<(M, M)> = vec![];
            for _ in 0..n {
                let (Some(k), Some(v)) = (
                    make(m.key_type(), depth - 1),
                    make(m.value_type(), depth - 1),
                ) else {
                    break;
                };
                if has_float(&k) || map_find(&e, &k).is_some() {
                    continue;
                }
                e.push((k, v));
            }
            let mut m = M::Map(e);
            norm(&mut m);
            m
        }
        Type::Opaque(_) => return None,
    })
}
fn has_float(m: &M) -> bool {
    match m {
        M::Sc(T::F32 | T::F64, _) => true,
        M::Sc(..) | M::Str(_) | M::Enum(_, K::Unit) => false,
        M::Struct(f) | M::Enum(_, K::Struct(f)) => f.iter().any(|x| has_float(&x.1)),
        M::TStruct(f) | M::Tuple(f) | M::List(f) | M::Enum(_, K::Tuple(f)) => {
            f.iter().any(has_float)
        }
        M::Map(e) => e.iter().any(|(k, v)| has_float(k) || has_float(v)),
    }
}
fn make_variant(v: Variant<'_>, depth: u32) -> Option<M> {
    Some(M::Enum(
        v.name().to_string(),
        match v {
            Variant::Unit(_) => K::Unit,
            Variant::Tuple(v) => K::Tuple(
                v.field_types()
                    .map(|f| make(f.get_type(), depth))
                    .collect::<Option<_>>()?,
            ),
            Variant::Struct(v) => K::Struct(
                v.field_types()
                    .map(|f| Some((f.name().to_string(), make(f.get_type(), depth)?)))
                    .collect::<Option<_>>()?,
            ),
        },
    ))
}

/// The path with every variant named.
fn name_variants(s: &S, m: &M, path: &[Kx]) -> Option<Vec<Kx>> {
    let mut c = m.clone();
    let (mut s, mut cur): (S, &mut M) = (s.clone(), &mut c);
    let mut out = vec![];
    for k in path {
        if let (M::Enum(n, _), Kx::Name(_) | Kx::Num(_)) = (&*cur, k) {
            if !matches!(out.last(), Some(Kx::Var(_))) {
                out.push(Kx::Var(n.clone()));
            }
        }
        let (s2, m2) = step(&s, cur, k)?;
        out.push(k.clone());
        s = s2;
        cur = m2;
    }
    Some(out)
}

/// The type at a path, as the editor finds it.
fn type_of<'a>(root: Type<'a>, p: &KeyPath) -> Option<TypeAtPath<'a>> {
    root.type_at(p)
}

pub fn as_type<'a>(root: Type<'a>, path: &[Kx]) -> Option<(Type<'a>, Option<Variant<'a>>)> {
    // step by step, through the parts of the description
    let mut t = root;
    let mut var: Option<Variant<'a>> = None;
    for k in path {
        let next = match (k, t, var.take()) {
            (Kx::Var(n), Type::Enum(e), None) => {
                var = Some(e.variant(n)?);
                continue;
            }
            (Kx::Name(n), _, Some(v)) => v.field_type(n)?.get_type(),
            (Kx::Num(i), _, Some(v)) => v.field_type_at(*i)?.get_type(),
            (Kx::Name(n), Type::Struct(s), None) => s.field_type(n)?.get_type(),
            (Kx::Num(i), Type::TupleStruct(s), None) => s.field_type_at(*i)?.get_type(),
            (Kx::Num(i), Type::Tuple(s), None) => s.field_type_at(*i)?.get_type(),
            (Kx::Get(_), Type::List(l), None) => l.element_type(),
            (Kx::Get(_), Type::Array(l), None) => l.element_type(),
            (Kx::Get(_), Type::Map(l), None) => l.value_type(),
            _ => return None,
        };
        t = next;
    }
    Some((t, var))
}

fn c17() {
    let ty: Ty = draw_type(|t| !t.name.contains("value::Value"));
    let s = (ty.schema)();
    let m0 = gen(&s, 3);
    let mut server = Rep::new("server".into(), ty, m0);
    let codec = draw_codec();
    ev!("a document of {}, {codec:?}: {}", ty.name, show(&server.m));
    // the description goes to the editor once
    let sent = if draw(2) == 0 {
        (ty.descriptor)()
    } else {
        server.doc.r().type_descriptor()
    };
    let bytes = match wire::to_vec(codec, &*sent) {
        Ok(b) => b,
        Err(e) => violate!("wire", "the description cannot be written: {e}"),
    };
    let d: TypeDescriptor = match wire::read(
        codec,
        SliceReader {
            b: &bytes,
            faulty: true,
        },
    ) {
        Ok(d) => d,
        Err(e) => violate!("wire", "the description cannot be read: {e}"),
    };
    let root = d.get_type();
    for _ in 0..2 + draw(8) {
        walk(
            root,
            server.doc.r(),
            root,
            server.doc.r(),
            &KeyPath::default(),
            &mut 0,
        );
        // the editor picks a part that it sees in the document
        let p0 = gen_path(&server.s, &server.m, (1, 3));
        let Some(path) = name_variants(&server.s, &server.m, &p0) else {
            continue;
        };
        let kp = conv::key_path(&path);
        let by_steps = as_type(root, &path);
        let by_path = type_of(root, &kp);
        match (&by_steps, &by_path) {
            (Some((t, None)), Some(a)) if a.type_name() == t.type_name() => {}
            (Some((_, Some(v))), Some(TypeAtPath::Variant(w))) if v == w => {}
            (None, None) => {
                // only through something opaque
                let mut through = false;
                let mut c = server.m.clone();
                for i in 0..path.len() {
                    if let Some((s, _)) = at(&server.s, &mut c, &path[..i]) {
                        through |= matches!(s.k, SK::Any);
                    }
                }
                if !through {
                    odd(&kp, "the description has nothing where the document has");
                }
                count("reach.path_through_opaque");
                continue;
            }
            _ => odd(&kp, "looking up by path and step by step disagree"),
        }
        let (t, var) = by_steps.unwrap();
        nontrivial();
        let mut c = server.m.clone();
        let Some((ps, _)) = at(&server.s, &mut c, &path) else {
            continue;
        };
        // what it offers as default, or something made up from the description, or both
        let dv = match var {
            Some(v) => v.default_value(),
            None => t.default_value(),
        };
        let op = match draw(5) {
            0 | 1 => match &dv {
                Some(v) => {
                    count("reach.default_used");
                    Op::Patch(conv::norm_value(v))
                }
                None => continue,
            },
            2 | 3 => {
                let made = match var {
                    Some(v) => make_variant(v, 3),
                    None => make(t, 3),
                };
                match made {
                    Some(m) => {
                        count("reach.value_made_from_description");
                        Op::Patch(m)
                    }
                    None => continue,
                }
            }
            _ => match t {
                Type::List(l) => {
                    let v = if draw(2) == 0 {
                        l.element_type()
                            .default_value()
                            .map(|v| conv::norm_value(&v))
                    } else {
                        make(l.element_type(), 3)
                    };
                    match v {
                        Some(v) => Op::Push(v),
                        None => continue,
                    }
                }
                Type::Map(m) => {
                    let Some(k) = make(m.key_type(), 2) else {
                        continue;
                    };
                    let v = if draw(2) == 0 {
                        m.value_type().default_value().map(|v| conv::norm_value(&v))
                    } else {
                        make(m.value_type(), 3)
                    };
                    match v {
                        Some(v) if !has_float(&k) => Op::Insert(k, v),
                        _ => continue,
                    }
                }
                _ => continue,
            },
        };
        // it is a value of the part's type, so the part takes it
        let (want, name) = match &op {
            Op::Patch(v) => (from_v(&ps, v), ps.name),
            Op::Push(v) => (elem(&ps).and_then(|e| from_v(&e, v)), ps.name),
            Op::Insert(k, v) => (
                entry(&ps).and_then(|(ks, vs)| from_v(&ks, k).and_then(|_| from_v(&vs, v))),
                ps.name,
            ),
            _ => unreachable!(),
        };
        let _ = chance(1, 1);
        if want.is_none() && total(&ty) {
            violate!(
                "harness",
                "{} is not a {name} according to the model",
                show_op(&op)
            );
        }
        let e = Edit { path, op };
        ev!("{}", show_edit(&e));
        let b = encode_edit(codec, &e);
        let e = decode_edit(codec, &b, &e);
        server.apply(&e.path, &e.op);
        if let (Op::Patch(v), Some(w)) = (&e.op, &want) {
            // what arrives at the document is the value made, as far as a merge goes
            if !matches!(ps.k, SK::Any) && no_seq(v) && !types::has_skips(&ps) {
                let mut path = e.path.clone();
                while matches!(path.last(), Some(Kx::Var(_))) {
                    path.pop();
                }
                let now = get(&server.s, &server.m, &path);
                if now.as_ref() != Some(&view(&ps, w)) {
                    violate!(
                        "harness",
                        "the model holds {:?} after {}",
                        now.as_ref().map(show),
                        show_edit(&e)
                    );
                }
            }
        }
    }
    // the default of the whole document makes a document
    if let Some(v) = root.default_value() {
        let m = conv::norm_value(&v);
        match ((ty.from_reflect)(&v), from_v(&server.s, &m)) {
            (Some(doc), Some(w)) => {
                count("reach.default_document");
                let r = Rep {
                    name: "new".into(),
                    ty,
                    s: server.s.clone(),
                    doc,
                    m: w,
                };
                r.check("when made from the default value");
                walk(
                    root,
                    r.doc.r(),
                    root,
                    r.doc.r(),
                    &KeyPath::default(),
                    &mut 0,
                );
            }
            (None, _) => violate!(
                "default",
                "the default value {} does not make a {}",
                show(&m),
                ty.name
            ),
            (_, None) => violate!("harness", "the model does not convert {}", show(&m)),
        }
    }
    let _ = <i32 as DescribeType>::type_descriptor;
}
fn no_seq(m: &M) -> bool {
    match m {
        M::List(_) | M::Map(_) => false,
        M::Sc(..) | M::Str(_) | M::Enum(_, K::Unit) => true,
        M::Struct(f) | M::Enum(_, K::Struct(f)) => f.iter().all(|x| no_seq(&x.1)),
        M::TStruct(f) | M::Tuple(f) | M::Enum(_, K::Tuple(f)) => f.iter().all(no_seq),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            run: c16,
            prep: None,
            quick: 60_000,
            thorough: 2_000_000,
            budget: 2_500_000_000,
            cpu: 60,
            rule: "2 to 4 replicas of one form of a document receive up to 15 edits over lossy, duplicating, reordering links; at drawn moments two of them, a differently spelled or ordered copy, or a copy with one thing changed are compared, at the end a pool of 10 or more values pairwise and by sorting; non-trivial: at least one comparison of documents",
            real: crate::gd::REAL,
            stub: crate::gd::STUB,
        },
        Prop {
            id: "C17",
            run: c17,
            prep: None,
            quick: 60_000,
            thorough: 2_000_000,
            budget: 2_500_000_000,
            cpu: 60,
            rule: "an editor receives the description of a document of a drawn type (44 types) over a fragmenting, interrupting stream, walks the document along it and makes 2 to 9 edits from the description alone: defaults, made-up values, pushes and insertions; non-trivial: at least one path looked up in the description",
            real: crate::gd::REAL,
            stub: crate::gd::STUB,
        },
    ]
}
