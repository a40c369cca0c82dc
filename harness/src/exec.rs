use crate::guard::G;
use crate::json::J;
use blake2s_simd::blake2sp;
use blake2s_simd::{Hash, Params, State};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Barrier;

/// Message contents; the same function as Pat in spec/Pattern.tla.
pub fn pat(k: i64, i: i64) -> u8 {
    if k == 0 {
        0
    } else if k == 1 {
        255
    } else if (1000..1256).contains(&k) {
        (k - 1000) as u8
    } else if k >= 11000 {
        // words of zeros, of ones, of a lone top bit, of anything
        match pat(k % 1000, i / 4) % 4 {
            0 => 0,
            1 => 255,
            2 => pat(k % 1000 + 1, i),
            _ => (i % 4 / 3 * 128) as u8,
        }
    } else if k >= 10000 {
        // blocks of zeros, of ones, one and the same block, other blocks, blocks half of zeros
        let b = (k - 10000) / [1, 5, 25, 125][(i / 64 % 4) as usize] % 5;
        match b {
            0 => 0,
            1 => 255,
            2 => pat(5, i % 64),
            3 => pat(k - 10000 + 2, i),
            _ => pat(k - 10000 + 2, i) * (i % 64 / 32) as u8,
        }
    } else if k >= 2000 {
        if i == k - 2000 {
            128
        } else {
            0
        }
    } else if k >= 1300 {
        pat(k - 1300, i) & 127 // valid UTF-8
    } else {
        ((((i % 4096) * 40503 + ((i / 4096) % 65536) * 7919 + (i % 251) * (i % 241) * 97 + k * 30011) % 65536) / 256) as u8
    }
}

/// Owns the bytes of one input, at a varying alignment.
pub struct Buf {
    v: Vec<u8>,
    off: usize,
    long: Option<&'static [u8]>,
    guarded: Option<crate::guard::Bytes>,
    part: Option<(std::sync::Arc<[u8]>, usize, usize)>,
}

impl Buf {
    fn new(seg: &J, salt: usize) -> Buf {
        let a = seg.a();
        let (k, o, n) = (a[0].n(), a[1].n(), a[2].n());
        if crate::guard::enabled() {
            let v: Vec<u8> = (0..n).map(|i| pat(k, o + i)).collect();
            return Buf { guarded: Some(crate::guard::Bytes::new(&v)), v: Vec::new(), off: 0, long: None, part: None };
        }
        let off = if cfg!(miri) { 0 } else { (salt * 13 + n as usize) % 67 };
        let mut v = Vec::with_capacity(off + n as usize);
        v.resize(off, 0xA5u8);
        v.extend((0..n).map(|i| pat(k, o + i)));
        Buf { v, off, long: None, guarded: None, part: None }
    }
    /// At an address of `place` modulo 64.
    fn placed(seg: &J, place: usize) -> Buf {
        let a = seg.a();
        let (k, o, n) = (a[0].n(), a[1].n(), a[2].n());
        let bytes: Vec<u8> = (0..n).map(|i| pat(k, o + i)).collect();
        if crate::guard::enabled() {
            return Buf { guarded: Some(crate::guard::Bytes::placed(&bytes, place)), v: Vec::new(), off: 0, long: None, part: None };
        }
        let mut v = Vec::with_capacity(bytes.len() + crate::guard::PLACES);
        let off = crate::guard::offset(&v, place);
        v.resize(off, 0xA5u8);
        v.extend_from_slice(&bytes);
        Buf { v, off, long: None, guarded: None, part: None }
    }
    /// Exactly these bytes.
    fn of(v: Vec<u8>) -> Buf {
        if crate::guard::enabled() {
            return Buf { guarded: Some(crate::guard::Bytes::new(&v)), v: Vec::new(), off: 0, long: None, part: None };
        }
        let v = v.into_boxed_slice().into_vec();
        Buf { v, off: 0, long: None, guarded: None, part: None }
    }
    /// Inputs of the same stream as slices of one allocation, if they are close together:
    /// equal segments are then the same slice, others touch or overlap as their offsets say.
    fn shared(segs: &[J], salt: usize) -> Vec<Buf> {
        let part = |s: &J| (s.a()[0].n(), s.a()[1].n(), s.a()[2].n());
        let mut all: Vec<(i64, i64, std::sync::Arc<[u8]>)> = Vec::new();
        segs.iter()
            .enumerate()
            .map(|(i, s)| {
                let (k, o, n) = part(s);
                let same = || segs.iter().map(part).filter(|p| p.0 == k);
                let lo = same().map(|p| p.1).min().unwrap();
                let hi = same().map(|p| p.1 + p.2).max().unwrap();
                let most = same().map(|p| p.2).max().unwrap();
                if same().count() == 1 || hi - lo > most + (1 << 16) {
                    return Buf::new(s, salt + i);
                }
                let mem = match all.iter().find(|a| a.0 == k) {
                    Some(a) => a.2.clone(),
                    None => {
                        let m: std::sync::Arc<[u8]> = (lo..hi).map(|i| pat(k, i)).collect();
                        all.push((k, lo, m.clone()));
                        m
                    }
                };
                let at = (o - lo) as usize;
                Buf { v: Vec::new(), off: 0, long: None, guarded: None, part: Some((mem, at, at + n as usize)) }
            })
            .collect()
    }
    fn long(seg: &J) -> Buf {
        Buf { v: Vec::new(), off: 0, long: Some(crate::long::slice(seg)), guarded: None, part: None }
    }
    fn get(&self) -> &[u8] {
        if let Some((b, i, j)) = &self.part {
            return &b[*i..*j];
        }
        match (self.long, &self.guarded) {
            (Some(b), _) => b,
            (_, Some(g)) => g.get(),
            _ => &self.v[self.off..],
        }
    }
}

#[derive(Clone)]
enum O {
    P(G<Params>),
    Q(G<blake2sp::Params>),
    S(G<State>),
    H(G<Hash>),
}

pub struct Machine {
    o: HashMap<String, O>,
    t: HashMap<String, G<blake2sp::State>>,
    salt: usize,
}

pub fn list<T: std::fmt::Display>(xs: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    for (i, x) in xs.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        write!(s, "{}", x).unwrap();
    }
    s.push(']');
    s
}

/// Debug output, plain and with every other option of a format specification.
fn formats(x: &dyn std::fmt::Debug) -> (String, String) {
    (
        format!("{:?}", x),
        [
            format!("{:#?}", x), format!("{:x?}", x), format!("{:X?}", x), format!("{:#x?}", x), format!("{:+?}", x), format!("{:08?}", x), format!("{:5?}", x),
            format!("{:.2?}", x), format!("{:<300?}", x), format!("{:*^9.1?}", x), format!("{:-?}", x), format!("{:#010x?}", x),
        ]
        .join("|"),
    )
}

fn dig(h: &Hash) -> String {
    list(h.as_bytes())
}

fn q(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                r.push('\\');
                r.push(c)
            }
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push('?'),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn u64j(c: u64) -> String {
    list([c >> 48, (c >> 32) & 0xffff, (c >> 16) & 0xffff, c & 0xffff])
}

#[cfg(feature = "std")]
fn feed<W: std::io::Write>(w: &mut W, via: i64, d: &[u8]) -> Option<usize> {
    match via {
        1 => Some(w.write(d).expect("write")),
        2 => {
            w.write_all(d).expect("write_all");
            Some(d.len())
        }
        3 => {
            let n = w.write(d).expect("write");
            w.flush().expect("flush");
            Some(n)
        }
        4 => {
            let mut r = d;
            Some(std::io::copy(&mut r, w).expect("copy") as usize)
        }
        5 => {
            let (a, b) = d.split_at(d.len() / 3);
            let n = w.by_ref().write(a).expect("write");
            w.flush().expect("flush");
            w.flush().expect("flush");
            Some(n + w.write(b).expect("write"))
        }
        6 => {
            // several slices at once, empty ones among them, until everything is accepted
            let (a, b) = d.split_at(d.len() / 2);
            let (c, b) = b.split_at(b.len().min(64));
            let parts = [&[][..], a, &[], c, b];
            let (mut at, mut n) = (0, 0);
            while n < d.len() {
                let mut skip = n;
                let left: Vec<std::io::IoSlice> = parts
                    .iter()
                    .map(|p| {
                        let k = skip.min(p.len());
                        skip -= k;
                        std::io::IoSlice::new(&p[k..])
                    })
                    .collect();
                let m = w.write_vectored(&left).expect("write_vectored");
                at += 1;
                assert!(m > 0 && at < 1000, "write_vectored made no progress");
                n += m;
            }
            Some(n)
        }
        7 => {
            // formatted text, if it is text
            match std::str::from_utf8(d) {
                Ok(s) => {
                    let (a, b) = s.split_at((0..=s.len() / 2).rev().find(|&i| s.is_char_boundary(i)).unwrap());
                    write!(w, "{}{}", a, b).expect("write_fmt")
                }
                Err(_) => {
                    let mut b = std::io::BufWriter::with_capacity(100, &mut *w);
                    std::io::Write::write_all(&mut b, d).expect("BufWriter");
                    std::io::Write::flush(&mut b).expect("flush")
                }
            }
            Some(d.len())
        }
        _ => None,
    }
}

fn upd_s(s: &mut State, via: i64, d: &[u8]) -> usize {
    #[cfg(feature = "std")]
    {
        if let Some(n) = feed(s, via, d) {
            return n;
        }
    }
    if via == 8 {
        let (a, b) = d.split_at(d.len() / 3);
        s.update(a).update(b);
    } else {
        s.update(d);
    }
    d.len()
}

fn upd_t(s: &mut blake2sp::State, via: i64, d: &[u8]) -> usize {
    #[cfg(feature = "std")]
    {
        if let Some(n) = feed(s, via, d) {
            return n;
        }
    }
    if via == 8 {
        let (a, b) = d.split_at(d.len() / 3);
        s.update(a).update(b);
    } else {
        s.update(d);
    }
    d.len()
}

/// A new object, where the script wants it.
fn put<T>(e: &J, v: T) -> G<T> {
    match e.opt("pl") {
        Some(a) => G::placed(v, a.n() as usize),
        None => G::new(v),
    }
}

fn set_params(p: &mut Params, f: &str, v: &J) {
    match f {
        "hash_length" => p.hash_length(v.u64() as usize),
        "key" => p.key(Buf::of(v.bytes()).get()),
        "salt" => p.salt(Buf::of(v.bytes()).get()),
        "personal" => p.personal(Buf::of(v.bytes()).get()),
        "fanout" => p.fanout(v.u64() as u8),
        "max_depth" => p.max_depth(v.u64() as u8),
        "max_leaf_length" => p.max_leaf_length(v.u64() as u32),
        "node_offset" => p.node_offset(v.u64()),
        "node_depth" => p.node_depth(v.u64() as u8),
        "inner_hash_length" => p.inner_hash_length(v.u64() as usize),
        "last_node" => p.last_node(v.u64() == 1),
        _ => panic!("bad setter"),
    };
}

impl Machine {
    pub fn new() -> Self {
        Machine { o: HashMap::new(), t: HashMap::new(), salt: 0 }
    }

    fn s(&mut self, x: &str) -> &mut State {
        match self.o.get_mut(x) {
            Some(O::S(s)) => s,
            _ => panic!("no State {}", x),
        }
    }
    fn h(&self, x: &str) -> &Hash {
        match self.o.get(x) {
            Some(O::H(h)) => h,
            _ => panic!("no Hash {}", x),
        }
    }
    fn p(&self, x: &str) -> &Params {
        match self.o.get(x) {
            Some(O::P(p)) => p,
            _ => panic!("no Params {}", x),
        }
    }
    fn take8(&mut self, xs: &J) -> Vec<G<State>> {
        xs.a()
            .iter()
            .map(|x| match self.o.remove(x.s()) {
                Some(O::S(s)) => s,
                _ => panic!("no State {:?}", x),
            })
            .collect()
    }
    fn put8(&mut self, xs: &J, v: Vec<G<State>>) {
        for (x, s) in xs.a().iter().zip(v) {
            self.o.insert(x.s().to_string(), O::S(s));
        }
    }

    /// The text to append to the event: results, starting with a comma.
    pub fn exec(&mut self, e: &J) -> String {
        self.salt += 1;
        let salt = self.salt;
        let op = e.get("op").s().to_string();
        let inputs: Vec<Buf> = e
            .opt("al")
            .filter(|_| op != "cmp")
            .map(|al| {
                let one = |g: &J, a: &J| Buf::placed(g, a.n() as usize);
                match e.opt("in") {
                    Some(g) => vec![one(g, &al.a()[0])],
                    None => e.get("ins").a().iter().zip(al.a()).map(|(g, a)| one(g, a)).collect(),
                }
            })
            .or_else(|| e.opt("in").filter(|_| op != "par").map(|g| vec![Buf::new(g, salt)]))
            .or_else(|| e.opt("ins").filter(|_| salt % 2 == 0 && !crate::guard::enabled()).map(|gs| Buf::shared(gs.a(), salt)))
            .or_else(|| e.opt("ins").map(|gs| gs.a().iter().enumerate().map(|(i, g)| Buf::new(g, salt + i)).collect()))
            .or_else(|| e.opt("lin").filter(|_| op != "par").map(|g| vec![Buf::long(g)]))
            .or_else(|| e.opt("lins").map(|gs| gs.a().iter().map(Buf::long).collect()))
            .unwrap_or_default();
        let r = catch_unwind(AssertUnwindSafe(|| self.call(&op, e, &inputs)));
        match r {
            Ok(s) => format!(",\"ok\":true{}", s),
            Err(err) => {
                let msg = err
                    .downcast_ref::<String>()
                    .map(|s| s.as_str())
                    .or(err.downcast_ref::<&str>().copied())
                    .unwrap_or("?");
                if msg.starts_with("no State") || msg.starts_with("no Hash") || msg.starts_with("no Params") || msg.starts_with("no field") || msg.starts_with("bad op") {
                    // a script error, not a library panic
                    std::panic::resume_unwind(err);
                }
                format!(",\"ok\":false,\"panic\":{}", q(msg))
            }
        }
    }

    fn call(&mut self, op: &str, e: &J, ins: &[Buf]) -> String {
        let id = |k: &str| e.get(k).s().to_string();
        match op {
            "reset" => {
                self.o.clear();
                self.t.clear();
                self.salt = 0;
            }
            "drop" => {
                let x = id("x");
                self.o.remove(&x);
                self.t.remove(&x);
            }
            "pnew" => {
                let p = if e.opt("via").map_or(false, |v| v.n() == 1) { Params::default() } else { Params::new() };
                self.o.insert(id("r"), O::P(put(e, p)));
            }
            "qnew" => {
                let p = if e.opt("via").map_or(false, |v| v.n() == 1) { blake2sp::Params::default() } else { blake2sp::Params::new() };
                self.o.insert(id("r"), O::Q(put(e, p)));
            }
            "snew" => {
                let p = if e.opt("via").map_or(false, |v| v.n() == 1) { State::default() } else { State::new() };
                self.o.insert(id("r"), O::S(put(e, p)));
            }
            "tnew" => {
                let p = if e.opt("via").map_or(false, |v| v.n() == 1) { blake2sp::State::default() } else { blake2sp::State::new() };
                self.t.insert(id("r"), put(e, p));
            }
            "psetl" => {
                // an argument slice too long for memory, hence mapped
                match (self.o.get_mut(e.get("x").s()), e.get("f").s()) {
                    (Some(O::P(p)), "key") => drop(p.key(ins[0].get())),
                    (Some(O::P(p)), "salt") => drop(p.salt(ins[0].get())),
                    (Some(O::P(p)), "personal") => drop(p.personal(ins[0].get())),
                    (Some(O::Q(p)), "key") => drop(p.key(ins[0].get())),
                    _ => panic!("no Params"),
                }
            }
            "pset" => match self.o.get_mut(e.get("x").s()) {
                Some(O::P(p)) => set_params(p, e.get("f").s(), e.get("v")),
                Some(O::Q(p)) => {
                    match e.get("f").s() {
                        "hash_length" => p.hash_length(e.get("v").u64() as usize),
                        "key" => p.key(Buf::of(e.get("v").bytes()).get()),
                        _ => panic!("bad op"),
                    };
                }
                _ => panic!("no Params"),
            },
            "clone" if e.opt("via").map_or(false, |v| v.n() == 1) && self.o.contains_key(e.get("r").s()) && e.get("x").s() != e.get("r").s() => {
                let (x, r) = (e.get("x").s(), id("r"));
                let mut old = self.o.remove(&r).unwrap();
                match (&mut old, self.o.get(x).unwrap_or_else(|| panic!("no State"))) {
                    (O::P(a), O::P(b)) => Params::clone_from(&mut *a, &**b),
                    (O::Q(a), O::Q(b)) => blake2sp::Params::clone_from(&mut *a, &**b),
                    (O::S(a), O::S(b)) => State::clone_from(&mut *a, &**b),
                    (O::H(a), O::H(b)) => Hash::clone_from(&mut *a, &**b),
                    (a, b) => *a = b.clone(),
                }
                self.o.insert(r, old);
            }
            "clone" => {
                let c = self.o.get(e.get("x").s()).unwrap_or_else(|| panic!("no State")).clone();
                self.o.insert(id("r"), c);
            }
            "st" => {
                let s = self.p(e.get("x").s()).to_state();
                self.o.insert(id("r"), O::S(put(e, s)));
            }
            "tst" => {
                let t = match self.o.get(e.get("x").s()) {
                    Some(O::Q(p)) => p.to_state(),
                    _ => panic!("no Params"),
                };
                self.t.insert(id("r"), put(e, t));
            }
            "forcep" => {
                #[cfg(feature = "bench")]
                {
                    let x = id("x");
                    if let Some(t) = self.t.get_mut(&x) {
                        blake2s_simd::benchmarks::force_portable_blake2sp(t);
                    } else {
                        blake2s_simd::benchmarks::force_portable(self.s(&x));
                    }
                }
            }
            "upd" => {
                let x = id("x");
                let via = e.get("via").n();
                let n = if let Some(t) = self.t.get_mut(&x) { upd_t(t, via, ins[0].get()) } else { upd_s(self.s(&x), via, ins[0].get()) };
                if e.opt("lin").is_some() {
                    return format!(",\"wn\":{}", u64j(n as u64));
                }
                return format!(",\"wn\":{}", n);
            }
            "ln" => {
                let b = e.get("b").b();
                self.s(e.get("x").s()).set_last_node(b);
            }
            "cnt" => {
                let x = id("x");
                let c: u64 = if let Some(t) = self.t.get(&x) { t.count().into() } else { self.s(&x).count().into() };
                return format!(",\"c\":{}", u64j(c));
            }
            "fin" | "hash" => {
                let x = id("x");
                let h = if let Some(t) = self.t.get_mut(&x) { t.finalize() } else { self.s(&x).finalize() };
                if op == "hash" {
                    self.o.insert(id("r"), O::H(G::new(h.clone())));
                }
                return format!(",\"d\":{}", dig(&h));
            }
            "one" => return format!(",\"d\":{}", dig(&blake2s_simd::blake2s(ins[0].get()))),
            "sone" => return format!(",\"d\":{}", dig(&blake2sp::blake2sp(ins[0].get()))),
            "u8" => {
                let mut v = self.take8(e.get("xs"));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let [a, b, c, d, e, f, g, h] = <&mut [G<State>; 8]>::try_from(&mut v[..]).unwrap();
                    blake2s_simd::update8(
                        a, b, c, d, e, f, g, h, ins[0].get(), ins[1].get(), ins[2].get(), ins[3].get(), ins[4].get(), ins[5].get(),
                        ins[6].get(), ins[7].get(),
                    )
                }));
                self.put8(e.get("xs"), v);
                if let Err(r) = r {
                    std::panic::resume_unwind(r);
                }
            }
            "f8" => {
                let mut v = self.take8(e.get("xs"));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let [a, b, c, d, e, f, g, h] = <&mut [G<State>; 8]>::try_from(&mut v[..]).unwrap();
                    blake2s_simd::finalize8(a, b, c, d, e, f, g, h)
                }));
                self.put8(e.get("xs"), v);
                match r {
                    Ok(h) => return format!(",\"d\":{}", list(h.iter().map(dig))),
                    Err(r) => std::panic::resume_unwind(r),
                }
            }
            "h8" => {
                let p: Vec<&Params> = e.get("ps").a().iter().map(|x| self.p(x.s())).collect();
                let h = blake2s_simd::hash8(
                    p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], ins[0].get(), ins[1].get(), ins[2].get(), ins[3].get(),
                    ins[4].get(), ins[5].get(), ins[6].get(), ins[7].get(),
                );
                return format!(",\"d\":{}", list(h.iter().map(dig)));
            }
            "exact" | "exactl" => {
                let p = self.p(e.get("x").s());
                if ins.len() == 4 {
                    let h = blake2s_simd::hash4_exact(p, ins[0].get(), ins[1].get(), ins[2].get(), ins[3].get());
                    return format!(",\"d\":{}", list(h.iter().map(dig)));
                }
                let h = blake2s_simd::hash8_exact(
                    p, ins[0].get(), ins[1].get(), ins[2].get(), ins[3].get(), ins[4].get(), ins[5].get(), ins[6].get(),
                    ins[7].get(),
                );
                return format!(",\"d\":{}", list(h.iter().map(dig)));
            }
            "par" => return self.par(e),
            "auto" => {
                let (a, b) = auto();
                return format!(",\"send\":{},\"sync\":{}", list(a.iter()), list(b.iter()));
            }
            "ct" => return crate::steps::compare(e),
            "cth" => return crate::steps::hash(e),
            "wits" => return crate::long::witness(e),
            "hget" => {
                let h = self.h(e.get("x").s());
                let a: &[u8] = h.as_ref();
                return format!(",\"bytes\":{},\"asref\":{},\"hex\":{},\"dbg\":{}", dig(h), list(a), q(&h.to_hex()), q(&format!("{:?}", h)));
            }
            "heq" => {
                let (a, b) = (self.h(e.get("x").s()), self.h(e.get("y").s()));
                return format!(",\"eq\":{},\"ne\":{}", a == b, a != b);
            }
            "heqs" => {
                let a = self.h(e.get("x").s());
                let b = Buf::of(e.get("v").bytes());
                let v = b.get();
                return format!(",\"eq\":{},\"ne\":{}", *a == v[..], *a != v[..]);
            }
            "heqd" => {
                let a = self.h(e.get("x").s());
                let mut v = a.as_bytes().to_vec();
                let i = e.get("i").n() as usize;
                match e.get("kind").s() {
                    "copy" => (),
                    "flip" => {
                        let n = v.len() * 8;
                        v[(i % n) / 8] ^= 1 << (i % 8)
                    }
                    "prefix" => {
                        let n = i % v.len();
                        v.truncate(n)
                    }
                    "extend" => v.push(i as u8),
                    _ => panic!("bad op"),
                }
                let b = Buf::of(v);
                let v = b.get();
                return format!(",\"v\":{},\"eq\":{},\"ne\":{}", list(v), *a == v[..], *a != v[..]);
            }
            "dbg" => {
                let f = |x: &str| -> (String, String) {
                    if let Some(t) = self.t.get(x) {
                        return formats(&**t);
                    }
                    match self.o.get(x) {
                        Some(O::S(s)) => formats(&**s),
                        Some(O::Q(p)) => formats(&**p),
                        _ => panic!("no State {}", x),
                    }
                };
                let (a, b) = f(e.get("x").s());
                let (c, d) = f(e.get("y").s());
                return format!(",\"dx\":{},\"dy\":{},\"px\":{},\"py\":{}", q(&a), q(&c), q(&b), q(&d));
            }
            #[cfg(feature = "bench")]
            "cmp" => return crate::exec::cmp::run(e),
            _ => panic!("bad op {}", op),
        }
        String::new()
    }

    fn par(&mut self, e: &J) -> String {
        enum W {
            S(G<State>),
            T(G<blake2sp::State>),
        }
        let jobs = e.get("jobs").a();
        let mut ws: Vec<(String, Vec<Buf>, W)> = Vec::new();
        for (i, j) in jobs.iter().enumerate() {
            let x = j.get("s").s().to_string();
            let b = match j.opt("in") {
                Some(gs) => gs.a().iter().map(|g| Buf::new(g, i)).collect(),
                None => j.get("lin").a().iter().map(Buf::long).collect(),
            };
            let w = match self.t.remove(&x) {
                Some(t) => W::T(t),
                None => match self.o.remove(&x) {
                    Some(O::S(s)) => W::S(s),
                    _ => panic!("no State {}", x),
                },
            };
            ws.push((x, b, w));
        }
        let bar = Barrier::new(ws.len());
        // (types that cannot be moved to a thread are not)
        let threads = auto().0.iter().all(|x| *x);
        struct Moved<T>(T);
        unsafe impl<T> Send for Moved<T> {}
        let work = |job: Moved<(String, Vec<Buf>, W)>| {
            let (x, b, mut w) = { job }.0;
            if threads {
                bar.wait();
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                for (i, d) in b.iter().enumerate() {
                    match &mut w {
                        W::S(s) => upd_s(s, (i % 3) as i64, d.get()),
                        W::T(t) => upd_t(t, (i % 3) as i64, d.get()),
                    };
                }
                match &mut w {
                    W::S(s) => s.finalize(),
                    W::T(t) => t.finalize(),
                }
            }));
            Moved((x, w, r))
        };
        let res: Vec<_> = std::thread::scope(|sc| {
            let jobs: Vec<_> = ws.into_iter().map(Moved).collect();
            if !threads {
                return jobs.into_iter().map(|j| work(j).0).collect();
            }
            let work = &work;
            let hs: Vec<_> = jobs.into_iter().map(|j| sc.spawn(move || work(j))).collect();
            hs.into_iter().map(|h| h.join().unwrap().0).collect()
        });
        let mut ds = Vec::new();
        let mut failed = None;
        for (x, w, r) in res {
            match w {
                W::S(s) => {
                    self.o.insert(x, O::S(s));
                }
                W::T(t) => {
                    self.t.insert(x, t);
                }
            }
            match r {
                Ok(h) => ds.push(dig(&h)),
                Err(p) => failed = Some(p),
            }
        }
        if let Some(p) = failed {
            std::panic::resume_unwind(p);
        }
        format!(",\"d\":{}", list(ds))
    }
}

/// Whether hashers, builders and hashes can be moved to, and shared with, other threads.
pub fn auto() -> ([bool; 5], [bool; 5]) {
    struct Is<T>(std::marker::PhantomData<T>);
    trait Not {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T> Not for Is<T> {}
    struct IsSync<T>(std::marker::PhantomData<T>);
    impl<T> Not for IsSync<T> {}
    #[allow(dead_code)]
    impl<T: Send> Is<T> {
        const SEND: bool = true;
    }
    #[allow(dead_code)]
    impl<T: Sync> IsSync<T> {
        const SYNC: bool = true;
    }
    (
        [<Is<State>>::SEND, <Is<Params>>::SEND, <Is<Hash>>::SEND, <Is<blake2sp::State>>::SEND, <Is<blake2sp::Params>>::SEND],
        [<IsSync<State>>::SYNC, <IsSync<Params>>::SYNC, <IsSync<Hash>>::SYNC, <IsSync<blake2sp::State>>::SYNC, <IsSync<blake2sp::Params>>::SYNC],
    )
}

#[cfg(feature = "bench")]
#[path = "cmp.rs"]
pub mod cmp;
