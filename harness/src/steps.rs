//! What an observer of time can see: calls executed one machine instruction at a time (the
//! processor's trap flag), recording how many instructions ran and which, and which memory they
//! touched.
use crate::exec::{list, pat, u64j};
use crate::json::J;
use blake2s_simd::{blake2sp, Hash, Params, State};
use std::hint::black_box;

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
mod sys {
    use std::cell::Cell;
    use std::os::raw::{c_int, c_void};
    use std::sync::Once;

    thread_local! {
        pub static N: Cell<u64> = const { Cell::new(0) };
        pub static H: Cell<u64> = const { Cell::new(0) };
        pub static M: Cell<u64> = const { Cell::new(0) };
    }

    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: c_int,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: c_int, act: *const Action, old: *mut c_void) -> c_int;
    }

    /// What the instruction at `ip` is about to do with memory and the divider: the registers its
    /// memory operand is addressed by (the constant part of an address is a matter of the path),
    /// and the operands of a division. `g`: the registers, in the order of the signal frame;
    /// `fp`: the floating-point part of it.
    unsafe fn touched(ip: *const u8, g: *const u64, fp: *const u8, put: &mut dyn FnMut(u64)) {
        const AT: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
        let reg = |r: u8| *g.add(AT[(r & 15) as usize]);
        let mut p = ip;
        let next = |p: &mut *const u8| {
            let b = **p;
            *p = p.add(1);
            b
        };
        let (mut x, mut b, mut w, mut narrow, mut vx) = (0u8, 0u8, false, false, 0u8);
        let mut op = next(&mut p);
        while matches!(op, 0x66 | 0x67 | 0xF2 | 0xF3 | 0xF0 | 0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65) {
            narrow |= op == 0x66;
            op = next(&mut p);
        }
        if op & 0xF0 == 0x40 {
            x = (op >> 1 & 1) << 3;
            b = (op & 1) << 3;
            w = op & 8 != 0;
            op = next(&mut p);
        }
        let (mut map, mut vector) = (0, false);
        match op {
            0xC5 => {
                next(&mut p);
                map = 1;
                vector = true;
            }
            0xC4 => {
                let v = next(&mut p);
                next(&mut p);
                x = if v & 0x40 == 0 { 8 } else { 0 };
                b = if v & 0x20 == 0 { 8 } else { 0 };
                map = v & 31;
                vector = true;
            }
            0x62 => {
                let v = next(&mut p);
                next(&mut p);
                let q = next(&mut p);
                x = if v & 0x40 == 0 { 8 } else { 0 };
                b = if v & 0x20 == 0 { 8 } else { 0 };
                vx = if q & 8 == 0 { 16 } else { 0 };
                map = v & 7;
                vector = true;
            }
            0x0F => {
                map = 1;
                op = next(&mut p);
                if op == 0x38 || op == 0x3A {
                    map = if op == 0x38 { 2 } else { 3 };
                    op = next(&mut p);
                }
            }
            _ => {}
        }
        if vector {
            op = next(&mut p);
        }
        let modrm = match map {
            0 => match op {
                0x00..=0x3F => op & 7 < 4,
                0x63 | 0x69 | 0x6B | 0x80..=0x8C | 0x8E | 0x8F | 0xC0 | 0xC1 | 0xC6 | 0xC7 | 0xD0..=0xD3 | 0xD8..=0xDF | 0xF6 | 0xF7 | 0xFE | 0xFF => true,
                0xA4..=0xA7 | 0xAA..=0xAF => {
                    put(reg(6));
                    put(reg(7));
                    false
                }
                0xD7 => {
                    put(reg(3).wrapping_add(reg(0) & 255));
                    false
                }
                _ => false, // 8D: lea touches nothing
            },
            1 => !matches!(op, 0x05..=0x0B | 0x0E | 0x19..=0x1F | 0x30..=0x37 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF),
            _ => true,
        };
        if !modrm {
            return;
        }
        let m = next(&mut p);
        let mut address = 0u64;
        if m >> 6 != 3 {
            let mut base = Some((m & 7) | b);
            if m & 7 == 4 {
                let s = next(&mut p);
                base = if m >> 6 == 0 && s & 7 == 5 { None } else { Some((s & 7) | b) };
                let i = (s >> 3 & 7) | x;
                if vector && map == 2 && matches!(op, 0x90..=0x93 | 0xA0..=0xA3 | 0xC6 | 0xC7) {
                    // gathered or scattered places
                    let i = (i | vx) as usize;
                    if i < 16 && !fp.is_null() {
                        for k in 0..2 {
                            put(*(fp.add(160 + 16 * i + 8 * k) as *const u64));
                            put(*(fp.add(576 + 16 * i + 8 * k) as *const u64));
                        }
                    }
                } else if i != 4 {
                    address = reg(i) << (s >> 6);
                }
            } else if m >> 6 == 0 && m & 7 == 5 {
                base = None; // relative to the instruction
            }
            address = address.wrapping_add(base.map_or(0, |r| reg(r)));
            put(address);
        }
        if map == 0 && (op == 0xF6 || op == 0xF7) && m & 0x30 == 0x30 {
            let bits = if op == 0xF6 { 8 } else if w { 64 } else if narrow { 16 } else { 32 };
            let low = |v: u64, n: u32| if n == 64 { v } else { v & ((1 << n) - 1) };
            put(low(reg(0), if bits == 8 { 16 } else { bits }));
            if bits > 8 {
                put(low(reg(2), bits));
            }
            if m >> 6 == 3 {
                put(low(reg((m & 7) | b), bits)); // (high byte registers are not told apart)
            }
        }
    }

    fn mix(cell: &'static std::thread::LocalKey<Cell<u64>>, v: u64) {
        cell.with(|h| h.set((h.get() ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23)));
    }

    extern "C" fn step(_: c_int, _: *mut c_void, context: *mut c_void) {
        // the interrupted registers: uc_mcontext.gregs, uc_mcontext.fpregs
        unsafe {
            let g = (context as usize + 40) as *const u64;
            let rip = *g.add(16);
            N.with(|n| n.set(n.get() + 1));
            mix(&H, rip);
            touched(rip as *const u8, g, *g.add(23) as *const u8, &mut |v| mix(&M, v));
        }
    }

    pub fn traced(f: &mut dyn FnMut()) -> (u64, u64, u64) {
        static INIT: Once = Once::new();
        INIT.call_once(|| {
            let a = Action { handler: step as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
            assert!(unsafe { sigaction(5, &a, std::ptr::null_mut()) } == 0, "no handler");
        });
        f(); // whatever is done only once (feature detection, symbol lookup)
        N.with(|n| n.set(0));
        H.with(|h| h.set(0));
        M.with(|h| h.set(0));
        unsafe {
            std::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq");
            f();
            std::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq");
        }
        (N.with(|n| n.get()), H.with(|h| h.get()), M.with(|h| h.get()))
    }
}
#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
mod sys {
    pub fn traced(f: &mut dyn FnMut()) -> (u64, u64, u64) {
        f();
        (0, 0, 0)
    }
}

fn result(r: (u64, u64, u64)) -> String {
    format!("\"n\":{},\"path\":{},\"mem\":{}", r.0, u64j(r.1), u64j(r.2))
}

#[repr(align(64))]
struct Fixed<const N: usize>([u8; N]);

/// A comparison: a hash with another hash or with a slice, derived from it.
#[inline(never)]
pub fn compare(e: &J) -> String {
    let hl = e.get("hl").n() as usize;
    let k = e.get("k").n();
    let msg: Vec<u8> = (0..40).map(|i| pat(k, i)).collect();
    let a: Hash = Params::new().hash_length(hl).to_state().update(&msg).finalize();
    let mut want = Fixed([0u8; 64]);
    let n = a.as_bytes().len();
    want.0[..n].copy_from_slice(a.as_bytes());
    let i = e.get("i").n() as usize;
    match e.get("kind").s() {
        "copy" => (),
        "flip" => want.0[(i / 8) % n] ^= 1 << (i % 8),
        "not" => want.0[..n].iter_mut().for_each(|x| *x = !*x),
        "zero" => want.0[..n].iter_mut().for_each(|x| *x = 0),
        "other" => (0..n).for_each(|j| want.0[j] = pat(i as i64 + 7, j as i64)),
        "tail" => (i % n..n).for_each(|j| want.0[j] = !want.0[j]),
        "head" => (0..=i % n).for_each(|j| want.0[j] = !want.0[j]),
        _ => panic!("bad op"),
    }
    // the same bytes as a Hash value
    let mut b: Hash = a.clone();
    let p = black_box(&mut b).as_bytes().as_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(want.0.as_ptr(), black_box(p), n) };
    let b = black_box(b);
    let b = if b.as_bytes() == &want.0[..n] { b } else { a.clone() };
    let twin = e.get("f").s() == "eq" || e.get("f").s() == "ne";
    if twin {
        want.0[..n].copy_from_slice(b.as_bytes());
    }
    let slice = &want.0[..n];
    let mut out = false;
    let (x, y, z, o) = (&a, &b, slice, &mut out);
    let r = match e.get("f").s() {
        "eq" => sys::traced(&mut || *black_box(&mut *o) = black_box(x) == black_box(y)),
        "ne" => sys::traced(&mut || *black_box(&mut *o) = black_box(x) != black_box(y)),
        "eqs" => sys::traced(&mut || *black_box(&mut *o) = *black_box(x) == *black_box(z)),
        "nes" => sys::traced(&mut || *black_box(&mut *o) = *black_box(x) != *black_box(z)),
        _ => panic!("bad op"),
    };
    format!(",\"skip\":false,\"va\":{},\"vb\":{},\"res\":{},{}", list(a.as_bytes()), list(slice), out, result(r))
}

/// A whole computation on given secrets: key stream kk, message stream k.
#[inline(never)]
pub fn hash(e: &J) -> String {
    let num = |f: &str| e.get(f).n() as usize;
    let (kl, hl, k, kk) = (num("kl"), num("hl"), num("k") as i64, num("kk") as i64);
    let pieces: Vec<usize> = e.get("pieces").a().iter().map(|x| x.n() as usize).collect();
    let total: usize = pieces.iter().sum();
    assert!(total <= 1600 && kl <= 32 && pieces.len() <= 8);
    // what the traced code reads lies in the same places in every call
    let mut fixed = [0usize; 8];
    fixed[..pieces.len()].copy_from_slice(&pieces);
    let pieces = &fixed[..pieces.len()];
    let mut key = Fixed([0u8; 64]);
    (0..kl).for_each(|i| key.0[i] = pat(kk, i as i64));
    let key = &key.0[..kl];
    thread_local! { static MSG: std::cell::RefCell<Box<[Fixed<1600>; 8]>> = std::cell::RefCell::new(Box::new(std::array::from_fn(|_| Fixed([0; 1600])))); }
    MSG.with(|m| {
        let mut m = m.borrow_mut();
        for (lane, b) in m.iter_mut().enumerate() {
            (0..total).for_each(|i| b.0[i] = pat(k, (i + 2000 * lane) as i64));
        }
        let m: [&[u8]; 8] = std::array::from_fn(|i| &m[i].0[..total]);
        let force = e.get("force").b();
        let mut d = [0u8; 32];
        let o = &mut d;
        let put = |o: &mut [u8; 32], h: &Hash| o[..h.as_bytes().len()].copy_from_slice(h.as_bytes());
        let r = match e.get("kind").s() {
            "S" => sys::traced(&mut || {
                let mut s: State = Params::new().hash_length(hl).key(key).to_state();
                #[cfg(feature = "bench")]
                if force {
                    blake2s_simd::benchmarks::force_portable(&mut s);
                }
                let mut at = 0;
                for n in pieces {
                    s.update(&m[0][at..at + n]);
                    at += n;
                }
                put(o, &black_box(s.finalize()));
            }),
            "T" => sys::traced(&mut || {
                let mut s: blake2sp::State = blake2sp::Params::new().hash_length(hl).key(key).to_state();
                #[cfg(feature = "bench")]
                if force {
                    blake2s_simd::benchmarks::force_portable_blake2sp(&mut s);
                }
                let mut at = 0;
                for n in pieces {
                    s.update(&m[0][at..at + n]);
                    at += n;
                }
                put(o, &black_box(s.finalize()));
            }),
            "u8" => sys::traced(&mut || {
                let mut s: [State; 8] = std::array::from_fn(|_| Params::new().hash_length(hl).key(key).to_state());
                let [a, b, c, d, f, g, h, i] = &mut s;
                let mut at = 0;
                for n in pieces {
                    let p: [&[u8]; 8] = std::array::from_fn(|i| &m[i][at..at + n]);
                    blake2s_simd::update8(a, b, c, d, f, g, h, i, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
                    at += n;
                }
                let hs = black_box(blake2s_simd::finalize8(a, b, c, d, f, g, h, i));
                put(o, &hs[7]);
            }),
            "h8" => sys::traced(&mut || {
                let p = Params::new().hash_length(hl).to_owned();
                let hs = blake2s_simd::hash8(&p, &p, &p, &p, &p, &p, &p, &p, m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]);
                put(o, &black_box(hs)[7]);
            }),
            "e4" => sys::traced(&mut || {
                let p = Params::new().hash_length(hl).key(key).to_owned();
                put(o, &black_box(blake2s_simd::hash4_exact(&p, m[0], m[1], m[2], m[3]))[3]);
            }),
            "e8" => sys::traced(&mut || {
                let p = Params::new().hash_length(hl).key(key).to_owned();
                put(o, &black_box(blake2s_simd::hash8_exact(&p, m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]))[7]);
            }),
            _ => panic!("bad op"),
        };
        let _ = force;
        format!(",\"skip\":false,\"d\":{},{}", list(&d[..hl]), result(r))
    })
}
