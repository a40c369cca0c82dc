//! Messages longer than memory, and their reference chaining values.
//!
//! Long content streams repeat every PERIOD bytes; one period is kept in a file in memory and
//! mapped over and over at consecutive addresses, so that slices of more than 4 GiB are real
//! slices but cost no memory.
use crate::exec::pat;
use crate::json::J;
use std::collections::HashMap;
use std::sync::Mutex;

pub const PERIOD: usize = 1 << 20;
#[cfg(target_pointer_width = "64")]
const UNIT: usize = 4 << 20;
#[cfg(target_pointer_width = "64")]
const REGION: usize = (4usize << 30) + (64 << 20);

static MAPS: Mutex<Option<HashMap<i64, &'static [u8]>>> = Mutex::new(None);

#[cfg(all(target_os = "linux", target_pointer_width = "64"))]
fn map(k: i64) -> &'static [u8] {
    use std::os::raw::{c_char, c_int, c_void};
    extern "C" {
        fn memfd_create(name: *const c_char, flags: u32) -> c_int;
        fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    }
    use std::io::Write;
    use std::os::unix::io::FromRawFd;
    unsafe {
        let fd = memfd_create(b"long\0".as_ptr() as *const c_char, 0);
        assert!(fd >= 0, "no memfd");
        let mut f = std::fs::File::from_raw_fd(fd);
        let unit: Vec<u8> = (0..UNIT).map(|i| pat(k, (i % PERIOD) as i64)).collect();
        f.write_all(&unit).expect("no room for a stream");
        let base = mmap(std::ptr::null_mut(), REGION, 1, 0x4022, -1, 0) as usize;
        assert!(base != !0, "no address space");
        for i in 0..REGION / UNIT {
            let p = mmap((base + i * UNIT) as *mut c_void, UNIT, 1, 0x8011, fd, 0) as usize;
            assert!(p == base + i * UNIT, "no mapping");
        }
        std::slice::from_raw_parts(base as *const u8, REGION)
    }
}

#[cfg(not(all(target_os = "linux", target_pointer_width = "64")))]
fn map(_: i64) -> &'static [u8] {
    panic!("bad op")
}

fn stream(k: i64) -> &'static [u8] {
    let mut m = MAPS.lock().unwrap_or_else(|e| e.into_inner());
    m.get_or_insert_with(HashMap::new).entry(k).or_insert_with(|| map(k))
}

/// [stream, offset blocks, offset rest, length blocks, length rest]
pub fn slice(g: &J) -> &'static [u8] {
    let a: Vec<usize> = g.a().iter().map(|x| x.n() as usize).collect();
    let start = (64 * a[1] + a[2]) % PERIOD;
    &stream(a[0] as i64)[start..start + 64 * a[3] + a[4]]
}

// ------------------------------------------------------ reference chains
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

#[inline(always)]
fn g(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(12);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(8);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(7);
}

#[inline(always)]
fn step(h: &mut [u32; 8], m: &[u32; 16], t: u64) {
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    macro_rules! round {
        ($r:expr) => {{
            const S: [usize; 16] = SIGMA[$r];
            g(&mut v, 0, 4, 8, 12, m[S[0]], m[S[1]]);
            g(&mut v, 1, 5, 9, 13, m[S[2]], m[S[3]]);
            g(&mut v, 2, 6, 10, 14, m[S[4]], m[S[5]]);
            g(&mut v, 3, 7, 11, 15, m[S[6]], m[S[7]]);
            g(&mut v, 0, 5, 10, 15, m[S[8]], m[S[9]]);
            g(&mut v, 1, 6, 11, 12, m[S[10]], m[S[11]]);
            g(&mut v, 2, 7, 8, 13, m[S[12]], m[S[13]]);
            g(&mut v, 3, 4, 9, 14, m[S[14]], m[S[15]]);
        }};
    }
    round!(0);
    round!(1);
    round!(2);
    round!(3);
    round!(4);
    round!(5);
    round!(6);
    round!(7);
    round!(8);
    round!(9);
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

fn block(bytes: &[u8]) -> [u32; 16] {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([bytes[4 * i], bytes[4 * i + 1], bytes[4 * i + 2], bytes[4 * i + 3]]);
    }
    m
}

/// One chain: {"kind": "plain" | "keyed" | "leaf", "k": stream, "l": leaf number, "key": bytes};
/// the values before and after each of the (increasing) blocks js.
fn chain(c: &J, js: &[u64]) -> String {
    let (kind, k, l) = (c.get("kind").s(), c.get("k").n(), c.get("l").n() as usize);
    let key = c.get("key").bytes();
    let one: Vec<u8> = (0..PERIOD).map(|i| pat(k, i as i64)).collect();
    let words: Vec<[u32; 16]> = one.chunks(64).map(block).collect();
    let nb = words.len() as u64;
    let mut h = IV;
    h[0] ^= 32 ^ ((key.len() as u32) << 8) ^ if kind == "leaf" { 8 << 16 | 2 << 24 } else { 1 << 16 | 1 << 24 };
    if kind == "leaf" {
        h[2] ^= l as u32;
        h[3] ^= 32 << 24;
    }
    let mut kb = [0u8; 64];
    kb[..key.len()].copy_from_slice(&key);
    let kw = block(&kb);
    let shift = if key.is_empty() { 0 } else { 1 };
    let mut out = Vec::new();
    let mut want = js.iter().peekable();
    let mut j = 0u64;
    while let Some(&&w) = want.peek() {
        let before = h;
        let m = if j < shift {
            &kw
        } else if kind == "leaf" {
            &words[((8 * (j - shift) + l as u64) % nb) as usize]
        } else {
            &words[((j - shift) % nb) as usize]
        };
        step(&mut h, m, 64 * (j + 1));
        if j == w {
            let f = |x: &[u32; 8]| crate::exec::list(x.iter().map(|y| format!("[{},{}]", y >> 16, y & 0xffff)));
            out.push(format!("{{\"j\":{},\"h\":{},\"g\":{}}}", j, f(&before), f(&h)));
            want.next();
        }
        j += 1;
    }
    crate::exec::list(out)
}

pub fn witness(e: &J) -> String {
    let js: Vec<u64> = e.get("js").a().iter().map(|x| x.n() as u64).collect();
    let cs = e.get("chains").a();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res: Mutex<Vec<String>> = Mutex::new(vec![String::new(); cs.len()]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= cs.len() {
                    return;
                }
                let r = chain(&cs[i], &js);
                res.lock().unwrap()[i] = r;
            });
        }
    });
    let r = res.into_inner().unwrap();
    format!(",\"links\":{}", crate::exec::list(r))
}
