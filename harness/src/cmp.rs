//! Direct calls of the compression implementations (blake2s_simd::benchmarks).
use super::{list, pat};
use crate::guard::G;
use crate::json::J;
use blake2s_simd::benchmarks as b;
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
use blake2s_simd::AlignedWords8;
#[cfg(target_arch = "x86")]
use std::arch::x86 as arch;
#[cfg(target_arch = "x86_64")]
use std::arch::x86_64 as arch;

struct Lane {
    h: G<[u32; 8]>,
    m: G<[u8; 64]>,
    t: u64,
    f0: u32,
    f1: u32,
}

fn lane(j: &J, al: Option<(usize, usize)>) -> Lane {
    let g = |k: &str, n: usize| -> Vec<u8> {
        let a = j.get(k).a();
        (0..n as i64).map(|i| pat(a[0].n(), a[1].n() + i)).collect()
    };
    let hb = g("h", 32);
    let mut h = [0u32; 8];
    for i in 0..8 {
        h[i] = u32::from_le_bytes([hb[4 * i], hb[4 * i + 1], hb[4 * i + 2], hb[4 * i + 3]]);
    }
    let mut m = [0u8; 64];
    m.copy_from_slice(&g("m", 64));
    let fl = |k: &str| if j.get(k).b() { !0u32 } else { 0 };
    let (h, m) = match al {
        Some((a, b)) => (G::placed(h, a), G::placed(m, b)),
        None => (G::new(h), G::new(m)),
    };
    Lane { h, m, t: j.get("t").u64(), f0: fl("f0"), f1: fl("f1") }
}

fn words(h: &[u32]) -> String {
    list(h.iter().map(|w| format!("[{},{}]", w >> 16, w & 0xffff)))
}

#[allow(unused_unsafe)]
pub fn run(e: &J) -> String {
    let mut ls: Vec<Lane> = e
        .get("lanes")
        .a()
        .iter()
        .enumerate()
        .map(|(i, l)| lane(l, e.opt("al").map(|a| &a.a()[i]).map(|a| (a.a()[0].n() as usize, a.a()[1].n() as usize))))
        .collect();
    let im = e.get("impl").s();
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        if (im.contains("sse41") && !is_x86_feature_detected!("sse4.1")) || (im.contains("avx2") && !is_x86_feature_detected!("avx2")) {
            return ",\"skip\":true,\"out\":[]".to_string();
        }
    }
    #[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
    {
        if im.contains("sse41") || im.contains("avx2") {
            return ",\"skip\":true,\"out\":[]".to_string();
        }
    }
    macro_rules! eight {
        ($f:path) => {{
            let [l0, l1, l2, l3, l4, l5, l6, l7] = <&mut [Lane; 8]>::try_from(&mut ls[..]).unwrap();
            unsafe {
                $f(
                    &mut l0.h, &mut l1.h, &mut l2.h, &mut l3.h, &mut l4.h, &mut l5.h, &mut l6.h, &mut l7.h, &l0.m, &l1.m, &l2.m,
                    &l3.m, &l4.m, &l5.m, &l6.m, &l7.m, l0.t, l1.t, l2.t, l3.t, l4.t, l5.t, l6.t, l7.t, l0.f0, l1.f0, l2.f0, l3.f0,
                    l4.f0, l5.f0, l6.f0, l7.f0, l0.f1, l1.f1, l2.f1, l3.f1, l4.f1, l5.f1, l6.f1, l7.f1,
                )
            }
        }};
    }
    match im {
        "compress_portable" => {
            for l in &mut ls {
                unsafe { b::compress_portable(&mut l.h, &l.m, l.t, l.f0, l.f1) }
            }
        }
        "compress8_portable" => eight!(b::compress8_portable),
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        "compress_sse41" => {
            for l in &mut ls {
                unsafe { b::compress_sse41(&mut l.h, &l.m, l.t, l.f0, l.f1) }
            }
        }
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        "compress4_sse41" => unsafe {
            use arch::*;
            let v = |f: &dyn Fn(&Lane) -> u32| -> __m128i { std::mem::transmute([f(&ls[0]), f(&ls[1]), f(&ls[2]), f(&ls[3])]) };
            let mut h: [__m128i; 8] = [
                v(&|l| l.h[0]), v(&|l| l.h[1]), v(&|l| l.h[2]), v(&|l| l.h[3]), v(&|l| l.h[4]), v(&|l| l.h[5]), v(&|l| l.h[6]),
                v(&|l| l.h[7]),
            ];
            b::compress4_transposed_sse41(
                &mut h, &ls[0].m, &ls[1].m, &ls[2].m, &ls[3].m, v(&|l| l.t as u32), v(&|l| (l.t >> 32) as u32), v(&|l| l.f0),
                v(&|l| l.f1),
            );
            let o: [[u32; 4]; 8] = std::mem::transmute(h);
            for i in 0..4 {
                for w in 0..8 {
                    ls[i].h[w] = o[w][i];
                }
            }
        },
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        "compress8_avx2" => eight!(b::compress8_avx2),
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        "compress8_transposed_avx2" => unsafe {
            use arch::*;
            let v = |f: &dyn Fn(&Lane) -> u32| -> __m256i {
                let mut a = [0u32; 8];
                for i in 0..8 {
                    a[i] = f(&ls[i]);
                }
                std::mem::transmute(a)
            };
            let mut h: Vec<__m256i> = (0..8).map(|w| v(&|l| l.h[w])).collect();
            let m: Vec<__m256i> =
                (0..16).map(|w| v(&|l| u32::from_le_bytes([l.m[4 * w], l.m[4 * w + 1], l.m[4 * w + 2], l.m[4 * w + 3]]))).collect();
            b::compress8_transposed_all_avx2(
                <&mut [__m256i; 8]>::try_from(&mut h[..]).unwrap(),
                <&[__m256i; 16]>::try_from(&m[..]).unwrap(),
                v(&|l| l.t as u32),
                v(&|l| (l.t >> 32) as u32),
                v(&|l| l.f0),
                v(&|l| l.f1),
            );
            for w in 0..8 {
                let o: [u32; 8] = std::mem::transmute(h[w]);
                for i in 0..8 {
                    ls[i].h[w] = o[i];
                }
            }
        },
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        "compress8_vectorized_avx2" => unsafe {
            let v = |f: &dyn Fn(&Lane) -> u32| -> AlignedWords8 {
                let mut a = [0u32; 8];
                for i in 0..8 {
                    a[i] = f(&ls[i]);
                }
                AlignedWords8(a)
            };
            let mut h = [AlignedWords8([0; 8]); 8];
            for w in 0..8 {
                h[w] = v(&|l| l.h[w]);
            }
            b::compress8_vectorized_avx2(
                &mut h, &ls[0].m, &ls[1].m, &ls[2].m, &ls[3].m, &ls[4].m, &ls[5].m, &ls[6].m, &ls[7].m, &v(&|l| l.t as u32),
                &v(&|l| (l.t >> 32) as u32), &v(&|l| l.f0), &v(&|l| l.f1),
            );
            for w in 0..8 {
                for i in 0..8 {
                    ls[i].h[w] = h[w].0[i];
                }
            }
        },
        _ => panic!("bad op {}", im),
    }
    format!(",\"skip\":false,\"out\":{}", list(ls.iter().map(|l| words(&l.h[..]))))
}
