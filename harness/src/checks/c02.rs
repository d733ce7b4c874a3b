//! C02: elements stay in range and operations inside memory. The same workload runs in ordinary and
//! in sanitized builds; a sanitizer report ends the process.

use crate::cx::{Cx, HARNESS, R};
use crate::ensure;
use ndarray::{Array1, Array2};
use rand::seq::SliceRandom;
use rand::Rng;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use rayon::prelude::*;
use scalable_mpc::math::galois::GF;
use scalable_mpc::math::{lagrange_coeffs, rs_gen_mat, super_inv_matrix};
use scalable_mpc::sharing::PackedSharing;
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};

macro_rules! dispatch {
    ($w:expr, $fun:ident, $args:tt, $($n:literal)*) => {
        match $w { $($n => dispatch!(@call $fun, $n, $args),)* _ => unreachable!() }
    };
    (@call $fun:ident, $n:literal, ($($args:expr),*)) => {
        $fun::<$n>($($args),*)
    };
}

fn in_range<const V: u8>(x: GF<V>, what: impl FnOnce() -> String) -> R<GF<V>> {
    let v: u32 = x.into();
    ensure!(
        (v as u64) < 1u64 << V,
        "width {}: {} gives {}, which is no field element",
        V,
        what(),
        v
    );
    Ok(x)
}

/// `None` if the input is rejected.
fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    crate::cx::clear_panics();
    r
}

/// Every operator on a pair; results must be elements. Returns them.
fn combine<const V: u8>(a: GF<V>, b: GF<V>) -> R<Vec<GF<V>>> {
    let mut res = Vec::new();
    let show = |op: &str| format!("{} {} {}", u32::from(a), op, u32::from(b));
    macro_rules! op {
        ($op:tt, $opa:tt) => {{
            for form in 0..6 {
                let r = attempt(|| {
                    let mut v = a;
                    match form {
                        0 => a $op b,
                        1 => a $op &b,
                        2 => &a $op b,
                        3 => &a $op &b,
                        4 => { v $opa b; v }
                        _ => { v $opa &b; v }
                    }
                });
                if let Some(x) = r {
                    res.push(in_range(x, || show(stringify!($op)))?);
                } else {
                    ensure!(
                        stringify!($op) == "/" && u32::from(b) == 0,
                        "width {}: {} is refused",
                        V,
                        show(stringify!($op))
                    );
                }
            }
        }};
    }
    op!(+, +=);
    op!(-, -=);
    op!(*, *=);
    op!(/, /=);
    Ok(res)
}

fn values<const V: u8>(rng: &mut ChaCha12Rng, num: usize) -> Vec<u32> {
    let mut v = vec![0, 1, 2, 3, u32::MAX, u32::MAX - 1];
    for b in 0..32 {
        for d in -2i64..=2 {
            let x = (1i64 << b) + d;
            if (0..=u32::MAX as i64).contains(&x) {
                v.push(x as u32);
            }
        }
    }
    for _ in 0..num {
        let r: u32 = rng.gen();
        v.push(r >> rng.gen_range(0..32));
    }
    // Just above the order and its multiples.
    for k in 1..8u64 {
        for d in 0..3u64 {
            v.push(((k << V) + d).min(u32::MAX as u64) as u32);
        }
    }
    v.shuffle(rng);
    v
}

fn convert<const V: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    GF::<V>::init().map_err(|e| e.to_string())?;
    let mut pool: Vec<GF<V>> = vec![GF::ZERO, GF::ONE];
    let vals = values::<V>(rng, 60);
    let mut rejected = 0;
    for &v in &vals {
        match attempt(|| GF::<V>::from(v)) {
            Some(x) => {
                in_range(x, || format!("converting {}", v))?;
                if (v as u64) < 1u64 << V {
                    ensure!(
                        u32::from(x) == v,
                        "width {}: {} is converted to {}",
                        V,
                        v,
                        u32::from(x)
                    );
                }
                pool.push(x);
            }
            None => {
                ensure!(
                    v as u64 >= 1u64 << V,
                    "width {}: the element {} is refused",
                    V,
                    v
                );
                rejected += 1;
            }
        }
    }
    let mut ops = 0;
    for _ in 0..400 {
        let (a, b) = (*pool.choose(rng).unwrap(), *pool.choose(rng).unwrap());
        let r = combine(a, b)?;
        ops += r.len();
        if rng.gen_bool(0.3) {
            pool.push(*r.choose(rng).unwrap());
        }
    }
    cx.count("integers converted", vals.len() as u64);
    cx.count("integers refused", rejected);
    cx.count("operations", ops as u64);
    cx.sample("conversion", 3, || json!({"width": V, "from": &vals[..6]}));
    cx.eval((V, vals), true);
    Ok(())
}

fn decode<const V: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    GF::<V>::init().map_err(|e| e.to_string())?;
    let len = (V as usize + 7) / 8;
    let mut pool: Vec<GF<V>> = Vec::new();
    let mut tried: Vec<Vec<u8>> = Vec::new();
    for i in 0..200 {
        // Top of the encoding, random, short and long strings.
        let k = match i % 4 {
            0 | 1 => len,
            2 => rng.gen_range(0..=len),
            _ => rng.gen_range(0..10),
        };
        let mut b: Vec<u8> = (0..k).map(|_| rng.gen()).collect();
        if rng.gen() {
            b.iter_mut()
                .for_each(|x| *x = *[0xff, 0xfe, 0x80, 0x7f].choose(rng).unwrap());
        }
        if i % 8 == 0 {
            b = bincode::serialize(&GF::<V>::rand(rng)).map_err(|e| e.to_string())?;
        }
        if let Some(Ok(x)) = attempt(|| bincode::deserialize::<GF<V>>(&b)) {
            pool.push(in_range(x, || format!("deserialising {:?}", b))?);
        }
        // Another format, where the number of entries and their size are up to the text.
        let text = json!(b.iter().map(|&x| x as u32 + (rng.gen_bool(0.02) as u32) * 256).collect::<Vec<_>>()).to_string();
        if let Some(Ok(x)) = attempt(|| serde_json::from_str::<GF<V>>(&text)) {
            pool.push(in_range(x, || format!("deserialising {}", text))?);
        }
        // Vectors whose announced length is wrong.
        let n = match rng.gen_range(0..4) {
            0 => rng.gen::<u64>(),
            1 => 1u64 << rng.gen_range(0..64),
            _ => rng.gen_range(0..6),
        };
        let mut v = n.to_le_bytes().to_vec();
        v.extend(&b);
        if let Some(Ok(xs)) = attempt(|| bincode::deserialize::<Vec<GF<V>>>(&v)) {
            ensure!(
                xs.len() as u64 == n,
                "width {}: a vector announced with {} elements has {}",
                V,
                n,
                xs.len()
            );
            for x in xs {
                pool.push(in_range(x, || format!("deserialising {:?}", v))?);
            }
        }
        tried.push(b);
    }
    ensure!(!pool.is_empty(), "width {}: nothing is accepted", V);
    for _ in 0..200 {
        combine(*pool.choose(rng).unwrap(), *pool.choose(rng).unwrap())?;
    }
    cx.sample("byte strings", 3, || json!({"width": V, "bytes": &tried[..4]}));
    cx.count("byte strings", tried.len() as u64 * 3);
    cx.count("byte strings accepted", pool.len() as u64);
    cx.eval((V, tried), true);
    Ok(())
}

/// Every entry of the tables, and every sum and difference of logarithms at the ends.
fn table<const V: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    GF::<V>::init().map_err(|e| e.to_string())?;
    let order = 1u32 << V;
    let num = if V <= 7 {
        for a in 0..order {
            for b in 0..order {
                combine(GF::<V>::from(a), GF::<V>::from(b))?;
            }
        }
        order as u64 * order as u64
    } else {
        let x = GF::<V>::from(2);
        let mut y = GF::<V>::ONE;
        // Powers: logarithms 0, 1, 2, ...; with the one before the wrap and the first ones.
        let top = GF::<V>::ONE / x;
        let steps = (order - 1).min(1 << 16);
        for i in 0..steps {
            let p = [y * top, y / x, y * y, top / y, x / y];
            for z in p {
                in_range(z, || format!("an operation on the {}-th power of 2", i))?;
            }
            y = y * x;
        }
        for _ in 0..steps {
            let a = GF::<V>::from(rng.gen_range(0..order));
            let b = GF::<V>::from(rng.gen_range(0..order));
            in_range(a * b, || format!("{:?} * {:?}", a, b))?;
            if u32::from(b) != 0 {
                in_range(a / b, || format!("{:?} / {:?}", a, b))?;
            }
        }
        steps as u64 * 7
    };
    cx.count("table operations", num);
    cx.eval((V, rng.gen::<u64>()), true);
    Ok(())
}

/// Operations of many elements from many threads, with initialisations in between.
fn threads<const V: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    GF::<V>::init().map_err(|e| e.to_string())?;
    let l = rng.gen_range(1..4u32);
    let d = l - 1 + rng.gen_range(0..3);
    let lo = (d + 1).max(l);
    let n = rng.gen_range(lo..lo + 4).max(2);
    if n + l >= 1 << V.min(20) {
        return Ok(());
    }
    let pos = PackedSharing::<V>::default_pos(n, l);
    let pss = PackedSharing::<V>::new(d, n, &pos);
    let seeds: Vec<u64> = (0..24).map(|_| rng.gen()).collect();
    let r: R<Vec<()>> = seeds
        .par_iter()
        .map(|&s| -> R {
            let mut rng = ChaCha12Rng::seed_from_u64(s);
            if s % 3 == 0 {
                GF::<V>::init().map_err(|e| e.to_string())?;
                GF::<9>::init().map_err(|e| e.to_string())?;
                let a = GF::<9>::rand(&mut rng);
                combine(a, GF::<9>::ONE)?;
            }
            let secrets = Array1::from_shape_simple_fn(l as usize, || GF::<V>::rand(&mut rng));
            let shares = Array1::from_vec(pss.share(secrets.view(), &mut rng));
            let back = pss.semihon_recon(shares.view());
            for (x, y) in back.iter().zip(&secrets) {
                in_range(*x, || "reconstruction".into())?;
                ensure!(x == y, "width {}: reconstruction differs under concurrency", V);
            }
            Ok(())
        })
        .collect();
    r?;
    // Matrices whose entries are computed in parallel.
    let k = rng.gen_range(1..5usize);
    let m = k + rng.gen_range(0..5usize);
    if (k + m) < 1 << V.min(20) {
        let mats: Vec<Array2<GF<V>>> = vec![super_inv_matrix::<V>(m, k), rs_gen_mat::<V>(k, m)];
        for x in mats.iter().flat_map(|a| a.iter()) {
            in_range(*x, || "a matrix".into())?;
        }
        let at: Vec<GF<V>> = (0..m as u32).map(GF::from).collect();
        let to: Vec<GF<V>> = (0..k as u32).map(|i| GF::from(i + m as u32)).collect();
        for x in lagrange_coeffs(&at, &to).iter() {
            in_range(*x, || "an interpolation weight".into())?;
        }
    }
    cx.count("sharings from many threads", 24);
    cx.eval((V, n, d, l, seeds), true);
    Ok(())
}

/// Fresh processes, in which initialisation itself is concurrent.
fn fresh(cx: &mut Cx, rng: &mut ChaCha12Rng, idx: u64) -> R {
    let exe = std::env::current_exe().map_err(|e| format!("{}{}", HARNESS, e))?;
    let mode = if idx / 4 % 4 == 3 { "seq" } else { "threads" };
    let seed: u64 = rng.gen();
    let out = Command::new(exe)
        .args(["child", "c01", mode, &seed.to_string(), "18"])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("{}{}", HARNESS, e))?;
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    ensure!(
        out.status.code().is_some() || err.contains("Sanitizer") || !is_kill(&out.status),
        "{}helper killed",
        HARNESS
    );
    ensure!(
        out.status.success(),
        "a fresh process ({}, seed {}) ends with {}: {} {}",
        mode,
        seed,
        out.status,
        text.chars().take(300).collect::<String>(),
        err.lines()
            .filter(|l| l.contains("Sanitizer") || l.trim_start().starts_with('#'))
            .take(8)
            .map(|l| l.trim().to_string())
            .collect::<Vec<_>>()
            .join(" | ")
    );
    cx.count("fresh processes", 1);
    cx.eval((mode, seed), true);
    Ok(())
}

fn is_kill(s: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(s.signal(), Some(9) | Some(15))
}

pub fn run(cx: &mut Cx) {
    cx.rule = "every width 1 to 22 (whole tables up to 20): conversions, byte strings, operations; initialisation histories in fresh processes; every case counted".into();
    cx.cases("convert", cx.amount(960, 9600), |cx, idx, rng| {
        let v = 1 + (idx / 4 % 22) as u8;
        dispatch!(v, convert, (cx, rng), 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22)
    });
    cx.cases("decode", cx.amount(960, 9600), |cx, idx, rng| {
        let v = 1 + (idx / 4 % 22) as u8;
        dispatch!(v, decode, (cx, rng), 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22)
    });
    cx.cases("table", cx.amount(160, 800), |cx, idx, rng| {
        let v = 1 + (idx / 4 % 20) as u8;
        dispatch!(v, table, (cx, rng), 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20)
    });
    cx.cases("threads", cx.amount(1200, 12000), |cx, idx, rng| {
        let v = 4 + (idx / 4 % 15) as u8;
        dispatch!(v, threads, (cx, rng), 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18)
    });
    cx.cases("fresh", cx.amount(120, 1200), |cx, idx, rng| {
        fresh(cx, rng, idx)
    });
}
