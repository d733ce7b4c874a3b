//! C01: field arithmetic against the reference, all operator forms, all widths, any init order.

use crate::cx::{Cx, HARNESS, R};
use crate::ensure;
use crate::refgf::RefField;
use ndarray::{Array1, Array2};
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::galois::GF;
use serde_json::json;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

/// All operator forms on one pair.
pub fn pair<const W: u8>(f: &RefField, a: u32, b: u32) -> R {
    let x = GF::<W>::from(a);
    let y = GF::<W>::from(b);
    ensure!(
        u32::from(x) == a && u32::from(y) == b,
        "width {}: conversion of {} or {} changes the value",
        W,
        a,
        b
    );
    macro_rules! forms {
        ($op:tt, $opa:tt) => {{
            let mut v1 = x;
            v1 $opa y;
            let mut v2 = x;
            v2 $opa &y;
            [x $op y, x $op &y, &x $op y, &x $op &y, v1, v2]
        }};
    }
    let add = forms!(+, +=);
    let sub = forms!(-, -=);
    let mul = forms!(*, *=);
    let names = ["v.v", "v.&v", "&v.v", "&v.&v", "v=v", "v=&v"];
    let m = f.mul_slow(a, b);
    for i in 0..6 {
        for (op, got, want) in [("+", add[i], a ^ b), ("-", sub[i], a ^ b), ("*", mul[i], m)] {
            ensure!(
                u32::from(got) == want,
                "width {}: {} {} {} (form {}) = {}, expected {}",
                W,
                a,
                op,
                b,
                names[i],
                u32::from(got),
                want
            );
        }
    }
    if b != 0 {
        let div = forms!(/, /=);
        for i in 0..6 {
            let q: u32 = div[i].into();
            ensure!(
                q < f.order && f.mul_slow(q, b) == a,
                "width {}: {} / {} (form {}) = {}, which times {} is not {}",
                W,
                a,
                b,
                names[i],
                q,
                b,
                a
            );
        }
    }
    Ok(())
}

fn interesting<G: Rng>(rng: &mut G, order: u32, w: u32) -> u32 {
    let v = match rng.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => order - 1,
        3 => 1 << rng.gen_range(0..w),
        4 => (1u32 << rng.gen_range(0..w)).wrapping_sub(1),
        5 => (1u32 << rng.gen_range(0..w)).wrapping_add(1),
        _ => rng.gen_range(0..order),
    };
    v % order
}

fn arrays<const W: u8, G: Rng>(f: &RefField, rng: &mut G) -> R {
    let (m, k, n) = (
        rng.gen_range(1..20),
        rng.gen_range(0..40),
        rng.gen_range(1..20),
    );
    let a: Vec<Vec<u32>> = (0..m)
        .map(|_| (0..k).map(|_| interesting(rng, f.order, f.w)).collect())
        .collect();
    let b: Vec<Vec<u32>> = (0..k)
        .map(|_| (0..n).map(|_| interesting(rng, f.order, f.w)).collect())
        .collect();
    let aa = Array2::from_shape_fn((m, k), |(i, j)| GF::<W>::from(a[i][j]));
    let bb = Array2::from_shape_fn((k, n), |(i, j)| GF::<W>::from(b[i][j]));
    let cc = aa.dot(&bb);
    for i in 0..m {
        for j in 0..n {
            let want = (0..k).fold(0, |acc, x| acc ^ f.mul_slow(a[i][x], b[x][j]));
            ensure!(
                u32::from(cc[[i, j]]) == want,
                "width {}: entry ({},{}) of a {}x{} by {}x{} product is {}, expected {}",
                W,
                i,
                j,
                m,
                k,
                k,
                n,
                u32::from(cc[[i, j]]),
                want
            );
        }
    }
    let v: Array1<GF<W>> = aa.row(0).to_owned();
    let s: u32 = v.sum().into();
    ensure!(
        s == a[0].iter().fold(0, |x, y| x ^ y),
        "width {}: array sum",
        W
    );
    let w = &v + &v;
    ensure!(
        w.iter().all(|&x| u32::from(x) == 0),
        "width {}: x + x is not zero in array form",
        W
    );
    Ok(())
}

fn width_case<const W: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng, part: u64, parts: u64) -> R {
    let f = RefField::discover::<W>()?;
    ensure!(
        GF::<W>::ORDER == f.order && u32::from(GF::<W>::ZERO) == 0 && u32::from(GF::<W>::ONE) == 1,
        "width {}: constants",
        W
    );
    if W <= 8 {
        for a in 0..f.order {
            if a as u64 % parts != part {
                continue;
            }
            for b in 0..f.order {
                pair::<W>(&f, a, b)?;
            }
            cx.evals_bulk((W, a), f.order as u64);
        }
    } else {
        let num = cx.amount(48000, 800000);
        for _ in 0..num {
            let a = interesting(rng, f.order, f.w);
            let b = interesting(rng, f.order, f.w);
            pair::<W>(&f, a, b)?;
            cx.eval((W, a, b), a > 1 && b > 1);
        }
        // Every nonzero element times its own inverse, sampled densely.
        let step = rng.gen_range(1..40u32) | 1;
        let mut a = rng.gen_range(1..f.order);
        for _ in 0..cx.amount(48000, 800000) {
            a = (a.wrapping_add(step * 37)) % f.order;
            if a != 0 {
                let inv = GF::<W>::ONE / GF::<W>::from(a);
                ensure!(
                    f.mul_slow(inv.into(), a) == 1,
                    "width {}: 1/{} = {}",
                    W,
                    a,
                    u32::from(inv)
                );
            }
            cx.eval((W, a, "inv"), a > 1);
        }
        cx.count("inverse checks", cx.amount(48000, 800000));
    }
    for _ in 0..6 {
        arrays::<W, _>(&f, rng)?;
        cx.count("array products", 1);
    }
    cx.count(&format!("width {:02} parts", W), 1);
    cx.sample(
        "width",
        3,
        || json!({"w": W, "modulus": f.modulus, "part": part}),
    );
    uniform::<W>(cx, rng)
}

/// Random elements cover exactly the field, uniformly.
fn uniform<const W: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    let order = GF::<W>::ORDER;
    let num = cx.amount(20000, 100000) as u32;
    let mut ones = vec![0u64; W as usize];
    let mut hist = [0u64; 16];
    let shift = (W as u32).saturating_sub(4);
    let mut seen_small = std::collections::HashSet::new();
    let mut src = ChaCha12Rng::seed_from_u64(rng.gen());
    for _ in 0..num {
        let v: u32 = GF::<W>::rand(&mut src).into();
        ensure!(v < order, "width {}: random element {} out of range", W, v);
        for (i, o) in ones.iter_mut().enumerate() {
            *o += (v >> i & 1) as u64;
        }
        hist[(v >> shift) as usize & 15] += 1;
        if W <= 8 {
            seen_small.insert(v);
        }
    }
    if W <= 8 {
        ensure!(
            seen_small.len() == order as usize,
            "width {}: only {} of {} elements ever sampled in {} draws",
            W,
            seen_small.len(),
            order,
            num
        );
    }
    for (i, &o) in ones.iter().enumerate() {
        let z = (o as f64 - num as f64 / 2.0) / (num as f64 / 4.0).sqrt();
        ensure!(
            z.abs() < 7.5,
            "width {}: bit {} of random elements is set {} of {} times",
            W,
            i,
            o,
            num
        );
        cx.stat(&format!("w{} bit{}", W, i), num as f64, o as f64, 0.5, 0.25);
    }
    if W >= 4 {
        for (i, &o) in hist.iter().enumerate() {
            let p = 1.0 / 16.0;
            let z = (o as f64 - num as f64 * p) / (num as f64 * p * (1.0 - p)).sqrt();
            ensure!(
                z.abs() < 7.5,
                "width {}: random elements starting with {:04b} occur {} of {} times",
                W,
                i,
                o,
                num
            );
        }
    }
    cx.count("random elements", num as u64);
    Ok(())
}

macro_rules! dispatch {
    ($w:expr, $fun:ident, $args:tt, $($n:literal)*) => {
        match $w { $($n => dispatch!(@call $fun, $n, $args),)* _ => unreachable!() }
    };
    (@call $fun:ident, $n:literal, ($($args:expr),*)) => {
        $fun::<$n>($($args),*)
    };
}

fn by_width(cx: &mut Cx, w: u8, rng: &mut ChaCha12Rng, part: u64, parts: u64) -> R {
    dispatch!(w, width_case, (cx, rng, part, parts), 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24)
}

/// Every sum and every difference of discrete logarithms that the field admits.
fn log_sums<const W: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    let f = RefField::discover::<W>()?;
    let mut pw: Vec<u32> = vec![1];
    let x = if W == 1 { 1 } else { 2 };
    loop {
        let v = f.mul_slow(*pw.last().unwrap(), x);
        if v == 1 {
            break;
        }
        pw.push(v);
    }
    let n = pw.len() as u64;
    for s in 0..=(2 * (n - 1)) {
        let lo = s.saturating_sub(n - 1);
        let hi = s.min(n - 1);
        let i = rng.gen_range(lo..=hi);
        let (a, b) = (pw[i as usize], pw[(s - i) as usize]);
        let got: u32 = (GF::<W>::from(a) * GF::<W>::from(b)).into();
        let want = pw[(s % n) as usize];
        ensure!(
            got == want,
            "width {}: {} * {} = {}, expected {}",
            W,
            a,
            b,
            got,
            want
        );
        // Difference i - j = s - (n - 1).
        let j = rng.gen_range((n - 1).saturating_sub(s)..=(2 * (n - 1) - s).min(n - 1));
        let i = s + j - (n - 1);
        let (a, b) = (pw[i as usize], pw[j as usize]);
        let got: u32 = (GF::<W>::from(a) / GF::<W>::from(b)).into();
        let want = pw[((i + n - j) % n) as usize];
        ensure!(
            got == want,
            "width {}: {} / {} = {}, expected {}",
            W,
            a,
            b,
            got,
            want
        );
    }
    cx.evals_bulk((W, "logs"), 2 * (2 * n - 1));
    cx.count("logarithm sums and differences", 2 * (2 * n - 1));
    Ok(())
}

fn log_sums_by_width(cx: &mut Cx, w: u8, rng: &mut ChaCha12Rng) -> R {
    dispatch!(w, log_sums, (cx, rng), 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24)
}

pub fn run(cx: &mut Cx) {
    cx.rule = "operand pairs: all pairs for widths up to 8, boundary-biased random pairs above; \
        a case is non-trivial if both operands differ from 0 and 1 (bulk rows of exhaustive widths \
        count once); plus one fresh process per initialisation history"
        .into();
    cx.assumptions.push(
        "the reference modulus is read off one product per width and checked irreducible".into(),
    );
    let max_w = cx.amount(22, 24);
    let parts = 4;
    cx.cases("arith", max_w * parts, |cx, idx, rng| {
        // Interleave so every shard sees every width, in a shard-specific order.
        let w = 1 + ((idx / parts + idx % parts * 7) % max_w) as u8;
        by_width(cx, w, rng, idx % parts, parts)
    });
    cx.cases("logs", max_w, |cx, idx, rng| {
        log_sums_by_width(cx, (max_w - idx) as u8, rng)
    });
    let histories = cx.amount(40, 400);
    cx.cases("init", histories, |cx, idx, rng| {
        let mode = match idx % 8 {
            0 => "limit",
            1..=3 => "seq",
            _ => "threads",
        };
        let seed: u64 = rng.gen();
        let max = if cx.thorough() { 22 } else { 20 };
        run_child(cx, mode, seed, max)
    });
    // Widths with large tables, one fresh process each.
    let top = match (cx.profile.as_str(), cx.thorough()) {
        ("release", true) => 29,
        ("release", false) => 28,
        _ => 26,
    };
    cx.cases("wide", cx.amount(top - 22, top - 22), |cx, idx, rng| {
        let w = 23 + idx as u8;
        // Tables take 16 bytes per element.
        if mem_available() < (16 << w) + (6 << 30) {
            cx.count("widths skipped for lack of memory", 1);
            return Ok(());
        }
        let seed: u64 = rng.gen();
        run_child(cx, "wide", seed, w)
    });
}

fn mem_available() -> u64 {
    let text = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let line = text.lines().find(|l| l.starts_with("MemAvailable:"));
    line.and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok())
        .unwrap_or(0)
        * 1024
}

fn run_child(cx: &mut Cx, mode: &str, seed: u64, max: u8) -> R {
    let exe = std::env::current_exe().map_err(|e| format!("{}{}", HARNESS, e))?;
    let out = Command::new(exe)
        .args(["child", "c01", mode, &seed.to_string(), &max.to_string()])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("{}{}", HARNESS, e))?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    cx.count(&format!("fresh processes ({})", mode), 1);
    cx.eval((mode, seed), true);
    if let Some(l) = text.lines().find(|l| l.starts_with("OK ")) {
        let c: u64 = l[3..].trim().parse().unwrap_or(0);
        cx.count("operations checked in fresh processes", c);
        cx.sample(
            "history",
            2,
            || json!({"mode": mode, "seed": seed, "ops": c}),
        );
        return Ok(());
    }
    if text.contains(HARNESS) {
        return Err(text);
    }
    if out.status.signal() == Some(libc::SIGKILL) {
        return Err(format!("{}child process was killed", HARNESS));
    }
    let msg: String = text.chars().take(600).collect();
    Err(format!(
        "initialisation history ({}, seed {}): {:?} {}",
        mode, seed, out.status, msg
    ))
}

fn one_width<const W: u8>(rng: &mut ChaCha12Rng, num: u32) -> R<u64> {
    GF::<W>::init().map_err(|e| format!("width {}: init: {}", W, e))?;
    let f = RefField::discover::<W>()?;
    for _ in 0..num {
        let a = interesting(rng, f.order, f.w);
        let b = interesting(rng, f.order, f.w);
        pair::<W>(&f, a, b)?;
        let v: u32 = GF::<W>::rand(rng).into();
        ensure!(v < f.order, "width {}: random element {}", W, v);
    }
    let mut top = false;
    for _ in 0..200 {
        top |= u32::from(GF::<W>::rand(rng)) >> (W - 1) & 1 == 1;
    }
    ensure!(
        top,
        "width {}: upper half of the field never sampled in 200 draws",
        W
    );
    Ok(num as u64)
}

fn any_width(w: u8, rng: &mut ChaCha12Rng, num: u32) -> R<u64> {
    dispatch!(w, one_width, (rng, num), 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29)
}

fn child_body(mode: &str, seed: u64, max: u8) -> R<u64> {
    let mut rng = ChaCha12Rng::seed_from_u64(seed);
    match mode {
        "seq" => {
            let mut ws: Vec<u8> = (1..=max).collect();
            ws.shuffle(&mut rng);
            ws.truncate(8);
            let mut ops = 0;
            for round in 0..2 {
                for &w in &ws {
                    ops += any_width(w, &mut rng, 300)?;
                }
                if round == 0 {
                    ws.shuffle(&mut rng);
                }
            }
            Ok(ops)
        }
        "wide" => any_width(max, &mut rng, 60000),
        "threads" => {
            // Many threads initialise few widths at the same moment and use them immediately.
            let mut ws: Vec<u8> = (1..=max).collect();
            ws.shuffle(&mut rng);
            ws.truncate(rng.gen_range(1..=4));
            if rng.gen() {
                ws[0] = 18;
            }
            let barrier = std::sync::Arc::new(std::sync::Barrier::new(8));
            let handles: Vec<_> = (0..8u64)
                .map(|i| {
                    let w = ws[i as usize % ws.len()];
                    let b = barrier.clone();
                    let s: u64 = rng.gen();
                    std::thread::spawn(move || {
                        let mut rng = ChaCha12Rng::seed_from_u64(s);
                        b.wait();
                        match w {
                            18 => {
                                GF::<18>::init().map_err(|e| e.to_string())?;
                            }
                            _ => {}
                        }
                        any_width(w, &mut rng, 400)
                    })
                })
                .collect();
            let mut ops = 0;
            for h in handles {
                ops += h.join().map_err(|_| crate::cx::panics())??;
            }
            Ok(ops)
        }
        "limit" => {
            // Initialisation under memory pressure and for unsupported widths: success must mean
            // usable arithmetic.
            let mut ops = 0;
            if GF::<31>::init().is_ok() {
                let a = GF::<31>::from(3);
                ensure!(
                    u32::from(a * GF::<31>::ONE) == 3,
                    "width 31 reports success but does not work"
                );
            }
            let used = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split(' ').next().and_then(|v| v.parse::<u64>().ok()))
                .ok_or(format!("{}statm", HARNESS))?
                * 4096;
            // Width 24 needs 64 MiB for one table and 192 MiB for the other.
            let slack = [40u64, 100, 200][rng.gen_range(0..3)] << 20;
            let lim = libc::rlimit {
                rlim_cur: used + slack,
                rlim_max: libc::RLIM_INFINITY,
            };
            unsafe {
                libc::setrlimit(libc::RLIMIT_AS, &lim);
            }
            for _ in 0..3 {
                if GF::<24>::init().is_ok() {
                    let a = GF::<24>::from(0x800000);
                    let b: u32 = (a / a).into();
                    ensure!(
                        b == 1,
                        "width 24 reports success under memory pressure but does not work"
                    );
                }
                ops += 1;
            }
            let unlim = libc::rlimit {
                rlim_cur: libc::RLIM_INFINITY,
                rlim_max: libc::RLIM_INFINITY,
            };
            unsafe {
                libc::setrlimit(libc::RLIMIT_AS, &unlim);
            }
            ensure!(
                GF::<24>::init().is_ok(),
                "width 24 cannot be initialised once memory is available again"
            );
            let a = GF::<24>::from(0x800000);
            let x = GF::<24>::from(2);
            ensure!(
                u32::from((a * x) / x) == 0x800000,
                "width 24 does not work after a failed initialisation"
            );
            ops += any_width(8, &mut rng, 500)?;
            Ok(ops)
        }
        _ => unreachable!(),
    }
}

pub fn child(args: &[String]) -> i32 {
    let seed: u64 = args[1].parse().unwrap();
    let max: u8 = args[2].parse().unwrap();
    let mode = args[0].clone();
    let r = std::panic::catch_unwind(|| child_body(&mode, seed, max));
    match r {
        Ok(Ok(n)) => {
            println!("OK {}", n);
            0
        }
        Ok(Err(e)) => {
            println!("FAIL {}", e);
            1
        }
        Err(_) => {
            println!("FAIL panic {}", crate::cx::panics());
            1
        }
    }
}
