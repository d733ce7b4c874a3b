//! C22: serialisation. C26: locally derived material.

use super::c14::{field_cached, pick_id};
use super::c16::{self, judge_pieces, pieces, Mats};
use super::c18::{observe, pick_lab, secrets_of};
use super::c23::same_tables;
use crate::circ::GenOpts;
use crate::cx::{Cx, R};
use crate::ensure;
use crate::lab::*;
use crate::mpc::*;
use crate::simnet::{Policy, SimOpts};
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::preproc::{PreProc, PreProcCount};
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn de<const V: u8>(b: &[u8]) -> R<Option<u32>> {
    match catch_unwind(|| bincode::deserialize::<GF<V>>(b)) {
        Ok(Ok(x)) => Ok(Some(x.into())),
        Ok(Err(_)) => Ok(None),
        Err(_) => Err(format!(
            "width {}: deserialising {:?} panics instead of returning an error",
            V, b
        )),
    }
}

fn element<const V: u8>(x: u32) -> R {
    let len = (V as usize + 7) / 8;
    let b = bincode::serialize(&GF::<V>::from(x)).map_err(|e| e.to_string())?;
    ensure!(
        b == x.to_le_bytes()[..len],
        "width {}: {} is serialised as {:?}",
        V,
        x,
        b
    );
    let back = de::<V>(&b)?;
    ensure!(
        back == Some(x),
        "width {}: {} comes back as {:?}",
        V,
        x,
        back
    );
    Ok(())
}

/// Any byte string of the right length, judged by its numeric value.
fn bytes<const V: u8>(x: u32) -> R {
    let len = (V as usize + 7) / 8;
    let got = de::<V>(&x.to_le_bytes()[..len])?;
    let want = (x < 1 << V).then_some(x);
    ensure!(
        got == want,
        "width {}: the bytes of {} are read as {:?}, expected {:?}",
        V,
        x,
        got,
        want
    );
    Ok(())
}

fn vector<const V: u8>(rng: &mut ChaCha12Rng, v: &[u32]) -> R {
    let len = (V as usize + 7) / 8;
    let el: Vec<GF<V>> = gs(v);
    let b = bincode::serialize(&el).map_err(|e| e.to_string())?;
    let mut want = (v.len() as u64).to_le_bytes().to_vec();
    for x in v {
        want.extend_from_slice(&x.to_le_bytes()[..len]);
    }
    ensure!(
        b == want,
        "width {}: a vector of {} elements is serialised to {} bytes, not to its length and the elements",
        V,
        v.len(),
        b.len()
    );
    let back: Vec<GF<V>> = bincode::deserialize(&b).map_err(|e| e.to_string())?;
    ensure!(
        us(&back) == v,
        "width {}: a vector of {} elements comes back different",
        V,
        v.len()
    );
    // Cut off anywhere.
    for _ in 0..4 {
        let cut = rng.gen_range(0..b.len());
        match catch_unwind(|| bincode::deserialize::<Vec<GF<V>>>(&b[..cut]).is_err()) {
            Ok(true) => {}
            Ok(false) => {
                return Err(format!(
                    "width {}: {} of the {} bytes of a vector are accepted",
                    V,
                    cut,
                    b.len()
                ))
            }
            Err(_) => return Err(format!("width {}: a cut off vector causes a panic", V)),
        }
    }
    // One element replaced by bytes that encode none.
    if V % 8 != 0 && !v.is_empty() {
        let at = rng.gen_range(0..v.len());
        let bad = rng.gen_range(1u32 << V..=(1u64 << (8 * len)).wrapping_sub(1) as u32);
        let mut c = b.clone();
        c[8 + at * len..8 + (at + 1) * len].copy_from_slice(&bad.to_le_bytes()[..len]);
        match catch_unwind(|| bincode::deserialize::<Vec<GF<V>>>(&c).is_err()) {
            Ok(true) => {}
            _ => {
                return Err(format!(
                    "width {}: a vector with {} in the place of element {} is not refused with an error",
                    V, bad, at
                ))
            }
        }
    }
    Ok(())
}

fn width<const V: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng, part: u32, parts: u32) -> R {
    GF::<V>::init().map_err(|e| e.to_string())?;
    let len = (V as usize + 7) / 8;
    let order = 1u32 << V;
    // Every byte string shorter than an element.
    for k in 0..len {
        for i in 0..if k < 2 { 1u32 << (8 * k) } else { 3000 } {
            let x: u32 = if k < 2 { i } else { rng.gen() };
            ensure!(
                de::<V>(&x.to_le_bytes()[..k])?.is_none(),
                "width {}: {} bytes are accepted as an element",
                V,
                k
            );
        }
    }
    let total = 1u64 << (8 * len);
    let all = total <= 1 << 16 || cx.thorough() || V == 18;
    let mut num = 0u64;
    if all {
        let lo = total * part as u64 / parts as u64;
        let hi = total * (part as u64 + 1) / parts as u64;
        for x in lo..hi {
            bytes::<V>(x as u32)?;
        }
        num += hi - lo;
    } else {
        for _ in 0..20000 {
            let x = match rng.gen_range(0..4) {
                0 => rng.gen_range(0..total) as u32,
                1 => rng.gen_range(0..order),
                2 => order.wrapping_add(rng.gen_range(0..64)).wrapping_sub(32),
                _ => (1u32 << rng.gen_range(0..8 * len)) | rng.gen_range(0..order),
            };
            bytes::<V>((x as u64 % total) as u32)?;
        }
        num += 20000;
    }
    for i in 0..20000 {
        let x = if order <= 20000 {
            i % order
        } else if i < 40 {
            [i, order - 1 - i][i as usize % 2]
        } else {
            rng.gen_range(0..order)
        };
        element::<V>(x)?;
    }
    num += 20000;
    for i in 0..40 {
        let k = if i < 4 { i } else { rng.gen_range(0..600) };
        let v: Vec<u32> = (0..k).map(|_| rng.gen_range(0..order)).collect();
        vector::<V>(rng, &v)?;
    }
    num += 40;
    cx.evals_bulk((V, part), num);
    cx.count("elements and byte strings", num);
    Ok(())
}

macro_rules! dispatch {
    ($w:expr, $fun:ident, $args:tt, $($n:literal)*) => {
        match $w { $($n => dispatch!(@call $fun, $n, $args),)* _ => unreachable!() }
    };
    (@call $fun:ident, $n:literal, ($($args:expr),*)) => {
        $fun::<$n>($($args),*)
    };
}

fn same(a: &PreProc<W>, b: &PreProc<W>) -> R {
    ensure!(a.masks == b.masks, "the masks differ");
    ensure!(
        a.keys.dim() == b.keys.dim(),
        "keys of dimensions {:?} come back as {:?}",
        a.keys.dim(),
        b.keys.dim()
    );
    ensure!(a.keys == b.keys, "the keys differ");
    ensure!(a.randoms == b.randoms, "the randoms differ");
    ensure!(a.zeros == b.zeros, "the zeros differ");
    ensure!(a.errors == b.errors, "the noise differs");
    Ok(())
}

fn round(pre: &PreProc<W>) -> R<(Vec<u8>, PreProc<W>)> {
    let b = bincode::serialize(pre).map_err(|e| format!("serialising fails: {}", e))?;
    let back = catch_unwind(AssertUnwindSafe(|| bincode::deserialize::<PreProc<W>>(&b)))
        .map_err(|_| "deserialising panics".to_string())?
        .map_err(|e| format!("deserialising fails: {}", e))?;
    same(pre, &back)?;
    Ok((b, back))
}

pub fn run22(cx: &mut Cx) {
    cx.rule = "every width 1 to 24: all byte strings where feasible, random elements and vectors; material of every combination of dimensions; every case counted".into();
    cx.cases("elements", 96, |cx, idx, rng| {
        let v = 1 + ((idx / 4 + idx % 4 * 7) % 24) as u8;
        dispatch!(v, width, (cx, rng, (idx % 4) as u32, 4), 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24)
    });
    cx.cases("material", cx.amount(40000, 400000), |cx, _, rng| {
        field_cached(cx)?;
        let mut pick = |hi: usize| match rng.gen_range(0..4) {
            0 => 0,
            1 => 1,
            _ => rng.gen_range(0..=hi),
        };
        let (kl, blocks) = (pick(9), pick(9).max(1));
        let (r, z, e) = (pick(30), pick(30), pick(30));
        let mut vec = |k: usize| -> Vec<F> { (0..k).map(|_| GF::rand(rng)).collect() };
        let mut pre = PreProc::<W> {
            masks: vec(blocks).into(),
            keys: ndarray::Array3::from_shape_vec((2, kl, blocks), vec(2 * kl * blocks)).unwrap(),
            randoms: vec(r).into(),
            zeros: vec(z).into(),
            errors: vec(e).into(),
        };
        // Queues in mid use are not contiguous in memory.
        let turn = rng.gen_range(0..5);
        for q in [&mut pre.randoms, &mut pre.zeros, &mut pre.errors] {
            for _ in 0..turn.min(q.len()) {
                let x = q.pop_front().unwrap();
                q.push_back(x);
            }
        }
        let label = format!(
            "material of {} blocks, key length {}, {} randoms, {} zeros, {} noise",
            blocks, kl, r, z, e
        );
        let (b, _) = round(&pre).map_err(|e| format!("{}: {}", label, e))?;
        let cut = rng.gen_range(0..b.len());
        let res = catch_unwind(|| bincode::deserialize::<PreProc<W>>(&b[..cut]).is_err());
        ensure!(
            matches!(res, Ok(true)),
            "{}: the first {} of {} bytes are not refused with an error",
            label,
            cut,
            b.len()
        );
        cx.eval((blocks, kl, r, z, e), true);
        cx.count("material round trips", 1);
        Ok(())
    });
    cx.cases("garble", cx.amount(2000, 20000), |cx, _, rng| {
        let cfg = Cfg::pick(rng, 3, 9);
        let o = GenOpts::pick(rng, 10);
        let lab = pick_lab(cx, rng, cfg, &o)?;
        let label = lab.label();
        let pre = if rng.gen() {
            lab.material(rng, false, Noise::Distinct).pre
        } else {
            let mats = Mats::pick(rng, &cfg);
            c16::run_preproc(
                &lab.w,
                &mats,
                lab.counts,
                b"p",
                SimOpts::new(Policy::Fifo, 8, 0),
            )?
            .out
        };
        let mut back = Vec::new();
        for p in &pre {
            back.push(round(p).map_err(|e| format!("{}: {}", label, e))?.1);
        }
        let id = pick_id(rng);
        let a = lab.garble(&pre, &id, SimOpts::pick(rng, cfg.n))?.tables;
        let b = lab
            .garble(&back, &id, SimOpts::pick(rng, cfg.n))
            .map_err(|e| format!("{}: with deserialised material: {}", label, e))?
            .tables;
        let used: Vec<usize> = lab.gates.iter().map(|g| g.2.len()).collect();
        same_tables(&a, &b, &used)
            .map_err(|e| format!("{}: with original and deserialised material, {}", label, e))?;
        cx.eval((cfg, &lab.circ), true);
        cx.count("garblings compared", 1);
        cx.sample("garble", 3, || json!({"what": label}));
        Ok(())
    });
}

fn derive(cfg: &Cfg, seed: u64, counts: PreProcCount) -> Vec<PreProc<W>> {
    contexts(cfg)
        .iter()
        .map(|c| PreProc::dummy(seed, counts, c))
        .collect()
}

fn exact(p: &c16::Pieces, c: &PreProcCount) -> R {
    for (name, got, want) in [
        ("randoms", p.randoms.len(), c.randoms),
        ("zeros", p.zeros.len(), c.zeros),
    ] {
        ensure!(got == want, "{} {} instead of {}", got, name, want);
    }
    Ok(())
}

pub fn run26(cx: &mut Cx) {
    cx.rule = "random seeds, configurations and requests; non-trivial: something requested".into();
    cx.cases("derive", cx.amount(240, 4000), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let cfg = if idx / 4 % 6 == 5 {
            Cfg::pick(rng, 6, 30)
        } else {
            Cfg::pick(rng, 4, 12)
        };
        let w = World::new(&f, cfg);
        let d = cfg.d();
        let mut counts = c16::pick_counts(rng, &cfg, 30);
        // More than one pool of everything now and then.
        let big = idx / 4 % 10 == 0;
        if big {
            let mut k = || rng.gen_range(100_000..230_000usize);
            match idx / 40 % 4 {
                0 => counts.randoms = k(),
                1 => counts.zeros = k(),
                2 => counts.errors = k(),
                _ => {
                    counts.masks = k();
                    counts.keys = (2, cfg.kl, 7);
                }
            }
        }
        let seed: u64 = match rng.gen_range(0..4) {
            0 => rng.gen_range(0..4),
            1 => u64::MAX - rng.gen_range(0..4),
            _ => rng.gen(),
        };
        let label = format!("n={} t={} l={} seed {}", cfg.n, cfg.t, cfg.l, seed);
        let err = |e: String| format!("{}: {}", label, e);
        let one = derive(&cfg, seed, counts);
        let p = pieces(&one).map_err(err)?;
        judge_pieces(&w, &p, &counts).map_err(err)?;
        exact(&p, &counts).map_err(err)?;
        for (k, x) in one.iter().enumerate() {
            ensure!(
                x.keys.dim() == counts.keys,
                "{}: keys of party {} have dimensions {:?} instead of {:?}",
                label,
                k,
                x.keys.dim(),
                counts.keys
            );
        }
        // Same seed, same party.
        let who = rng.gen_range(0..cfg.n);
        let again = PreProc::dummy(seed, counts, &contexts(&cfg)[who]);
        same(&one[who], &again).map_err(|e| err(format!("second derivation: {}", e)))?;
        // Another seed.
        let other_seed = match rng.gen_range(0..3) {
            0 => seed ^ 1,
            1 => seed ^ 1 << rng.gen_range(0..64),
            _ => rng.gen(),
        };
        if other_seed != seed {
            let other = pieces(&derive(&cfg, other_seed, counts)).map_err(err)?;
            for (name, a, b, entropy) in [
                ("masks", &p.masks, &other.masks, 18 * cfg.t),
                ("keys", &p.keys, &other.keys, 18 * (d + 1)),
                ("randoms", &p.randoms, &other.randoms, 18 * (d + 1)),
                ("zeros", &p.zeros, &other.zeros, 18 * (cfg.n - cfg.l)),
                ("noise", &p.errors, &other.errors, 18 * (d + 1)),
            ] {
                if a.len() * entropy >= 72 {
                    ensure!(
                        a != b,
                        "{}: seed {} gives the same {}",
                        label,
                        other_seed,
                        name
                    );
                    cx.count("comparisons between seeds", 1);
                }
            }
        }
        // Masks are not constant.
        if p.masks.len() * cfg.l >= 72 {
            let bits: Vec<u32> = p.masks.iter().flat_map(|s| w.secrets(s)).collect();
            ensure!(
                bits.contains(&0) && bits.contains(&1),
                "{}: all {} mask bits are equal",
                label,
                bits.len()
            );
            let ones: f64 = bits.iter().take(1000 * cfg.l).map(|&b| b as f64).sum();
            cx.stat(
                "mask bits of locally derived material",
                bits.len().min(1000 * cfg.l) as f64,
                ones,
                0.5,
                0.25,
            );
        }
        let k = counts.keys;
        let total = counts.masks + k.0 * k.1 * k.2 + counts.randoms + counts.zeros + counts.errors;
        cx.eval((cfg, seed, total), total > 0);
        cx.count("sharings judged", total as u64);
        cx.count("requests beyond the pool size", big as u64);
        cx.sample("derive", 3, || json!({"what": label, "sharings": total}));
        Ok(())
    });
    cx.cases("garble", cx.amount(160, 2400), |cx, _, rng| {
        let cfg = Cfg::pick(rng, 3, 9);
        let o = GenOpts::pick(rng, 12);
        let mut lab = pick_lab(cx, rng, cfg, &o)?;
        let label = lab.label();
        let id = pick_id(rng);
        let err = |e: String| format!("{}: {}", label, e);
        let runs = observe(&mut lab, rng, &id, false).map_err(err)?;
        let a = lab.learn(&runs).map_err(err)?;
        let pre = derive(&cfg, rng.gen(), lab.counts);
        let sec = secrets_of(&lab, &pre).map_err(err)?;
        let r = lab
            .garble(&pre, &id, SimOpts::pick(rng, cfg.n))
            .map_err(err)?;
        lab.judge_noise(&sec, &r.tables, &a).map_err(err)?;
        cx.eval((cfg, &lab.circ), true);
        cx.count("garblings of locally derived material", 1);
        Ok(())
    });
}
