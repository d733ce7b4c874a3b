//! C14: multiplication and degree reduction. C15: share transformations.

use crate::cx::{Cx, R};
use crate::ensure;
use crate::mpc::*;
use crate::refgf::RefField;
use crate::simnet::{simulate, SimOpts};
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::Combination;
use scalable_mpc::protocol::core;
use serde_json::json;
use std::collections::VecDeque;
use std::rc::Rc;

pub fn pick_id(rng: &mut ChaCha12Rng) -> Vec<u8> {
    (0..rng.gen_range(0..10)).map(|_| rng.gen()).collect()
}

/// Outputs of one run of mult (y given) or reduce_degree (y absent) as share vectors per item.
#[allow(clippy::too_many_arguments)]
fn run_reduce(
    w: &World,
    id: &[u8],
    x: &[Vec<u32>],
    y: Option<&[Vec<u32>]>,
    r: &[Vec<u32>],
    z: &[Vec<u32>],
    leader: Option<u16>,
    opts: SimOpts,
) -> R<Vec<Vec<u32>>> {
    let n = w.cfg.n;
    let ctx = contexts(&w.cfg);
    let (x, r, z) = (arrays(x, n), arrays(r, n), arrays(z, n));
    let y = y.map(|y| arrays(y, n));
    let out = simulate(n, opts, |p, net| {
        let i = p as usize;
        let (id, x, r, z, ctx) = (
            id.to_vec(),
            x[i].clone(),
            r[i].clone(),
            z[i].clone(),
            ctx[i].clone(),
        );
        let y = y.as_ref().map(|y| y[i].clone());
        async move {
            match y {
                Some(y) => core::mult(id, x, y, r, z, leader, ctx, net).await,
                None => core::reduce_degree(id, x, r, z, leader, ctx, net).await,
            }
        }
    })?;
    out.clean()?;
    per_item(&out.results.iter().map(|v| us(v.iter())).collect::<Vec<_>>())
}

fn case14(cx: &mut Cx, f: &Rc<RefField>, rng: &mut ChaCha12Rng, cfg: Cfg, num: usize) -> R {
    let w = World::new(f, cfg);
    let n = cfg.n;
    let d = cfg.d();
    let use_mult = rng.gen_bool(0.6);
    let leader = if rng.gen_bool(0.5) {
        None
    } else {
        Some(rng.gen_range(0..n) as u16)
    };
    let id = pick_id(rng);
    // Secrets include the field's zero and one now and then.
    let block = |rng: &mut ChaCha12Rng| -> Vec<u32> {
        (0..cfg.l)
            .map(|_| match rng.gen_range(0..8) {
                0 => 0,
                1 => 1,
                _ => w.rand_el(rng),
            })
            .collect()
    };
    let mut want = Vec::new();
    let mut xs = Vec::new();
    let mut ys = Vec::new();
    for _ in 0..num {
        let a = block(rng);
        if use_mult {
            let b = block(rng);
            want.push(w.mul(&a, &b));
            xs.push(w.low(rng, &a));
            ys.push(w.low(rng, &b));
        } else {
            let deg = rng.gen_range(d.max(cfg.l - 1)..n);
            xs.push(w.sh.deal(rng, deg, &w.dp, &a));
            want.push(a);
        }
    }
    let r = w.low_random(rng, num);
    let z = w.zeros(rng, num);
    let y = if use_mult { Some(&ys[..]) } else { None };
    let opts = SimOpts::pick(rng, n);
    let what = format!(
        "{} of {} item(s), n={} t={} l={}, leader {:?}, {:?}",
        if use_mult { "mult" } else { "reduce_degree" },
        num,
        n,
        cfg.t,
        cfg.l,
        leader,
        opts.policy
    );
    let check = |out: &[Vec<u32>]| -> R {
        ensure!(
            out.len() == num,
            "{}: {} results for {} inputs",
            what,
            out.len(),
            num
        );
        for (i, s) in out.iter().enumerate() {
            ensure!(
                w.sh.on_degree(s, d),
                "{}: result {} is not a sharing of degree {}",
                what,
                i,
                d
            );
            let got = w.sh.at(s, d, &w.dp);
            ensure!(
                got == want[i],
                "{}: result {} shares {:?} instead of {:?}",
                what,
                i,
                got,
                want[i]
            );
        }
        Ok(())
    };
    let out1 = run_reduce(&w, &id, &xs, y, &r, &z, leader, opts)
        .map_err(|e| format!("{}: {}", what, e))?;
    check(&out1)?;
    let mut fresh = 0;
    if rng.gen_bool(0.5) && num > 0 {
        // Same inputs again: the results must be re-shared with new randomness.
        let out2 = run_reduce(&w, &id, &xs, y, &r, &z, leader, opts)
            .map_err(|e| format!("{}: {}", what, e))?;
        check(&out2)?;
        let diff: Vec<Vec<u32>> = out1.iter().zip(&out2).map(|(a, b)| w.add(a, b)).collect();
        if num >= cfg.t + 3 {
            let rank = f.rank(&diff);
            ensure!(
                rank == cfg.t,
                "{}: repeating with the same inputs re-randomises the results in {} instead of {} directions",
                what,
                rank,
                cfg.t
            );
        } else if num >= 3 {
            ensure!(
                diff.iter().any(|v| v.iter().any(|&x| x != 0)),
                "{}: repeating with the same inputs gives identical shares",
                what
            );
        }
        fresh = 1;
    }
    cx.eval((cfg, num, use_mult, leader, &xs), num > 0);
    cx.count(if use_mult { "multiplied" } else { "reduced" }, num as u64);
    cx.count("repeated for freshness", fresh);
    cx.count("derived leader", leader.is_none() as u64);
    cx.sample("run", 3, || json!({"what": what}));
    Ok(())
}

pub fn field() -> R<Rc<RefField>> {
    Ok(Rc::new(RefField::discover::<W>()?))
}

pub fn run14(cx: &mut Cx) {
    cx.rule = "random admissible configurations, counts, leaders and delivery orders; non-trivial: at least one item".into();
    cx.cases("reduce", cx.amount(30000, 300000), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg::pick(rng, 4, 16);
        let num = match idx / 4 % 6 {
            0 => 0,
            1 => 1,
            2 => cfg.t + 3,
            _ => rng.gen_range(1..=12),
        };
        case14(cx, &f, rng, cfg, num)
    });
    cx.cases("wide", cx.amount(24, 200), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let mut cfg = Cfg::pick(rng, 4, 16);
        cfg.n = match idx / 4 % 3 {
            0 => rng.gen_range(257..300),
            1 => rng.gen_range(100..257),
            _ => rng.gen_range(20..60),
        };
        if rng.gen() {
            // Many secrets per share.
            cfg.l = rng.gen_range(1..=(cfg.n + 1) / 2 - cfg.t);
        }
        let num = rng.gen_range(1..=cfg.t + 3);
        case14(cx, &f, rng, cfg, num)
    });
}

thread_local! {
    static FIELD: std::cell::RefCell<Option<Rc<RefField>>> = const { std::cell::RefCell::new(None) };
}

/// The reference field of the width the protocols use.
pub fn field_cached(_cx: &Cx) -> R<Rc<RefField>> {
    FIELD.with(|c| {
        if let Some(f) = c.borrow().as_ref() {
            return Ok(f.clone());
        }
        let f = field()?;
        *c.borrow_mut() = Some(f.clone());
        Ok(f)
    })
}

/// Old positions, new positions and the map between them of one transformation.
#[derive(Clone, Debug, Hash)]
struct Tf {
    old: Vec<u32>,
    new: Vec<u32>,
    map: Vec<usize>,
}

fn pick_tf(w: &World, rng: &mut ChaCha12Rng) -> Tf {
    let (n, l) = (w.cfg.n as u32, w.cfg.l);
    // Positions outside the share positions: default ones, wires, or anything.
    let pos = |rng: &mut ChaCha12Rng, len: usize| -> Vec<u32> {
        let mut v: Vec<u32> = match rng.gen_range(0..3) {
            0 => w.dp.clone(),
            1 => {
                let hi = rng.gen_range(l as u32..200_000);
                let mut ws: Vec<u32> = Vec::new();
                while ws.len() < l {
                    let x = rng.gen_range(hi.saturating_sub(50)..=hi);
                    if !ws.contains(&x) {
                        ws.push(x);
                    }
                }
                w.wire_pos(&ws)
            }
            _ => {
                let mut ps: Vec<u32> = Vec::new();
                while ps.len() < l {
                    let x = rng.gen_range(n..w.f.order);
                    if !ps.contains(&x) && !w.sh.sp.contains(&x) {
                        ps.push(x);
                    }
                }
                ps
            }
        };
        if rng.gen() {
            v.shuffle(rng);
        }
        v.truncate(len);
        v
    };
    let ol = rng.gen_range(1..=l);
    let nlen = rng.gen_range(1..=l);
    let old = pos(rng, ol);
    let new = pos(rng, nlen);
    let map: Vec<usize> = match rng.gen_range(0..3) {
        0 if nlen == ol => (0..ol).collect(),
        1 => {
            let mut m: Vec<usize> = (0..nlen).map(|i| i % ol).collect();
            m.shuffle(rng);
            m
        }
        _ => (0..nlen).map(|_| rng.gen_range(0..ol)).collect(),
    };
    Tf { old, new, map }
}

impl Tf {
    fn apply(&self, v: &[u32]) -> Vec<u32> {
        self.map.iter().map(|&i| v[i]).collect()
    }
}

fn run_trans(
    w: &World,
    id: &[u8],
    tf: &Tf,
    x: &[Vec<u32>],
    low: &[Vec<u32>],
    full: &[Vec<u32>],
    leader: Option<u16>,
    opts: SimOpts,
) -> R<Vec<Vec<u32>>> {
    let n = w.cfg.n;
    let ctx = contexts(&w.cfg);
    let (x, low, full) = (arrays(x, n), arrays(low, n), arrays(full, n));
    let out = simulate(n, opts, |p, net| {
        let i = p as usize;
        let t =
            core::SharingTransform::new(gs(&tf.old), gs(&tf.new), Combination::new(tf.map.clone()));
        core::trans(
            id.to_vec(),
            x[i].clone(),
            low[i].clone(),
            full[i].clone(),
            t,
            leader,
            ctx[i].clone(),
            net,
        )
    })?;
    out.clean()?;
    per_item(&out.results.iter().map(|v| us(v.iter())).collect::<Vec<_>>())
}

/// Runs randtrans; returns share vectors indexed [transform][repetition] for both degrees.
#[allow(clippy::type_complexity)]
fn run_randtrans(
    w: &World,
    rng: &mut ChaCha12Rng,
    tfs: &[Tf],
    reps: usize,
) -> R<(Vec<Vec<Vec<u32>>>, Vec<Vec<Vec<u32>>>)> {
    let cfg = w.cfg;
    let n = cfg.n;
    let ctx = contexts(&cfg);
    let randoms = per_party(&w.low_random(rng, reps * (n + cfg.t)), n);
    let zeros = per_party(&w.zeros(rng, 2 * n * reps), n);
    let id = pick_id(rng);
    let opts = SimOpts::pick(rng, n);
    let out = simulate(n, opts, |p, net| {
        let i = p as usize;
        let old: Vec<Vec<F>> = tfs.iter().map(|t| gs(&t.old)).collect();
        let new: Vec<Vec<F>> = tfs.iter().map(|t| gs(&t.new)).collect();
        let f: Vec<Combination> = tfs
            .iter()
            .map(|t| Combination::new(t.map.clone()))
            .collect();
        let t = core::RandSharingTransform::new(&old, &new, &f, &ctx[i]);
        core::randtrans(
            id.clone(),
            VecDeque::from(gs(&randoms[i])),
            VecDeque::from(gs(&zeros[i])),
            t,
            ctx[i].clone(),
            net,
        )
    })?;
    out.clean()?;
    let mut res = (Vec::new(), Vec::new());
    for (which, dst) in [&mut res.0, &mut res.1].into_iter().enumerate() {
        for r in &out.results {
            let a = if which == 0 { &r.0 } else { &r.1 };
            ensure!(
                a.shape()[0] >= tfs.len() && a.shape()[1] == reps,
                "randtrans returned shape {:?} for {} transformation(s), {} repetition(s)",
                a.shape(),
                tfs.len(),
                reps
            );
        }
        for i in 0..tfs.len() {
            dst.push(
                (0..reps)
                    .map(|k| {
                        out.results
                            .iter()
                            .map(|r| u(if which == 0 { r.0[[i, k]] } else { r.1[[i, k]] }))
                            .collect()
                    })
                    .collect(),
            );
        }
    }
    Ok(res)
}

fn case_trans(
    cx: &mut Cx,
    w: &World,
    rng: &mut ChaCha12Rng,
    tf: &Tf,
    low: &[Vec<u32>],
    full: &[Vec<u32>],
    from: &str,
) -> R {
    let cfg = w.cfg;
    let (n, d) = (cfg.n, cfg.d());
    let num = low.len();
    let leader = if rng.gen_bool(0.5) {
        None
    } else {
        Some(rng.gen_range(0..n) as u16)
    };
    let mut xs = Vec::new();
    let mut want = Vec::new();
    for _ in 0..num {
        let s: Vec<u32> = tf.old.iter().map(|_| w.rand_el(rng)).collect();
        let deg = rng.gen_range(tf.old.len().max(d + 1) - 1..n);
        xs.push(w.sh.deal(rng, deg, &tf.old, &s));
        want.push(tf.apply(&s));
    }
    let opts = SimOpts::pick(rng, n);
    let id = pick_id(rng);
    let what = format!(
        "trans of {} item(s), n={} t={} l={}, {:?}, leader {:?}, masks {}",
        num, n, cfg.t, cfg.l, tf, leader, from
    );
    let run = || {
        run_trans(w, &id, tf, &xs, low, full, leader, opts).map_err(|e| format!("{}: {}", what, e))
    };
    let out = run()?;
    let judge = |out: &[Vec<u32>]| -> R {
        ensure!(out.len() == num, "{}: {} results", what, out.len());
        for (i, s) in out.iter().enumerate() {
            ensure!(
                w.sh.on_degree(s, d),
                "{}: result {} is not a sharing of degree {}",
                what,
                i,
                d
            );
            let got = w.sh.at(s, d, &tf.new);
            ensure!(
                got == want[i],
                "{}: result {} has {:?} at the new positions instead of {:?}",
                what,
                i,
                got,
                want[i]
            );
        }
        Ok(())
    };
    judge(&out)?;
    if num >= cfg.t + cfg.l + 3 && rng.gen() {
        let out2 = run()?;
        judge(&out2)?;
        let diff: Vec<Vec<u32>> = out.iter().zip(&out2).map(|(a, b)| w.add(a, b)).collect();
        let rank = w.f.rank(&diff);
        let need = d + 1 - tf.new.len();
        ensure!(
            rank >= cfg.t && rank <= need,
            "{}: repeating with the same inputs re-randomises the results in {} directions",
            what,
            rank
        );
        cx.count("repeated for freshness", 1);
    }
    cx.eval((cfg, tf, &xs), num > 0);
    cx.count("transformed", num as u64);
    cx.sample("trans", 3, || json!({"what": what}));
    Ok(())
}

fn case15(cx: &mut Cx, f: &Rc<RefField>, idx: u64, rng: &mut ChaCha12Rng, cfg: Cfg) -> R {
    let w = World::new(f, cfg);
    let (n, d) = (cfg.n, cfg.d());
    if idx / 4 % 2 == 0 {
        // Transformation with masks from the reference.
        let tf = pick_tf(&w, rng);
        let num = match rng.gen_range(0..5) {
            0 => 0,
            1 => 1,
            2 => cfg.t + cfg.l + 3,
            _ => rng.gen_range(1..=9),
        };
        let mut low = Vec::new();
        let mut full = Vec::new();
        for _ in 0..num {
            let s: Vec<u32> = tf.old.iter().map(|_| w.rand_el(rng)).collect();
            full.push(w.sh.deal(rng, n - 1, &tf.old, &s));
            low.push(w.sh.deal(rng, d, &tf.new, &tf.apply(&s)));
        }
        return case_trans(cx, &w, rng, &tf, &low, &full, "dealt");
    }
    let m = rng.gen_range(1..=cfg.l);
    let tfs: Vec<Tf> = (0..m).map(|_| pick_tf(&w, rng)).collect();
    let dims: usize = tfs.iter().map(|t| t.old.len()).sum();
    let reps = match rng.gen_range(0..4) {
        0 => 0,
        1 => 1,
        2 if n < 100 || cx.thorough() => dims + 3,
        _ => rng.gen_range(1..=5),
    };
    let what = format!(
        "randtrans with {} repetition(s), n={} t={} l={}, {:?}",
        reps, n, cfg.t, cfg.l, tfs
    );
    let (low, full) = run_randtrans(&w, rng, &tfs, reps).map_err(|e| format!("{}: {}", what, e))?;
    let mut all: Vec<Vec<u32>> = vec![Vec::new(); reps];
    for (i, tf) in tfs.iter().enumerate() {
        for k in 0..reps {
            ensure!(
                w.sh.on_degree(&low[i][k], d),
                "{}: transformation {} repetition {}: low part is not of degree {}",
                what,
                i,
                k,
                d
            );
            let a = w.sh.at(&low[i][k], d, &tf.new);
            let b = w.sh.at(&full[i][k], n - 1, &tf.old);
            ensure!(
                a == tf.apply(&b),
                "{}: transformation {} repetition {}: low part has {:?} at the new positions, full part {:?} at the old ones",
                what, i, k, a, b
            );
            for &x in &b {
                cx.stat(
                    "low bit of transformation mask",
                    1.0,
                    (x & 1) as f64,
                    0.5,
                    0.25,
                );
                cx.stat(
                    "top bit of transformation mask",
                    1.0,
                    (x >> (W - 1)) as f64,
                    0.5,
                    0.25,
                );
            }
            all[k].extend(&b);
        }
    }
    if reps >= dims + 3 {
        let rank = f.rank(&all);
        ensure!(
            rank == dims,
            "{}: the {} mask secrets vary in only {} directions",
            what,
            dims,
            rank
        );
        // The masks of one transformation are sharings with full randomness of their own.
        cx.count("rank of masks", 1);
    }
    cx.eval((cfg, &tfs, reps), reps > 0);
    cx.count("mask pairs", (m * reps) as u64);
    cx.sample("randtrans", 3, || json!({"what": what}));
    if reps > 0 {
        let i = rng.gen_range(0..m);
        case_trans(cx, &w, rng, &tfs[i], &low[i], &full[i], "from randtrans")?;
    }
    Ok(())
}

pub fn run15(cx: &mut Cx) {
    cx.rule = "random configurations, position sets, maps, batch sizes and delivery orders; non-trivial: at least one item".into();
    cx.cases("transform", cx.amount(48000, 480000), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg::pick(rng, 4, 16);
        case15(cx, &f, idx, rng, cfg)
    });
    cx.cases("wide", cx.amount(32, 200), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let mut cfg = Cfg::pick(rng, 4, 16);
        cfg.n = if idx / 8 % 4 == 3 {
            rng.gen_range(257..270)
        } else {
            rng.gen_range(20..50)
        };
        case15(cx, &f, idx, rng, cfg)
    });
}
