//! C16: random, zero and bit sharings. C17: preprocessing (and C19 for its noise generation).

use super::c14::{field_cached, pick_id};
use crate::cx::{Cx, R};
use crate::ensure;
use crate::mpc::*;
use crate::refgf::RefField;
use crate::simnet::{simulate, Msg, SimOpts};
use crate::views;
use ndarray::Array2;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::super_inv_matrix;
use scalable_mpc::protocol::preproc::{
    self, PreProc, PreProcCount, RandBitContext, RandContext, ZeroContext,
};
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum What {
    Rand,
    Zero,
    Bit,
}

/// Binary matrix with distinct non-zero rows.
pub fn bin_matrix(rng: &mut ChaCha12Rng, rows: usize, n: usize) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = Vec::new();
    let mut tries = 0;
    while v.len() < rows {
        let r: Vec<u32> = (0..n).map(|_| rng.gen_range(0..2)).collect();
        tries += 1;
        if (r.iter().any(|&x| x == 1) && !v.contains(&r)) || tries > 1000 {
            v.push(r);
        }
    }
    v
}

pub fn to_arr(m: &[Vec<u32>]) -> Arc<Array2<F>> {
    let c = m[0].len();
    Arc::new(Array2::from_shape_fn((m.len(), c), |(i, j)| g(m[i][j])))
}

pub fn from_arr(a: &Array2<F>) -> Vec<Vec<u32>> {
    a.rows().into_iter().map(|r| us(r.iter())).collect()
}

/// Items obtained from contributions `[party][batch]` with extraction matrix `m`.
fn extract(w: &World, m: &[Vec<u32>], c: &views::AllToAll) -> Vec<Vec<u32>> {
    let batches = c[0].len();
    let mut out = Vec::new();
    for row in m {
        for b in 0..batches {
            let mut item = vec![0u32; w.cfg.n];
            for (p, &k) in row.iter().enumerate() {
                if k != 0 {
                    for (x, &s) in item.iter_mut().zip(&c[p][b]) {
                        *x ^= w.f.mul(k, s);
                    }
                }
            }
            out.push(item);
        }
    }
    out
}

struct Run16 {
    items: Vec<Vec<u32>>,
    contrib: views::AllToAll,
}

fn run16(w: &World, what: What, num: usize, m: &[Vec<u32>], id: &[u8], opts: SimOpts) -> R<Run16> {
    let n = w.cfg.n;
    let ctx = contexts(&w.cfg);
    let arr = to_arr(m);
    let out = simulate(n, opts, |p, net| {
        let (ctx, arr, id) = (ctx[p as usize].clone(), arr.clone(), id.to_vec());
        async move {
            match what {
                What::Rand => preproc::rand(id, num, RandContext::new(arr, &ctx), net).await,
                What::Zero => preproc::zero(id, num, ZeroContext::new(arr, &ctx), net).await,
                What::Bit => preproc::randbit(id, num, RandBitContext::new(arr, &ctx), net).await,
            }
        }
    })?;
    out.clean()?;
    let items = per_item(&out.results.iter().map(|v| us(v.iter())).collect::<Vec<_>>())?;
    let ids = views::by_id(&out.log);
    ensure!(
        ids.len() == 1 && ids.contains_key(id),
        "traffic under identifiers {:?} instead of the given one",
        ids.keys().collect::<Vec<_>>()
    );
    let contrib = views::all_to_all(&ids[id], n)?
        .ok_or("not every party sends one message to every party".to_string())?;
    Ok(Run16 { items, contrib })
}

fn judge_contribution(w: &World, what: What, s: &[u32]) -> R {
    let d = w.cfg.d();
    match what {
        What::Rand => ensure!(w.sh.on_degree(s, d), "not a sharing of degree {}", d),
        What::Zero => ensure!(
            w.secrets(s).iter().all(|&x| x == 0),
            "not a sharing of zeros: {:?}",
            w.secrets(s)
        ),
        What::Bit => {
            ensure!(w.sh.on_degree(s, d), "not a sharing of degree {}", d);
            ensure!(
                w.secrets(s).iter().all(|&x| x < 2),
                "not a sharing of bits: {:?}",
                w.secrets(s)
            );
        }
    }
    Ok(())
}

/// Pairs of positions whose contributions coincide.
fn repeats(c: &views::AllToAll) -> HashSet<(usize, usize, usize, usize)> {
    let mut seen: HashMap<&Vec<u32>, Vec<(usize, usize)>> = HashMap::new();
    let mut out = HashSet::new();
    for (p, row) in c.iter().enumerate() {
        for (b, s) in row.iter().enumerate() {
            let e = seen.entry(s).or_default();
            for &(p2, b2) in e.iter() {
                out.insert((p2, b2, p, b));
            }
            e.push((p, b));
        }
    }
    out
}

fn bits_stats(cx: &mut Cx, name: &str, vals: &[u32]) {
    for &x in vals {
        for b in 0..W {
            cx.stat(
                &format!("{} bit {}", name, b),
                1.0,
                (x >> b & 1) as f64,
                0.5,
                0.25,
            );
        }
    }
    for p in vals.windows(2) {
        cx.stat(
            &format!("{} neighbours", name),
            1.0,
            ((p[0] ^ p[1]) & 1) as f64,
            0.5,
            0.25,
        );
    }
}

fn case16(cx: &mut Cx, f: &Rc<RefField>, idx: u64, rng: &mut ChaCha12Rng, cfg: Cfg) -> R {
    let w = World::new(f, cfg);
    let n = cfg.n;
    let d = cfg.d();
    let what = [What::Rand, What::Zero, What::Bit][(idx / 4 % 3) as usize];
    let rows = match rng.gen_range(0..3) {
        0 => n - cfg.t,
        1 => 1,
        _ => rng.gen_range(1..=n),
    };
    let m = if what == What::Bit {
        let max = if n < 10 { (1usize << n) - 1 } else { n };
        bin_matrix(rng, rows.min(max), n)
    } else {
        from_arr(&super_inv_matrix::<W>(n, rows))
    };
    let rows = m.len();
    let num = match rng.gen_range(0..6) {
        0 => 0,
        1 => rows,
        2 => rows + 1,
        3 => 1,
        _ => rng.gen_range(1..=3 * rows + 2),
    };
    let id = pick_id(rng);
    let opts = SimOpts::pick(rng, n);
    let label = format!(
        "{:?} of {} item(s), {} rows, n={} t={} l={}, {:?}",
        what, num, rows, n, cfg.t, cfg.l, opts.policy
    );
    let r = run16(&w, what, num, &m, &id, opts).map_err(|e| format!("{}: {}", label, e))?;
    ensure!(
        r.items.len() >= num,
        "{}: only {} items",
        label,
        r.items.len()
    );
    let mut secrets = Vec::new();
    for (i, s) in r.items.iter().enumerate() {
        judge_contribution(&w, what, s).map_err(|e| format!("{}: item {} is {}", label, i, e))?;
        if what != What::Zero {
            secrets.extend(w.sh.at(s, d, &w.dp));
        }
    }
    for (p, row) in r.contrib.iter().enumerate() {
        for (b, s) in row.iter().enumerate() {
            judge_contribution(&w, what, s)
                .map_err(|e| format!("{}: contribution {} of party {} is {}", label, b, p, e))?;
        }
    }
    // Every item is the extraction of one contribution of every party.
    let mut exp: HashMap<Vec<u32>, u64> = HashMap::new();
    for e in extract(&w, &m, &r.contrib) {
        *exp.entry(e).or_default() += 1;
    }
    for (i, s) in r.items.iter().enumerate() {
        match exp.get_mut(s) {
            Some(c) if *c > 0 => *c -= 1,
            _ => {
                return Err(format!(
                    "{}: item {} is not an (unused) combination of the parties' contributions given by the extraction matrix",
                    label, i
                ))
            }
        }
    }
    // Contributions are fresh: no position repeats another one, nor itself in another run.
    let rep = repeats(&r.contrib);
    let again = !rep.is_empty() || rng.gen_range(0..4) == 0;
    if again && num > 0 {
        let mut rep = rep;
        let mut same: HashSet<(usize, usize)> = (0..n)
            .flat_map(|p| (0..r.contrib[0].len()).map(move |b| (p, b)))
            .collect();
        for _ in 0..2 {
            let r2 =
                run16(&w, what, num, &m, &id, opts).map_err(|e| format!("{}: {}", label, e))?;
            let rep2 = repeats(&r2.contrib);
            rep.retain(|x| rep2.contains(x));
            same.retain(|&(p, b)| r2.contrib[p].get(b) == Some(&r.contrib[p][b]));
        }
        if let Some((p, b, p2, b2)) = rep.iter().next() {
            return Err(format!(
                "{}: contribution {} of party {} always equals contribution {} of party {}",
                label, b, p, b2, p2
            ));
        }
        if let Some((p, b)) = same.iter().next() {
            return Err(format!(
                "{}: contribution {} of party {} is the same in every run",
                label, b, p
            ));
        }
        cx.count("repeated for freshness", 1);
    }
    match what {
        What::Rand => {
            let c: Vec<u32> = r
                .contrib
                .iter()
                .flatten()
                .flat_map(|s| w.sh.at(s, d, &w.dp))
                .collect();
            bits_stats(cx, "contributed random secret", &c);
            bits_stats(cx, "random secret", &secrets);
        }
        What::Zero => {
            let c: Vec<u32> = r.contrib.iter().flatten().map(|s| s[0]).collect();
            bits_stats(cx, "share of contributed zero", &c);
        }
        What::Bit => {
            for s in r.contrib.iter().flatten() {
                let b = w.sh.at(s, d, &w.dp);
                for &x in &b {
                    cx.stat("contributed bit", 1.0, x as f64, 0.5, 0.25);
                }
                for p in b.windows(2) {
                    cx.stat(
                        "contributed bit neighbours",
                        1.0,
                        (p[0] ^ p[1]) as f64,
                        0.5,
                        0.25,
                    );
                }
            }
            for &x in &secrets {
                cx.stat("bit", 1.0, x as f64, 0.5, 0.25);
            }
        }
    }
    cx.eval((cfg, what, num, rows, &r.items), num > 0);
    cx.count(&format!("{:?} items", what), r.items.len() as u64);
    cx.count("contributions", (n * r.contrib[0].len()) as u64);
    cx.sample("run", 3, || json!({"what": label, "items": r.items.len()}));
    Ok(())
}

pub fn run16_(cx: &mut Cx) {
    cx.rule = "random configurations, extraction matrices, counts and delivery orders; non-trivial: at least one item asked for".into();
    cx.cases("items", cx.amount(36000, 360000), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg::pick(rng, 4, 16);
        case16(cx, &f, idx, rng, cfg)
    });
    cx.cases("wide", cx.amount(12, 96), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let mut cfg = Cfg::pick(rng, 4, 16);
        cfg.n = rng.gen_range(20..60);
        case16(cx, &f, idx, rng, cfg)
    });
}

/// Matrices for a run of the preprocessing.
pub struct Mats {
    pub sup: Vec<Vec<u32>>,
    pub bin: Vec<Vec<u32>>,
}

impl Mats {
    pub fn pick(rng: &mut ChaCha12Rng, cfg: &Cfg) -> Mats {
        let rows = if rng.gen_bool(0.7) {
            cfg.n - cfg.t
        } else {
            rng.gen_range(1..=cfg.n - cfg.t)
        };
        let brows = rng.gen_range(1..=cfg.n.min(6) - 1);
        Mats {
            sup: from_arr(&super_inv_matrix::<W>(cfg.n, rows)),
            bin: bin_matrix(rng, brows, cfg.n),
        }
    }
}

pub struct PreRun {
    pub out: Vec<PreProc<W>>,
    pub log: Vec<Msg>,
}

pub fn run_preproc(
    w: &World,
    mats: &Mats,
    counts: PreProcCount,
    id: &[u8],
    opts: SimOpts,
) -> R<PreRun> {
    let n = w.cfg.n;
    let ctx = contexts(&w.cfg);
    let sup = to_arr(&mats.sup);
    let bin = to_arr(&mats.bin);
    let out = simulate(n, opts, |p, net| {
        let c = ctx[p as usize].clone();
        preproc::preproc(
            id.to_vec(),
            counts,
            c.clone(),
            RandContext::new(sup.clone(), &c),
            ZeroContext::new(sup.clone(), &c),
            RandBitContext::new(bin.clone(), &c),
            net,
        )
    })?;
    out.clean()?;
    Ok(PreRun {
        out: out.results,
        log: out.log,
    })
}

/// Share vectors of every piece of material.
pub struct Pieces {
    pub masks: Vec<Vec<u32>>,
    /// In the order label, key index, block.
    pub keys: Vec<Vec<u32>>,
    pub randoms: Vec<Vec<u32>>,
    pub zeros: Vec<Vec<u32>>,
    pub errors: Vec<Vec<u32>>,
}

pub fn pieces(out: &[PreProc<W>]) -> R<Pieces> {
    let of = |name: &str, f: &dyn Fn(&PreProc<W>) -> Vec<u32>| -> R<Vec<Vec<u32>>> {
        per_item(&out.iter().map(f).collect::<Vec<_>>()).map_err(|e| format!("{}: {}", name, e))
    };
    Ok(Pieces {
        masks: of("masks", &|p| us(p.masks.iter()))?,
        keys: of("keys", &|p| us(p.keys.iter()))?,
        randoms: of("randoms", &|p| us(p.randoms.iter()))?,
        zeros: of("zeros", &|p| us(p.zeros.iter()))?,
        errors: of("errors", &|p| us(p.errors.iter()))?,
    })
}

/// Degrees and secrets every piece of material must have.
pub fn judge_pieces(w: &World, p: &Pieces, counts: &PreProcCount) -> R {
    let d = w.cfg.d();
    let k = counts.keys;
    ensure!(
        p.masks.len() == counts.masks,
        "{} masks instead of {}",
        p.masks.len(),
        counts.masks
    );
    ensure!(
        p.keys.len() == k.0 * k.1 * k.2,
        "{} key elements instead of {}",
        p.keys.len(),
        k.0 * k.1 * k.2
    );
    ensure!(
        p.errors.len() == counts.errors,
        "{} noise sharings instead of {}",
        p.errors.len(),
        counts.errors
    );
    ensure!(
        p.randoms.len() >= counts.randoms,
        "only {} random sharings instead of {}",
        p.randoms.len(),
        counts.randoms
    );
    ensure!(
        p.zeros.len() >= counts.zeros,
        "only {} zero sharings instead of {}",
        p.zeros.len(),
        counts.zeros
    );
    for (name, v) in [
        ("mask", &p.masks),
        ("key element", &p.keys),
        ("random sharing", &p.randoms),
        ("noise sharing", &p.errors),
    ] {
        for (i, s) in v.iter().enumerate() {
            ensure!(
                w.sh.on_degree(s, d),
                "{} {} is not of degree {}",
                name,
                i,
                d
            );
        }
    }
    for (i, s) in p.masks.iter().enumerate() {
        let b = w.sh.at(s, d, &w.dp);
        ensure!(b.iter().all(|&x| x < 2), "mask {} shares {:?}", i, b);
    }
    for (i, s) in p.zeros.iter().enumerate() {
        let b = w.secrets(s);
        ensure!(
            b.iter().all(|&x| x == 0),
            "zero sharing {} shares {:?}",
            i,
            b
        );
    }
    Ok(())
}

#[derive(Default)]
struct Pool {
    all: Vec<Vec<u32>>,
    left: HashMap<Vec<u32>, i64>,
}

impl Pool {
    fn new(all: Vec<Vec<u32>>) -> Pool {
        let mut left: HashMap<Vec<u32>, i64> = HashMap::new();
        for s in &all {
            *left.entry(s.clone()).or_default() += 1;
        }
        Pool { all, left }
    }

    fn has(&self, s: &[u32]) -> bool {
        self.left.contains_key(s)
    }

    /// Uses one copy; Err if it was never generated or is already used up.
    fn take(&mut self, s: &[u32], kind: &str, by: &str) -> R {
        match self.left.get_mut(s) {
            None => Err(format!("{} is no {} generated in this run", by, kind)),
            Some(c) if *c <= 0 => Err(format!("{} is a {} that has been used before", by, kind)),
            Some(c) => {
                *c -= 1;
                Ok(())
            }
        }
    }
}

/// Reconstructs from the messages which pieces of random material the noise generation spent, and
/// checks that nothing is spent twice or handed out after being spent.
pub fn account(
    cx: &mut Cx,
    w: &World,
    mats: &Mats,
    counts: &PreProcCount,
    run: &PreRun,
    p: &Pieces,
) -> R {
    let (n, d, l) = (w.cfg.n, w.cfg.d(), w.cfg.l);
    let mut rands = Vec::new();
    let mut zeros = Vec::new();
    let mut bits = Vec::new();
    let mut opens = Vec::new();
    for (id, msgs) in views::by_id(&run.log) {
        if let Some(c) = views::all_to_all(&msgs, n)? {
            if c[0].is_empty() {
                continue;
            }
            let flat: Vec<&Vec<u32>> = c.iter().flatten().collect();
            if flat.iter().all(|s| w.sh.on_degree(s, d)) {
                if flat.iter().all(|s| w.secrets(s).iter().all(|&x| x < 2)) {
                    bits.extend(extract(w, &mats.bin, &c));
                } else {
                    rands.extend(extract(w, &mats.sup, &c));
                }
            } else if flat.iter().all(|s| w.secrets(s).iter().all(|&x| x == 0)) {
                zeros.extend(extract(w, &mats.sup, &c));
            } else {
                return Err(format!(
                    "under id {:?} a party contributes something that is neither a low-degree sharing nor a sharing of zeros",
                    id
                ));
            }
        } else if let Some(o) = views::opening(&msgs, n)? {
            opens.push(o);
        }
    }
    let mut rpool = Pool::new(rands);
    let mut zpool = Pool::new(zeros);
    let mut bpool = Pool::new(bits);
    let mut by_secret: HashMap<Vec<u32>, Vec<usize>> = HashMap::new();
    for (i, s) in rpool.all.iter().enumerate() {
        by_secret.entry(w.sh.at(s, d, &w.dp)).or_default().push(i);
    }

    let mut firsts = Vec::new();
    let mut seconds = Vec::new();
    let mut resharing = Vec::new();
    let base = |v: &[u32]| -> Vec<u32> {
        // The sharing of v whose free points are all zero.
        let mut none = rand::rngs::mock::StepRng::new(0, 0);
        w.low(&mut none, v)
    };
    for o in &opens {
        ensure!(
            o.seen.len() == o.back.len(),
            "leader {} answers {} values with {}",
            o.leader,
            o.seen.len(),
            o.back.len()
        );
        for (seen, back) in o.seen.iter().zip(&o.back) {
            let v = w.secrets(seen);
            ensure!(
                w.sh.on_degree(back, d) && w.sh.at(back, d, &w.dp) == v,
                "leader {} does not answer with a sharing of what it opened",
                o.leader
            );
            resharing.push(w.add(back, &base(&v)));
            ensure!(
                !v.iter().all(|&x| x < 2) || l * (W as usize - 1) < 30 && l < 3,
                "leader {} opens the bits {:?} without a mask",
                o.leader,
                v
            );
            // The last multiplication of a noise value yields a delivered noise sharing.
            let hit = p.errors.iter().position(|e| rpool.has(&w.add(back, e)));
            match hit {
                Some(e) => seconds.push((o.leader, seen, w.add(back, &p.errors[e]), e)),
                None => firsts.push((o.leader, seen, back, v)),
            }
        }
    }
    ensure!(
        firsts.len() == counts.errors && seconds.len() == counts.errors,
        "{} values are opened for {} noise sharings; {} of them lead to a delivered noise sharing masked by a generated random sharing",
        firsts.len() + seconds.len(),
        counts.errors,
        seconds.len()
    );
    if resharing.len() >= w.cfg.t + 3 {
        let rank = w.f.rank(&resharing);
        ensure!(
            rank == w.cfg.t,
            "what the leaders send back varies in {} instead of {} directions",
            rank,
            w.cfg.t
        );
    }

    let mut products = Vec::new();
    for (leader, seen, back, v) in &firsts {
        let mut found = None;
        'r: for pat in 0..1u32 << l {
            let rs: Vec<u32> = v
                .iter()
                .enumerate()
                .map(|(i, &x)| x ^ (pat >> i & 1))
                .collect();
            for &ri in by_secret.get(&rs).into_iter().flatten() {
                let rest = w.add(seen, &rpool.all[ri]);
                if zpool.has(&rest) {
                    // No product at all.
                    continue;
                }
                for a in 0..bpool.all.len() {
                    for b in 0..=a {
                        let z = w.add(&rest, &w.mul(&bpool.all[a], &bpool.all[b]));
                        if zpool.has(&z) {
                            found = Some((ri, a, b, z));
                            break 'r;
                        }
                    }
                }
            }
        }
        let Some((ri, a, b, z)) = found else {
            return Err(format!(
                "leader {} opens {:?}, which is no product of two generated bits masked by a generated random sharing and re-randomised by a generated zero sharing",
                leader, v
            ));
        };
        let r = rpool.all[ri].clone();
        rpool.take(
            &r,
            "random sharing",
            "the mask of the first multiplication of a noise value",
        )?;
        zpool.take(
            &z,
            "zero sharing",
            "the zero sharing of the first multiplication of a noise value",
        )?;
        for i in [a, b] {
            let s = bpool.all[i].clone();
            bpool.take(&s, "bit sharing", "the bit multiplied for a noise value")?;
        }
        products.push(w.add(back, &r));
    }
    let mut used_err = HashSet::new();
    for (leader, seen, r, e) in &seconds {
        let rest = w.add(seen, r);
        let mut found = None;
        'p: for (pi, bb) in products.iter().enumerate() {
            for (si, s) in rpool.all.iter().enumerate() {
                let z = w.add(&rest, &w.mul(bb, s));
                if zpool.has(&z) {
                    found = Some((pi, si, z));
                    break 'p;
                }
            }
        }
        let Some((pi, si, z)) = found else {
            return Err(format!(
                "leader {} opens a value for noise sharing {} which is no product of a biased bit and a generated random sharing, masked and re-randomised",
                leader, e
            ));
        };
        let s = rpool.all[si].clone();
        rpool.take(
            r,
            "random sharing",
            "the mask of the second multiplication of a noise value",
        )?;
        rpool.take(&s, "random sharing", "the factor of a noise value")?;
        zpool.take(
            &z,
            "zero sharing",
            "the zero sharing of the second multiplication of a noise value",
        )?;
        ensure!(
            used_err.insert((0, *e)) && used_err.insert((1, pi)),
            "two noise values come from the same biased bit"
        );
    }
    cx.count("openings traced", (firsts.len() + seconds.len()) as u64);
    for s in &p.keys {
        rpool.take(s, "random sharing", "a delivered key element")?;
    }
    for s in &p.randoms {
        rpool.take(s, "random sharing", "a delivered random sharing")?;
    }
    for s in &p.zeros {
        zpool.take(s, "zero sharing", "a delivered zero sharing")?;
    }
    for s in &p.masks {
        bpool.take(s, "bit sharing", "a delivered mask")?;
    }
    cx.count(
        "delivered pieces traced",
        (p.keys.len() + p.randoms.len() + p.zeros.len() + p.masks.len()) as u64,
    );
    Ok(())
}

/// As `account`, repeating the run when it objects: with few random directions sharings of zero can
/// coincide by chance, whereas material spent twice shows in every repetition.
fn accounted(
    cx: &mut Cx,
    w: &World,
    mats: &Mats,
    counts: &PreProcCount,
    id: &[u8],
    opts: SimOpts,
    first: (&PreRun, &Pieces),
) -> R {
    let mut res = account(cx, w, mats, counts, first.0, first.1);
    for _ in 0..2 {
        if res.is_ok() {
            break;
        }
        cx.count("runs repeated to rule out a coincidence", 1);
        let run = run_preproc(w, mats, *counts, id, opts)?;
        let p = pieces(&run.out)?;
        res = account(cx, w, mats, counts, &run, &p);
    }
    res
}

pub fn pick_counts(rng: &mut ChaCha12Rng, cfg: &Cfg, max_err: usize) -> PreProcCount {
    let zero_or = |rng: &mut ChaCha12Rng, hi: usize| {
        if rng.gen_bool(0.2) {
            0
        } else {
            rng.gen_range(1..=hi)
        }
    };
    let blocks = zero_or(rng, 6);
    let errors = match rng.gen_range(0..7) {
        0 => 0,
        1 => 1,
        2 => cfg.n - 1,
        3 => cfg.n,
        4 => cfg.n + 1,
        _ => rng.gen_range(1..=max_err),
    };
    PreProcCount {
        masks: blocks,
        keys: (2, cfg.kl, blocks),
        randoms: zero_or(rng, 20),
        zeros: zero_or(rng, 20),
        errors: errors.min(max_err),
    }
}

fn case17(
    cx: &mut Cx,
    f: &Rc<RefField>,
    rng: &mut ChaCha12Rng,
    cfg: Cfg,
    max_err: usize,
    trace: bool,
) -> R {
    let w = World::new(f, cfg);
    let d = cfg.d();
    let mats = Mats::pick(rng, &cfg);
    let counts = pick_counts(rng, &cfg, max_err);
    let id = pick_id(rng);
    let opts = SimOpts::pick(rng, cfg.n);
    let label = format!(
        "preprocessing of {} masks, {:?} keys, {} randoms, {} zeros, {} noise, n={} t={} l={}, {} rows, {} binary rows, {:?}",
        counts.masks, counts.keys, counts.randoms, counts.zeros, counts.errors, cfg.n, cfg.t, cfg.l,
        mats.sup.len(), mats.bin.len(), opts.policy
    );
    let run = run_preproc(&w, &mats, counts, &id, opts).map_err(|e| format!("{}: {}", label, e))?;
    for (i, o) in run.out.iter().enumerate() {
        ensure!(
            o.keys.shape() == [counts.keys.0, counts.keys.1, counts.keys.2],
            "{}: party {} holds keys of shape {:?}",
            label,
            i,
            o.keys.shape()
        );
    }
    let p = pieces(&run.out).map_err(|e| format!("{}: {}", label, e))?;
    judge_pieces(&w, &p, &counts).map_err(|e| format!("{}: {}", label, e))?;
    if trace {
        accounted(cx, &w, &mats, &counts, &id, opts, (&run, &p))
            .map_err(|e| format!("{}: {}", label, e))?;
    }
    let mut prev: Option<Vec<u32>> = None;
    for s in &p.errors {
        let e = w.sh.at(s, d, &w.dp);
        for &x in &e {
            cx.stat("noise is zero", 1.0, (x == 0) as u32 as f64, 0.75, 0.1875);
            if x != 0 {
                for b in [0, 1, 7, 16, 17] {
                    cx.stat(
                        &format!("nonzero noise bit {}", b),
                        1.0,
                        (x >> b & 1) as f64,
                        0.5,
                        0.25,
                    );
                }
            }
        }
        for q in e.windows(2) {
            let both = (q[0] == 0 && q[1] == 0) as u32 as f64;
            cx.stat(
                "neighbouring noise both zero",
                1.0,
                both,
                0.5625,
                0.5625 * 0.4375,
            );
            // Windows overlap, but a fixed pair per item keeps the trials independent.
            break;
        }
        if let Some(pv) = &prev {
            let both = (e[0] == 0 && pv[0] == 0) as u32 as f64;
            cx.stat(
                "successive noise both zero",
                1.0,
                both,
                0.5625,
                0.5625 * 0.4375,
            );
            prev = None;
        } else {
            prev = Some(e);
        }
    }
    for s in &p.masks {
        for x in w.sh.at(s, d, &w.dp) {
            cx.stat("mask bit", 1.0, x as f64, 0.5, 0.25);
        }
    }
    for s in p.keys.iter().chain(&p.randoms) {
        for x in w.sh.at(s, d, &w.dp) {
            cx.stat("key and random low bit", 1.0, (x & 1) as f64, 0.5, 0.25);
            cx.stat(
                "key and random top bit",
                1.0,
                (x >> (W - 1)) as f64,
                0.5,
                0.25,
            );
        }
    }
    cx.eval(
        (
            cfg,
            counts.masks,
            counts.randoms,
            counts.zeros,
            counts.errors,
            &id,
        ),
        counts.errors + counts.masks + counts.randoms + counts.zeros > 0,
    );
    cx.count("noise sharings", counts.errors as u64);
    cx.sample("run", 3, || json!({"what": label}));
    Ok(())
}

pub fn run17(cx: &mut Cx) {
    cx.rule = "random configurations, matrices, counts (including none) and delivery orders; non-trivial: something asked for".into();
    cx.cases("preproc", cx.amount(8000, 100000), |cx, _, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg::pick(rng, 3, 12);
        case17(cx, &f, rng, cfg, 14, true)
    });
    cx.cases("bulk", cx.amount(300, 3000), |cx, _, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg::pick(rng, 4, 20);
        case17(cx, &f, rng, cfg, 600, false)
    });
}

/// Noise generation seen by the coordinating parties, for C19.
pub fn run19_noise(cx: &mut Cx) {
    cx.cases("noise", cx.amount(1200, 12000), |cx, _, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg::pick(rng, 3, 12);
        let w = World::new(&f, cfg);
        let mats = Mats::pick(rng, &cfg);
        let mut counts = pick_counts(rng, &cfg, 16);
        counts.errors = *[1, 3, cfg.n - 1, cfg.n, cfg.n + 3].choose(rng).unwrap();
        let id = pick_id(rng);
        let opts = SimOpts::pick(rng, cfg.n);
        let run = run_preproc(&w, &mats, counts, &id, opts)?;
        let p = pieces(&run.out)?;
        let label = format!(
            "noise generation of {} values, n={} t={} l={}",
            counts.errors, cfg.n, cfg.t, cfg.l
        );
        accounted(cx, &w, &mats, &counts, &id, opts, (&run, &p))
            .map_err(|e| format!("{}: {}", label, e))?;
        cx.eval((cfg, counts.errors, &id), true);
        cx.sample("noise", 2, || json!({"what": label}));
        Ok(())
    });
}
