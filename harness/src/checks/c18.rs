//! C18: garbled tables. C20: public matrices. C21: announced amounts.

use super::c14::{field_cached, pick_id};
use super::c16::{self, judge_pieces, pieces, run_preproc};
use crate::circ::{Circ, GenOpts, Kind};
use crate::cx::{Cx, HARNESS, R};
use crate::ensure;
use crate::lab::*;
use crate::mpc::*;
use crate::simnet::SimOpts;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::circuit::Circuit;
use scalable_mpc::protocol::preproc::{PreProc, PreProcCount};
use serde_json::json;
use std::collections::HashMap;
use std::process::{Command, Stdio};

pub fn pick_lab(cx: &Cx, rng: &mut ChaCha12Rng, cfg: Cfg, o: &GenOpts) -> R<Lab> {
    let f = field_cached(cx)?;
    let circ = Circ::gen(rng, o);
    let file = cx.scratch.join(format!("{}-{}.txt", cx.profile, cx.shard));
    Ok(Lab::new(&f, cfg, circ, &file))
}

/// Noiseless garblings of random material, enough to determine the public matrices.
pub fn observe(
    lab: &mut Lab,
    rng: &mut ChaCha12Rng,
    id: &[u8],
    renew: bool,
) -> R<Vec<(Secrets, Tables)>> {
    let mut runs = Vec::new();
    for _ in 0..lab.w.cfg.kl + 2 {
        let m = lab.material(rng, false, Noise::None);
        let opts = SimOpts::pick(rng, lab.w.cfg.n);
        let r = lab.garble(&m.pre, id, opts)?;
        runs.push((m.sec, r.tables));
        if renew {
            lab.renew();
        }
    }
    Ok(runs)
}

/// Secrets of material held by the parties.
pub fn secrets_of(lab: &Lab, pre: &[PreProc<W>]) -> R<Secrets> {
    let p = pieces(pre)?;
    judge_pieces(&lab.w, &p, &lab.counts)?;
    let d = lab.w.cfg.d();
    let at = |s: &Vec<u32>| lab.w.sh.at(s, d, &lab.w.dp);
    let (kl, b) = (lab.w.cfg.kl, lab.blocks());
    let keys: Vec<Vec<u32>> = p.keys.iter().map(at).collect();
    Ok(Secrets {
        masks: p.masks.iter().map(at).collect(),
        keys: (0..2)
            .map(|i| {
                (0..kl)
                    .map(|k| (0..b).map(|x| keys[(i * kl + k) * b + x].clone()).collect())
                    .collect()
            })
            .collect(),
        errors: p.errors.iter().map(at).collect(),
    })
}

fn case18(cx: &mut Cx, rng: &mut ChaCha12Rng, cfg: Cfg, o: &GenOpts) -> R {
    let mut lab = pick_lab(cx, rng, cfg, o)?;
    let label = lab.label();
    let err = |e: String| format!("{}: {}", label, e);
    let id = pick_id(rng);
    let renew = rng.gen_bool(0.2);
    let runs = observe(&mut lab, rng, &id, renew).map_err(err)?;
    let a = lab.learn(&runs).map_err(err)?;

    // Noise: every table entry carries exactly one supplied entry.
    let m = lab.material(rng, false, Noise::Distinct);
    let opts = SimOpts::pick(rng, cfg.n);
    let r = lab.garble(&m.pre, &id, opts).map_err(err)?;
    lab.judge_noise(&m.sec, &r.tables, &a).map_err(err)?;

    // Evaluation on input assignments.
    let num_in = lab.circ.num_inputs() as usize;
    let mut evals = 0;
    let assignments: Vec<Vec<bool>> = if num_in <= 4 {
        (0..1u32 << num_in)
            .map(|v| (0..num_in).map(|i| v >> i & 1 == 1).collect())
            .collect()
    } else {
        (0..8)
            .map(|_| (0..num_in).map(|_| rng.gen()).collect())
            .collect()
    };
    for x in &assignments {
        let (sec, t) = runs.choose(rng).unwrap();
        if lab.evaluate(sec, t, &a, x).map_err(err)? {
            evals += 1;
        }
    }

    // Material from a preprocessing run.
    if rng.gen_bool(0.5) {
        let mats = c16::Mats::pick(rng, &cfg);
        let pid = pick_id(rng);
        let opts = SimOpts::pick(rng, cfg.n);
        let run = run_preproc(&lab.w, &mats, lab.counts, &pid, opts).map_err(err)?;
        let sec = secrets_of(&lab, &run.out).map_err(err)?;
        let opts = SimOpts::pick(rng, cfg.n);
        let r = lab.garble(&run.out, &id, opts).map_err(err)?;
        lab.judge_noise(&sec, &r.tables, &a)
            .map_err(|e| format!("{}: with preprocessed material: {}", label, e))?;
        cx.count("garblings of preprocessed material", 1);
    }
    // Material derived locally from a seed.
    if rng.gen_bool(0.02) {
        let seed = rng.gen();
        let pre: Vec<PreProc<W>> = contexts(&cfg)
            .iter()
            .map(|c| PreProc::dummy(seed, lab.counts, c))
            .collect();
        let sec = secrets_of(&lab, &pre).map_err(err)?;
        let opts = SimOpts::pick(rng, cfg.n);
        let r = lab.garble(&pre, &id, opts).map_err(err)?;
        lab.judge_noise(&sec, &r.tables, &a)
            .map_err(|e| format!("{}: with locally derived material: {}", label, e))?;
        cx.count("garblings of locally derived material", 1);
    }
    cx.eval((cfg, &lab.circ), true);
    cx.count("garblings", runs.len() as u64 + 1);
    cx.count(
        "table rows judged",
        (lab.rows().len() * (runs.len() + 1)) as u64,
    );
    cx.count("evaluations of the garbled circuit", evals);
    cx.sample("circuit", 3, || json!({"what": label}));
    Ok(())
}

pub fn run18(cx: &mut Cx) {
    cx.rule = "random circuits, configurations, material and delivery orders; every table entry of every garbling judged".into();
    cx.cases("garble", cx.amount(2400, 24000), |cx, _, rng| {
        let cfg = Cfg::pick(rng, 3, 11);
        let o = GenOpts::pick(rng, 14);
        case18(cx, rng, cfg, &o)
    });
    cx.cases("large", cx.amount(24, 240), |cx, idx, rng| {
        let (cfg, gates) = match idx / 4 % 3 {
            // More gate blocks than fit one byte of identifier.
            0 => (
                Cfg {
                    n: 3,
                    t: 1,
                    l: 1,
                    kl: 1,
                    q: 2,
                },
                rng.gen_range(250..320),
            ),
            1 => (
                Cfg {
                    n: 7,
                    t: 1,
                    l: 3,
                    kl: 2,
                    q: 3,
                },
                rng.gen_range(100..200),
            ),
            _ => {
                let mut c = Cfg::pick(rng, 6, 24);
                c.kl = rng.gen_range(1..=5);
                c.q = rng.gen_range(1..=8);
                (c, 60)
            }
        };
        let mut o = GenOpts::pick(rng, gates);
        o.gates = gates;
        case18(cx, rng, cfg, &o)
    });
}

fn case20(cx: &mut Cx, rng: &mut ChaCha12Rng, cfg: Cfg, o: &GenOpts) -> R {
    let mut lab = pick_lab(cx, rng, cfg, o)?;
    let label = lab.label();
    let id = pick_id(rng);
    // Contexts are derived anew by every party for every garbling.
    let runs = observe(&mut lab, rng, &id, true).map_err(|e| format!("{}: {}", label, e))?;
    let a = lab
        .learn(&runs)
        .map_err(|e| format!("{}: no common matrix over parties and runs: {}", label, e))?;
    let mut by_class: HashMap<Vec<(u32, usize)>, HashMap<&Vec<Vec<u32>>, (usize, usize, usize)>> =
        HashMap::new();
    let mut shared = 0u64;
    let mut known = 0u64;
    for (g, (_, _, out)) in lab.gates.iter().enumerate() {
        for s in 0..out.len() {
            let mut own: HashMap<&Vec<Vec<u32>>, usize> = HashMap::new();
            for (r, row) in a[g].iter().enumerate() {
                let Some(m) = &row[s] else { continue };
                known += 1;
                if let Some(r2) = own.insert(m, r) {
                    return Err(format!(
                        "{}: rows {} and {} of slot {} of gate block {} use the same matrix",
                        label, r2, r, s, g
                    ));
                }
                // Labels entering twice cancel.
                let mut class = lab.row_labels(g, r, s);
                class.sort_unstable();
                if class.len() == 2 && class[0] == class[1] {
                    continue;
                }
                let e = by_class.entry(class.clone()).or_default();
                shared += !e.is_empty() as u64;
                if let Some(at) = e.insert(m, (g, r, s)) {
                    return Err(format!(
                        "{}: row {} of slot {} of gate block {} and row {} of slot {} of gate block {} are encrypted under the same labels {:?} with the same matrix",
                        label, at.1, at.2, at.0, r, s, g, class
                    ));
                }
            }
        }
    }
    cx.eval((cfg, &lab.circ), shared > 0);
    cx.count("matrices recovered", known);
    cx.count("rows under an already used key", shared);
    cx.sample(
        "circuit",
        3,
        || json!({"what": label, "rows under an already used key": shared}),
    );
    Ok(())
}

pub fn run20(cx: &mut Cx) {
    cx.rule = "random circuits with repeated, swapped and equal operands; non-trivial: some key encrypts several rows".into();
    cx.cases("matrices", cx.amount(2000, 24000), |cx, idx, rng| {
        let mut cfg = Cfg::pick(rng, 4, 11);
        cfg.kl = if rng.gen_bool(0.8) { 1 } else { 2 };
        cfg.q = rng.gen_range(3..=4);
        let big = idx / 4 % 16 == 0;
        let mut o = GenOpts::pick(rng, if big { 60 } else { 20 });
        o.repeat_pair = *[0, 30, 60, 90].choose(rng).unwrap();
        o.same_wire = *[0, 5, 30, 80].choose(rng).unwrap();
        o.pool = *[None, Some(1), Some(2), Some(3)].choose(rng).unwrap();
        case20(cx, rng, cfg, &o)
    });
    // Wires used more often than fits one byte.
    cx.cases("fan", cx.amount(16, 160), |cx, idx, rng| {
        let l = 1 + idx as usize / 4 % 2;
        let cfg = Cfg {
            n: 2 * l + 1,
            t: 1,
            l,
            kl: 1,
            q: 3,
        };
        let mut o = GenOpts::pick(rng, 1);
        o.gates = l * rng.gen_range(340..420);
        o.weights = [[0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 1]][idx as usize / 8 % 4];
        o.max_inputs = 3;
        o.repeat_pair = 0;
        o.same_wire = *[0, 50].choose(rng).unwrap();
        o.pool = Some(1);
        case20(cx, rng, cfg, &o)
    });
}

fn case21(cx: &mut Cx, rng: &mut ChaCha12Rng, cfg: Cfg, o: &GenOpts) -> R {
    let lab = pick_lab(cx, rng, cfg, o)?;
    let label = lab.label();
    let c = lab.counts;
    for ctx in contexts(&cfg).iter() {
        let o = PreProc::describe(&lab.packed, ctx);
        ensure!(
            (o.masks, o.keys, o.randoms, o.zeros, o.errors)
                == (c.masks, c.keys, c.randoms, c.zeros, c.errors),
            "{}: parties are told different amounts",
            label
        );
    }
    ensure!(
        c.masks == lab.blocks() && c.keys == (2, cfg.kl, lab.blocks()),
        "{}: {} masks and keys {:?} are announced for {} blocks",
        label,
        c.masks,
        c.keys,
        lab.blocks()
    );
    let id = pick_id(rng);
    let m = lab.material(rng, false, Noise::Distinct);
    let opts = SimOpts::pick(rng, cfg.n);
    lab.garble(&m.pre, &id, opts)
        .map_err(|e| format!("{}: the announced amounts do not suffice: {}", label, e))?;
    let mut tried = 0;
    for kind in 0..3 {
        let name = ["random sharing", "zero sharing", "noise sharing"][kind];
        let mut pre = m.pre.clone();
        let mut had = true;
        for p in pre.iter_mut() {
            let q = match kind {
                0 => &mut p.randoms,
                1 => &mut p.zeros,
                _ => &mut p.errors,
            };
            // Which one is missing must not matter.
            if rng.gen() {
                had &= q.pop_back().is_some();
            } else {
                had &= q.pop_front().is_some();
            }
        }
        if !had {
            continue;
        }
        tried += 1;
        let opts = SimOpts::pick(rng, cfg.n);
        ensure!(
            lab.garble_raw(&pre, &id, opts).is_err(),
            "{}: garbling completes with one {} fewer than announced",
            label,
            name
        );
        crate::cx::clear_panics();
    }
    cx.eval((cfg, &lab.circ), tried == 3);
    cx.count("garblings with one item too few", tried);
    cx.sample("circuit", 3, || {
        json!({"what": label, "masks": c.masks, "randoms": c.randoms, "zeros": c.zeros, "noise": c.errors})
    });
    Ok(())
}

pub fn run21(cx: &mut Cx) {
    cx.rule = "random circuits and configurations; non-trivial: exact amounts and every kind short by one were tried".into();
    cx.cases("amounts", cx.amount(3000, 30000), |cx, _, rng| {
        let cfg = Cfg::pick(rng, 4, 13);
        let o = GenOpts::pick(rng, 20);
        case21(cx, rng, cfg, &o)
    });
    // Amounts that are wrong only for many gates of one kind.
    cx.cases("many", cx.amount(48, 480), |cx, idx, rng| {
        let l = 1 + idx as usize / 8 % 2;
        let cfg = Cfg {
            n: 2 * l + 1 + rng.gen_range(0..3),
            t: 1,
            l,
            kl: rng.gen_range(1..=2),
            q: rng.gen_range(1..=3),
        };
        let mut o = GenOpts::pick(rng, 1);
        o.gates = l * rng.gen_range(150..330);
        o.max_inputs = *[3, 120].choose(rng).unwrap();
        o.weights = [[0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 1]][idx as usize / 16 % 4];
        case21(cx, rng, cfg, &o)
    });
    if let Ok(bins) = std::env::var("HARNESS_BINS") {
        cx.cases("tool", cx.amount(160, 1600), |cx, idx, rng| {
            tool21(cx, rng, idx, &bins)
        });
    }
}

/// Lengths of what every party deals to every party, when each dealt sharing yields one sharing.
fn dealt(cx: &Cx, rng: &mut ChaCha12Rng, cfg: Cfg, c: PreProcCount) -> R<Vec<usize>> {
    let f = field_cached(cx)?;
    let w = World::new(&f, cfg);
    let ones = vec![vec![1; cfg.n]];
    let mats = c16::Mats {
        sup: ones.clone(),
        bin: ones,
    };
    let run = run_preproc(&w, &mats, c, &pick_id(rng), SimOpts::pick(rng, cfg.n))?;
    let mut by_id: HashMap<Vec<u8>, HashMap<(u16, u16), usize>> = HashMap::new();
    for m in &run.log {
        *by_id
            .entry(m.id.clone())
            .or_default()
            .entry((m.from, m.to))
            .or_insert(0) += decode(&m.data)?.len();
    }
    let mut res = Vec::new();
    for links in by_id.values() {
        // Openings only have one coordinator.
        if links.len() == cfg.n * cfg.n {
            let num = links[&(0, 0)];
            ensure!(
                links.values().all(|v| *v == num),
                "parties deal different numbers of sharings"
            );
            res.push(num);
        }
    }
    res.sort_unstable();
    Ok(res)
}

/// What the size tool prints for a circuit and parameters.
fn tool21(cx: &mut Cx, rng: &mut ChaCha12Rng, idx: u64, bins: &str) -> R {
    field_cached(cx)?;
    let mut cfg = Cfg::pick(rng, 5, 20);
    let defaults = idx / 4 % 5 == 0;
    if defaults {
        (cfg.kl, cfg.q) = (127, 555);
    } else {
        cfg.kl = rng.gen_range(1..if idx % 2 == 0 { 6 } else { 60 });
        cfg.q = rng.gen_range(1..if idx % 2 == 0 { 10 } else { 200 });
    }
    let gates = rng.gen_range(1..if idx % 2 == 0 { 20 } else { 60 });
    let mut o = GenOpts::pick(rng, gates);
    o.gates = gates;
    let circ = Circ::gen(rng, &o);
    let file = cx
        .scratch
        .join(format!("tool-{}-{}.txt", cx.profile, cx.shard));
    circ.write(&file, 0);
    let packed = Circuit::from_bristol_fashion(&file).pack(cfg.l as u32);
    let c = PreProc::<W>::describe(&packed, &contexts(&cfg)[0]);
    let mut cmd = Command::new(format!("{}/preproc_size", bins));
    cmd.arg("--circ").arg(&file);
    for (k, v) in [
        ("--num-parties", cfg.n),
        ("--threshold", cfg.t),
        ("--packing-param", cfg.l),
    ] {
        cmd.arg(k).arg(v.to_string());
    }
    if !defaults {
        cmd.arg("--lpn-key-len").arg(cfg.kl.to_string());
        cmd.arg("--lpn-mssg-len").arg(cfg.q.to_string());
    }
    let label = format!(
        "size tool, n={} t={} l={} key {} message {}, {} AND {} XOR {} INV",
        cfg.n,
        cfg.t,
        cfg.l,
        cfg.kl,
        cfg.q,
        circ.count(Kind::And),
        circ.count(Kind::Xor),
        circ.count(Kind::Inv)
    );
    let out = cmd
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("{}{}", HARNESS, e))?;
    let _ = std::fs::remove_file(&file);
    ensure!(
        out.status.success(),
        "{}: fails with {}: {}",
        label,
        out.status,
        String::from_utf8_lossy(&out.stderr)
    );
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let keys = c.keys.0 * c.keys.1 * c.keys.2;
    // Serialised: per kind a length of eight bytes and three bytes per share.
    let pre = PreProc::<W> {
        masks: vec![F::ONE; c.masks].into(),
        keys: ndarray::Array3::from_elem(c.keys, F::ONE),
        randoms: vec![F::ONE; c.randoms].into(),
        zeros: vec![F::ONE; c.zeros].into(),
        errors: vec![F::ONE; c.errors].into(),
    };
    let size = bincode::serialize(&pre).map_err(|e| e.to_string())?.len();
    for (name, want) in [
        ("Mask shares", c.masks),
        ("Key shares", keys),
        ("Random shares", c.randoms),
        ("Random zeros", c.zeros),
        ("Random errors", c.errors),
        ("Total preproc size", size),
    ] {
        // The first line with this name; the next section repeats some names.
        let got = text
            .lines()
            .find_map(|l| l.trim().strip_prefix(name)?.trim_start().strip_prefix(':'))
            .map(|v| v.trim().trim_end_matches("bytes").trim().to_string());
        ensure!(
            got == Some(want.to_string()),
            "{}: prints {:?} for '{}', expected {}",
            label,
            got,
            name,
            want
        );
    }
    // The next section: sharings of each kind the preprocessing deals.
    let work = (keys + c.randoms + c.zeros + c.masks + 7 * c.errors) * cfg.n * cfg.n;
    if work < 3_000_000 {
        let printed = |name: &str| -> R<usize> {
            text.lines()
                .skip_while(|l| !l.contains("generation"))
                .find_map(|l| l.trim().strip_prefix(name)?.trim_start().strip_prefix(':'))
                .and_then(|v| v.trim().parse().ok())
                .ok_or_else(|| format!("{}: prints no number of '{}' generated", label, name))
        };
        let mut want = vec![
            printed("Random shares")?,
            printed("Zero shares")?,
            printed("Bit shares")?,
        ];
        want.sort_unstable();
        let got = dealt(cx, rng, cfg, c)?;
        ensure!(
            got == want,
            "{}: announces {:?} sharings to generate, the preprocessing deals {:?}",
            label,
            want,
            got
        );
        cx.count("numbers of dealt sharings compared", 3);
    }
    cx.eval((cfg, &circ), true);
    cx.count("runs of the size tool", 1);
    cx.sample("tool", 2, || json!({"what": label, "bytes": size}));
    Ok(())
}
