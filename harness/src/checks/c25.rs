//! C25: the estimation script against the bytes the protocols send.

use super::c14::{field_cached, pick_id};
use super::c16::{bin_matrix, from_arr, run_preproc, Mats};
use crate::circ::{split, CGate, Circ, GenOpts, Kind};
use crate::cx::{Cx, HARNESS, R};
use crate::ensure;
use crate::lab::{Lab, Noise};
use crate::mpc::*;
use crate::simnet::{Msg, SimOpts};
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::super_inv_matrix;
use serde_json::json;
use std::process::{Command, Stdio};

const SCRIPT: &str = "/repo/scripts/communication_estimates.py";

/// Layers of AND and XOR gates, as many of each as fill blocks, and as many blocks as fill the
/// batches in which blocks are transformed.
fn full(rng: &mut ChaCha12Rng, l: usize) -> Circ {
    let (inp, layers) = loop {
        let inp = rng.gen_range(1..=3usize);
        let layers: Vec<(usize, usize)> = (0..rng.gen_range(1..=3))
            .map(|_| (rng.gen_range(0..=2), rng.gen_range(0..=2)))
            .collect();
        let g: usize = layers.iter().map(|x| x.0 + x.1).sum();
        if g > 0 && (inp + g) % l == 0 && 2 * g % l == 0 {
            break (inp, layers);
        }
    };
    let mut avail: Vec<u32> = (0..(inp * l) as u32).collect();
    let mut gates = Vec::new();
    let mut next = avail.len() as u32;
    for (a, x) in layers {
        let mut kinds = vec![Kind::And; a * l];
        kinds.extend(vec![Kind::Xor; x * l]);
        kinds.shuffle(rng);
        let mut new = Vec::new();
        for kind in kinds {
            gates.push(CGate {
                kind,
                inp: (0..2).map(|_| *avail.choose(rng).unwrap()).collect(),
                out: next,
            });
            new.push(next);
            next += 1;
        }
        avail.extend(new);
    }
    let groups = rng.gen_range(1..=2);
    let outs = rng.gen_range(1..=gates.len() as u32);
    Circ {
        in_lens: split(rng, (inp * l) as u32, groups),
        out_lens: vec![outs],
        num_wires: next,
        gates,
    }
}

/// Bytes per party the script prints, in order garbling, preprocessing, and half a unit in the
/// last place printed.
fn estimate(circ: &Circ, cfg: &Cfg, bdim: usize) -> R<Vec<(f64, f64)>> {
    let out = Command::new("python3")
        .arg("-B")
        .arg(SCRIPT)
        .args(
            [
                circ.num_inputs() as usize,
                circ.count(Kind::And),
                circ.count(Kind::Xor),
            ]
            .map(|x| x.to_string()),
        )
        .args(["-n", &cfg.n.to_string(), "-t", &cfg.t.to_string()])
        .args(["-l", &cfg.l.to_string(), "--binsup-dim", &bdim.to_string()])
        .args(["--lpn-key-len", &cfg.kl.to_string()])
        .args(["--lpn-ctx-len", &cfg.q.to_string()])
        .args(["--lpn-error-bias", "2", "--semi-honest"])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("{}python3: {}", HARNESS, e))?;
    ensure!(
        out.status.success(),
        "the estimation script fails with {}: {}",
        out.status,
        String::from_utf8_lossy(&out.stderr)
    );
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut phase = None;
    let mut found = vec![None; 2];
    for line in text.lines() {
        let low = line.to_lowercase();
        if line.starts_with("---") {
            phase = match (low.contains("garbl"), low.contains("preproc")) {
                (true, false) => Some(0),
                (false, true) => Some(1),
                _ => None,
            };
        } else if low.starts_with("total") {
            let mut it = line.split(':').nth(1).unwrap_or("").split_whitespace();
            let num = it.next().unwrap_or("");
            let unit = match it.next() {
                Some("B") => 1.0,
                Some("KB") => 1e3,
                Some("MB") => 1e6,
                Some("GB") => 1e9,
                _ => continue,
            };
            if let (Some(p), Ok(v)) = (phase, num.parse::<f64>()) {
                let places = num.split('.').nth(1).map_or(0, |x| x.len()) as i32;
                found[p] = Some((v * unit, 0.5 * unit * 10f64.powi(-places)));
            }
        }
    }
    found
        .into_iter()
        .collect::<Option<Vec<_>>>()
        .ok_or_else(|| format!("the estimation script prints no totals: {}", text))
}

/// Bytes of field elements in a run.
fn elements(log: &[Msg]) -> R<usize> {
    let mut sum = 0;
    for m in log {
        let v = decode(&m.data).map_err(|e| {
            format!(
                "a message from {} to {} is not a counted list of elements: {}",
                m.from, m.to, e
            )
        })?;
        ensure!(
            m.data.len() == 8 + 3 * v.len(),
            "a message of {} elements takes {} bytes",
            v.len(),
            m.data.len()
        );
        sum += 3 * v.len();
    }
    Ok(sum)
}

fn case(cx: &mut Cx, rng: &mut ChaCha12Rng, idx: u64) -> R {
    let f = field_cached(cx)?;
    let mut cfg = Cfg::pick(rng, 4, 13);
    (cfg.kl, cfg.q) = (rng.gen_range(1..=6), rng.gen_range(1..=8));
    // Longer keys: hundreds of elements in one message.
    if idx / 4 % 10 == 5 {
        cfg.kl = rng.gen_range(20..=140);
        cfg.q = rng.gen_range(1..=3);
    }
    // Every fourth circuit is arbitrary: then blocks are padded and the estimate is a lower bound.
    let fills = idx / 4 % 4 != 3;
    let circ = if fills {
        full(rng, cfg.l)
    } else {
        let mut o = GenOpts::pick(rng, 24);
        o.weights[2] = 0;
        if o.weights == [0, 0, 0] {
            o.weights = [1, 1, 0];
        }
        Circ::gen(rng, &o)
    };
    let file = cx
        .scratch
        .join(format!("est-{}-{}.txt", cx.profile, cx.shard));
    let lab = Lab::new(&f, cfg, circ, &file);
    let label = lab.label();
    let used: usize = lab.gates.iter().map(|g| g.2.len()).sum();
    // Whether blocks are in fact filled is up to the packing; unfilled ones are judged as such.
    let filled = fills
        && used == cfg.l * lab.gates.len()
        && lab.circ.num_inputs() as usize == cfg.l * lab.inputs.len();
    let brows = rng.gen_range(1..=cfg.n.min(6) - 1);
    let mats = Mats {
        sup: from_arr(&super_inv_matrix::<W>(cfg.n, cfg.n - cfg.t)),
        bin: bin_matrix(rng, brows, cfg.n),
    };
    let est = estimate(&lab.circ, &cfg, brows)?;
    let m = lab.material(rng, false, Noise::None);
    let garbling = elements(
        &lab.garble(&m.pre, &pick_id(rng), SimOpts::pick(rng, cfg.n))?
            .log,
    )?;
    let pre = run_preproc(
        &lab.w,
        &mats,
        lab.counts,
        &pick_id(rng),
        SimOpts::pick(rng, cfg.n),
    )?;
    let preproc = elements(&pre.log)?;
    for (what, bytes, (want, tol)) in [
        ("garbling", garbling, est[0]),
        ("preprocessing", preproc, est[1]),
    ] {
        let got = bytes as f64 / cfg.n as f64;
        ensure!(
            if filled {
                (got - want).abs() <= tol * 1.01
            } else {
                got >= want - tol * 1.01
            },
            "{}: {} sends {} bytes per party, the script estimates {} for circuits that {} their blocks",
            label,
            what,
            got,
            want,
            if filled { "fill" } else { "do not fill" }
        );
    }
    cx.eval((cfg, &lab.circ, brows), filled);
    cx.count(
        if filled {
            "circuits filling their blocks"
        } else {
            "circuits with padding"
        },
        1,
    );
    cx.count("messages", (pre.log.len()) as u64);
    cx.sample("estimate", 4, || {
        json!({"what": label, "garbling": garbling, "preprocessing": preproc, "estimated_per_party": [est[0].0, est[1].0]})
    });
    Ok(())
}

pub fn run25(cx: &mut Cx) {
    cx.rule = "random layered circuits, configurations and matrices; non-trivial: all blocks filled, so that estimate and traffic must be equal".into();
    cx.cases("estimates", cx.amount(1200, 12000), |cx, idx, rng| {
        case(cx, rng, idx)
    });
}

/// Payload bytes and payload plus identifier bytes per sender and receiver of one run of a program:
/// `garble|preproc circuit n t l key-length message-length [matrix]`.
pub fn child24(args: &[String]) -> i32 {
    let f = super::c14::field().unwrap();
    let v: Vec<usize> = args[2..7].iter().map(|x| x.parse().unwrap()).collect();
    let cfg = Cfg {
        n: v[0],
        t: v[1],
        l: v[2],
        kl: v[3],
        q: v[4],
    };
    let mut rng = ChaCha12Rng::seed_from_u64(1);
    let circ = Circ::parse(&std::fs::read_to_string(&args[1]).unwrap());
    let tmp = format!("{}.{}.tmp", args[1], std::process::id());
    let lab = Lab::new(&f, cfg, circ, std::path::Path::new(&tmp));
    let opts = SimOpts::new(crate::simnet::Policy::Flush, 1, 1);
    let log = if args[0] == "garble" {
        let m = lab.material(&mut rng, true, Noise::None);
        lab.garble_raw(&m.pre, b"", opts).map(|o| o.log)
    } else {
        let bin = std::fs::read_to_string(&args[7]).unwrap();
        let mats = Mats {
            sup: from_arr(&super_inv_matrix::<W>(cfg.n, cfg.n - cfg.t)),
            // One line per party.
            bin: per_party(
                &bin.lines()
                    .map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect())
                    .collect::<Vec<Vec<u32>>>(),
                bin.lines().next().unwrap().split_whitespace().count(),
            ),
        };
        Ok(run_preproc(&lab.w, &mats, lab.counts, b"", opts).unwrap().log)
    };
    let log = match log {
        Ok(l) => l,
        Err(e) => {
            println!("{}", String::from(e));
            return 1;
        }
    };
    let mut t = vec![vec![(0u64, 0u64); cfg.n]; cfg.n];
    for m in &log {
        let e = &mut t[m.to as usize][m.from as usize];
        e.0 += m.data.len() as u64;
        e.1 += (m.data.len() + m.id.len()) as u64;
    }
    println!("{}", json!(t));
    0
}
