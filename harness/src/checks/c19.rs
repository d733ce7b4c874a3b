//! C19: what coordinating parties see while garbling.

use super::c14::pick_id;
use super::c18::pick_lab;
use crate::circ::GenOpts;
use crate::cx::{Cx, R};
use crate::ensure;
use crate::lab::*;
use crate::mpc::*;
use crate::simnet::SimOpts;
use crate::views;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

/// What distinguishes a share vector from one of degree at most `deg`.
fn syndrome(w: &World, s: &[u32], deg: usize) -> Vec<u32> {
    let low = w.sh.at(s, deg, &w.sh.sp[deg + 1..]);
    w.add(&low, &s[deg + 1..])
}

/// Spanning set of vectors kept reduced, for membership tests.
struct Span<'a> {
    w: &'a World,
    rows: Vec<(usize, Vec<u32>)>,
}

impl<'a> Span<'a> {
    fn reduce(&self, v: &[u32]) -> Vec<u32> {
        let mut v = v.to_vec();
        for (p, r) in &self.rows {
            let c = v[*p];
            if c != 0 {
                for (x, &y) in v.iter_mut().zip(r) {
                    *x ^= self.w.f.mul(c, y);
                }
            }
        }
        v
    }

    fn has(&self, v: &[u32]) -> bool {
        self.reduce(v).iter().all(|&x| x == 0)
    }

    fn insert(&mut self, v: &[u32]) {
        let v = self.reduce(v);
        if let Some(p) = v.iter().position(|&x| x != 0) {
            let i = self.w.f.inv(v[p]);
            let v: Vec<u32> = v.iter().map(|&x| self.w.f.mul(i, x)).collect();
            self.rows.push((p, v));
        }
    }
}

struct Seen {
    mat: Material,
    opens: BTreeMap<Vec<u8>, views::Opening>,
    ata: BTreeMap<Vec<u8>, views::AllToAll>,
}

fn case(cx: &mut Cx, rng: &mut ChaCha12Rng, cfg: Cfg, o: &GenOpts) -> R {
    let lab = pick_lab(cx, rng, cfg, o)?;
    let w = &lab.w;
    let (n, t, l, d) = (cfg.n, cfg.t, cfg.l, cfg.d());
    let label = lab.label();
    let id = pick_id(rng);
    let num_runs = n + t + 4;
    let mut runs: Vec<Seen> = Vec::new();
    for _ in 0..num_runs {
        let mat = lab.material(rng, true, Noise::None);
        let opts = SimOpts::pick(rng, n);
        let r = lab
            .garble(&mat.pre, &id, opts)
            .map_err(|e| format!("{}: {}", label, e))?;
        let mut s = Seen {
            mat,
            opens: BTreeMap::new(),
            ata: BTreeMap::new(),
        };
        for (id, msgs) in views::by_id(&r.log) {
            if let Some(a) = views::all_to_all(&msgs, n)? {
                s.ata.insert(id, a);
            } else if let Some(o) = views::opening(&msgs, n)? {
                ensure!(
                    o.seen.len() == o.back.len(),
                    "{}: leader {} answers {} values with {}",
                    label,
                    o.leader,
                    o.seen.len(),
                    o.back.len()
                );
                s.opens.insert(id, o);
            } else {
                return Err(format!(
                    "{}: traffic under id {:?} is neither from everybody to everybody nor through one leader",
                    label, id
                ));
            }
        }
        runs.push(s);
    }
    for s in &runs[1..] {
        ensure!(
            s.opens.keys().eq(runs[0].opens.keys()) && s.ata.keys().eq(runs[0].ata.keys()),
            "{}: the identifiers in use differ between two garblings",
            label
        );
    }

    // Zero sharings and transformation masks, run by run.
    let mut is_trans: HashMap<(Vec<u8>, usize), bool> = HashMap::new();
    for s in &runs {
        let mut z_rand: HashMap<Vec<u32>, usize> = HashMap::new();
        let mut z_mult: HashMap<Vec<u32>, usize> = HashMap::new();
        for (k, z) in s.mat.zeros.iter().enumerate() {
            z_rand.insert(syndrome(w, z, t + 2 * l - 1), k);
            z_mult.insert(syndrome(w, z, 2 * d), k);
        }
        let mut z_used: HashMap<usize, String> = HashMap::new();
        let mut spend = |k: usize, by: String| -> R {
            match z_used.insert(k, by.clone()) {
                Some(other) => Err(format!(
                    "{}: zero sharing {} re-randomises both {} and {}",
                    label, k, other, by
                )),
                None => Ok(()),
            }
        };
        // Full-degree masks as the parties end up holding them.
        let mut masks: HashMap<Vec<u32>, (Vec<u8>, usize, usize)> = HashMap::new();
        for (id, a) in &s.ata {
            let items = a[0].len();
            // [receiver][item] -> vector over senders
            for c in 0..items {
                let mut opened: Vec<Vec<u32>> = Vec::new();
                for i in 0..n {
                    let v: Vec<u32> = (0..n).map(|p| a[p][c][i]).collect();
                    match z_rand.get(&syndrome(w, &v, t + 2 * l - 1)) {
                        Some(&k) => spend(k, format!("item {} for party {} under {:?}", c, i, id))?,
                        None => {
                            return Err(format!(
                                "{}: the share vector of item {} party {} receives under {:?} is not re-randomised by a supplied zero sharing",
                                label, c, i, id
                            ))
                        }
                    }
                    opened.push(w.secrets(&v));
                }
                for j in 0..l {
                    let sv: Vec<u32> = opened.iter().map(|o| o[j]).collect();
                    let syn = syndrome(w, &sv, t + 2 * l - 2);
                    if syn.iter().any(|&x| x != 0) {
                        masks.insert(syn, (id.clone(), c, j));
                    }
                }
            }
        }
        let mut m_used: HashMap<(Vec<u8>, usize, usize), String> = HashMap::new();
        for (id, o) in &s.opens {
            for (k, seen) in o.seen.iter().enumerate() {
                let by = format!("value {} opened to party {} under {:?}", k, o.leader, id);
                if let Some(m) = masks.get(&syndrome(w, seen, t + 2 * l - 2)) {
                    if let Some(other) = m_used.insert(m.clone(), by.clone()) {
                        return Err(format!(
                            "{}: one transformation mask hides both {} and {}",
                            label, other, by
                        ));
                    }
                    is_trans.insert((id.clone(), k), true);
                } else if let Some(&z) = z_mult.get(&syndrome(w, seen, 2 * d)) {
                    spend(z, by)?;
                    is_trans.insert((id.clone(), k), false);
                } else {
                    return Err(format!(
                        "{}: the share vector of {} is re-randomised neither by a supplied zero sharing nor by a transformation mask",
                        label, by
                    ));
                }
            }
        }
        cx.count("zero sharings traced", z_used.len() as u64);
        cx.count("transformation masks traced", m_used.len() as u64);
    }

    // Random sharings, over all runs: first-slot secret of item k in every run.
    let col = |k: usize| -> Vec<u32> {
        runs.iter()
            .map(|s| w.sh.at(&s.mat.randoms[k], d, &w.dp[..1])[0])
            .collect()
    };
    let cols: Vec<Vec<u32>> = (0..lab.counts.randoms).map(col).collect();
    let index: HashMap<&Vec<u32>, usize> = cols.iter().enumerate().map(|(k, c)| (c, k)).collect();
    let mut tfs: Vec<(Vec<u32>, Vec<u32>, Vec<usize>)> = Vec::new();
    for ws in lab.inputs.iter().chain(lab.gates.iter().map(|g| &g.2)) {
        tfs.push((
            w.dp[..ws.len()].to_vec(),
            w.wire_pos(ws),
            (0..ws.len()).collect(),
        ));
    }
    for ws in lab.gates.iter().flat_map(|g| &g.1) {
        let mut old = ws.clone();
        old.sort_unstable();
        old.dedup();
        let map = ws.iter().map(|x| old.binary_search(x).unwrap()).collect();
        tfs.push((w.wire_pos(&old), w.dp[..ws.len()].to_vec(), map));
    }
    let mut used: HashMap<usize, String> = HashMap::new();
    let mut spend = |k: usize, by: String| -> R {
        match used.insert(k, by.clone()) {
            Some(other) => Err(format!(
                "{}: random sharing {} hides both {} and {}",
                label, k, other, by
            )),
            None => Ok(()),
        }
    };
    for (id, o) in &runs[0].opens {
        for k in 0..o.seen.len() {
            let backs: Vec<Vec<u32>> = runs.iter().map(|s| s.opens[id].back[k].clone()).collect();
            if is_trans[&(id.clone(), k)] {
                // Which of the circuit's transformations this is shows in the values.
                let mut fits = false;
                for (old, new, map) in &tfs {
                    let vals: Vec<Vec<u32>> = runs
                        .iter()
                        .map(|s| {
                            let x = w.sh.at(&s.opens[id].seen[k], n - 1, old);
                            map.iter().map(|&i| x[i]).collect()
                        })
                        .collect();
                    if vals
                        .iter()
                        .zip(&backs)
                        .any(|(v, b)| w.sh.at(b, d, new) != *v)
                    {
                        continue;
                    }
                    fits = true;
                    let mut none = rand::rngs::mock::StepRng::new(0, 0);
                    let res: Vec<Vec<u32>> = vals
                        .iter()
                        .zip(&backs)
                        .map(|(v, b)| w.add(b, &w.sh.deal(&mut none, d, new, v)))
                        .collect();
                    let rank = w.f.rank(&res);
                    ensure!(
                        rank >= t,
                        "{}: what party {} sends back under {:?} for value {} is randomised in {} instead of {} directions",
                        label, o.leader, id, k, rank, d + 1 - new.len()
                    );
                    break;
                }
                ensure!(
                    fits,
                    "{}: what party {} sends back under {:?} for value {} is no transformation of what it opened",
                    label, o.leader, id, k
                );
                continue;
            }
            let v: Vec<u32> = runs
                .iter()
                .map(|s| w.secrets(&s.opens[id].seen[k])[0])
                .collect();
            let v1: Vec<u32> = v.iter().map(|x| x ^ 1).collect();
            let by = format!("value {} opened to party {} under {:?}", k, o.leader, id);
            match index.get(&v).or_else(|| index.get(&v1)) {
                Some(&r) => spend(r, by)?,
                None => {
                    return Err(format!(
                        "{}: {} is not hidden by a supplied random sharing (seen {:?})",
                        label,
                        by,
                        &v[..4]
                    ))
                }
            }
            // Answers minus the sharing of the opened values with all free points zero.
            let mut none = rand::rngs::mock::StepRng::new(0, 0);
            let res: Vec<Vec<u32>> = runs
                .iter()
                .zip(&backs)
                .map(|(s, b)| {
                    let v = w.secrets(&s.opens[id].seen[k]);
                    w.add(b, &w.low(&mut none, &v))
                })
                .collect();
            let rank = w.f.rank(&res);
            ensure!(
                rank == t,
                "{}: what party {} sends back under {:?} for value {} is randomised in {} instead of {} directions",
                label, o.leader, id, k, rank, t
            );
        }
    }
    // Which random sharings the low and the full transformation masks are made of.
    let mut low_of: HashMap<usize, (Vec<u8>, usize)> = HashMap::new();
    let mut full_of: HashMap<usize, (Vec<u8>, usize)> = HashMap::new();
    let mut lows: Vec<((Vec<u8>, usize), Vec<usize>)> = Vec::new();
    for (id, a) in &runs[0].ata {
        for c in 0..a[0].len() {
            // What each party obtains in the first slot, run by run.
            let shares: Vec<Vec<u32>> = runs
                .iter()
                .map(|s| {
                    (0..n)
                        .map(|i| {
                            let v: Vec<u32> = (0..n).map(|p| s.ata[id][p][c][i]).collect();
                            w.secrets(&v)[0]
                        })
                        .collect()
                })
                .collect();
            let low = shares.iter().all(|s| w.sh.on_degree(s, d));
            let mut span = Span {
                w,
                rows: Vec::new(),
            };
            for i in 0..n {
                span.insert(&shares.iter().map(|s| s[i]).collect::<Vec<_>>());
            }
            let by = format!("transformation mask {} under {:?}", c, id);
            let need = if low { t + 1 } else { n };
            let hits: Vec<usize> = (0..cols.len()).filter(|&k| span.has(&cols[k])).collect();
            ensure!(
                span.rows.len() >= need && hits.len() == span.rows.len(),
                "{}: {} varies in {} directions (at least {} expected) and uses {} supplied random sharings",
                label,
                by,
                span.rows.len(),
                need,
                hits.len()
            );
            for &k in &hits {
                ensure!(
                    !used.contains_key(&k),
                    "{}: random sharing {} hides both {} and {}",
                    label,
                    k,
                    used[&k],
                    by
                );
                let map = if low { &mut low_of } else { &mut full_of };
                if let Some(other) = map.insert(k, (id.clone(), c)) {
                    return Err(format!(
                        "{}: random sharing {} is part of {} and of mask {} under {:?}",
                        label, k, by, other.1, other.0
                    ));
                }
            }
            if low {
                lows.push(((id.clone(), c), hits));
            }
        }
    }
    // A low mask shares secrets with one full mask only, and has random points of its own.
    for ((id, c), ks) in &lows {
        let mut partner = None;
        let mut own = 0;
        for k in ks {
            match full_of.get(k) {
                None => own += 1,
                Some(p) => {
                    ensure!(
                        partner.is_none() || partner == Some(p),
                        "{}: low transformation mask {} under {:?} has random sharings in common with two full ones",
                        label,
                        c,
                        id
                    );
                    partner = Some(p);
                }
            }
        }
        ensure!(
            own >= t && partner.is_some(),
            "{}: low transformation mask {} under {:?} has {} random sharings of its own",
            label,
            c,
            id,
            own
        );
    }
    cx.count(
        "random sharings traced to transformations",
        low_of
            .keys()
            .chain(full_of.keys())
            .collect::<std::collections::HashSet<_>>()
            .len() as u64,
    );
    cx.count("random sharings traced", used.len() as u64);
    cx.count("garblings", num_runs as u64);
    cx.eval((cfg, &lab.circ), true);
    cx.sample(
        "circuit",
        3,
        || json!({"what": label, "garblings": num_runs}),
    );
    Ok(())
}

pub fn run(cx: &mut Cx) {
    cx.rule = "random circuits, configurations and delivery orders; every opened value of every run attributed to its mask and zero sharing".into();
    cx.cases("garble", cx.amount(640, 8000), |cx, idx, rng| {
        let t = rng.gen_range(1..=2);
        let l = rng.gen_range(1..=3);
        let cfg = Cfg {
            n: 2 * (t + l) + 2 + rng.gen_range(0..=2),
            t,
            l,
            kl: rng.gen_range(1..=2),
            q: rng.gen_range(1..=3),
        };
        let o = GenOpts::pick(rng, if idx / 4 % 8 == 0 { 14 } else { 6 });
        case(cx, rng, cfg, &o)
    });
    super::c16::run19_noise(cx);
}
