//! C04: binary extraction matrices.

use crate::cx::{Cx, HARNESS, R};
use crate::ensure;
use crate::mpc::us;
use crate::refgf::rank_gf2;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::binary_super_inv_matrix;
use scalable_mpc::math::galois::GF;
use serde_json::json;
use std::path::Path;

fn load(path: &Path) -> Vec<Vec<u32>> {
    let m = binary_super_inv_matrix::<18>(path);
    m.rows().into_iter().map(|r| us(r.iter())).collect()
}

fn loader(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    let parties = rng.gen_range(1..40usize);
    let outs = rng.gen_range(1..20usize);
    let ones = *[0.0, 0.1, 0.5, 0.9, 1.0].choose(rng).unwrap();
    let m: Vec<Vec<u32>> = (0..parties)
        .map(|_| (0..outs).map(|_| rng.gen_bool(ones) as u32).collect())
        .collect();
    let mut text = m
        .iter()
        .map(|r| {
            r.iter()
                .map(|v| v.to_string())
                .collect::<Vec<_>>()
                .join(" ")
        })
        .collect::<Vec<_>>()
        .join("\n");
    if rng.gen() {
        text.push('\n');
    }
    let path = cx.scratch.join("mat.txt");
    std::fs::write(&path, &text).map_err(|e| format!("{}{}", HARNESS, e))?;
    let got = load(&path);
    ensure!(
        got.len() == outs && got.iter().all(|r| r.len() == parties),
        "matrix file with {} parties and {} bits loads as {}x{}",
        parties,
        outs,
        got.len(),
        got.first().map(|r| r.len()).unwrap_or(0)
    );
    for i in 0..outs {
        for j in 0..parties {
            ensure!(
                got[i][j] == m[j][i],
                "entry (bit {}, party {}) of a {}x{} matrix file loads as {}",
                i,
                j,
                outs,
                parties,
                got[i][j]
            );
        }
    }
    cx.eval(&m, ones > 0.0 && ones < 1.0);
    cx.count("loaded files", 1);
    Ok(())
}

/// Columns (one per party) as bit sets over the extracted bits.
struct Mat {
    name: String,
    n: usize,
    t: usize,
    k: usize,
    /// rows[i]: bitset over parties.
    rows: Vec<Vec<u64>>,
}

fn shipped() -> R<Vec<Mat>> {
    let mut res = Vec::new();
    let dir =
        std::fs::read_dir("/repo/data/binsup_mat").map_err(|e| format!("{}{}", HARNESS, e))?;
    for e in dir {
        let e = e.map_err(|e| format!("{}{}", HARNESS, e))?;
        let name = e.file_name().to_string_lossy().to_string();
        let Some((n, t)) = name
            .strip_prefix('n')
            .and_then(|s| s.strip_suffix(".txt"))
            .and_then(|s| s.split_once("_t"))
            .and_then(|(a, b)| Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?)))
        else {
            continue;
        };
        let m = load(&e.path());
        ensure!(
            !m.is_empty() && m.iter().all(|r| r.len() == n),
            "{}: loads as {} rows of {} columns, expected one column for each of {} parties",
            name,
            m.len(),
            m.first().map(|r| r.len()).unwrap_or(0),
            n
        );
        ensure!(
            m.iter().flatten().all(|&v| v <= 1),
            "{}: non-binary entry",
            name
        );
        let words = n.div_ceil(64);
        let rows = m
            .iter()
            .map(|r| {
                let mut b = vec![0u64; words];
                for (j, &v) in r.iter().enumerate() {
                    b[j / 64] |= (v as u64) << (j % 64);
                }
                b
            })
            .collect();
        res.push(Mat {
            name,
            n,
            t,
            k: m.len(),
            rows,
        });
    }
    res.sort_by_key(|m| (m.n, m.t));
    ensure!(!res.is_empty(), "{}no shipped matrices found", HARNESS);
    Ok(res)
}

/// Full row rank of the honest columns.
fn survives(m: &Mat, bad: &[usize]) -> bool {
    let mut mask = vec![!0u64; m.rows[0].len()];
    for &b in bad {
        mask[b / 64] &= !(1u64 << (b % 64));
    }
    let rows: Vec<Vec<u64>> = m
        .rows
        .iter()
        .map(|r| r.iter().zip(&mask).map(|(a, b)| a & b).collect())
        .collect();
    rank_gf2(&rows, m.n) == m.k
}

fn corrupt(cx: &mut Cx, m: &Mat, rng: &mut ChaCha12Rng, rounds: u64) -> R {
    let fail = |bad: &[usize]| {
        format!(
            "{}: with parties {:?} corrupt ({} <= t = {}) the extracted bits are not independent",
            m.name,
            bad,
            bad.len(),
            m.t
        )
    };
    for _ in 0..rounds {
        // Random sets, runs of neighbours, arithmetic progressions.
        let bad: Vec<usize> = match rng.gen_range(0..3) {
            0 => rand::seq::index::sample(rng, m.n, m.t).into_vec(),
            1 => {
                let s = rng.gen_range(0..m.n);
                (0..m.t).map(|i| (s + i) % m.n).collect()
            }
            _ => {
                let step = *[2usize, 4, 8, 16, 3, 5].choose(rng).unwrap();
                let s = rng.gen_range(0..m.n);
                let mut v: Vec<usize> = Vec::new();
                let mut x = s;
                let mut off = 0;
                while v.len() < m.t && off < m.n {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                    x = (x + step) % m.n;
                    if v.contains(&x) {
                        x = (x + 1) % m.n;
                    }
                    off += 1;
                }
                v
            }
        };
        ensure!(survives(m, &bad), "{}", fail(&bad));
        cx.eval((&m.name, &bad), true);
    }
    cx.count("adversarial sets", rounds);
    // Worst sets: a set of corrupt parties breaks the extraction exactly if it contains the support
    // of a nonzero combination of rows, so hunt for combinations of small support by randomised
    // information-set search.
    let iters = rounds / 2 + 1;
    let mut best = usize::MAX;
    let mut best_support: Vec<usize> = Vec::new();
    for _ in 0..iters {
        let mut perm: Vec<usize> = (0..m.n).collect();
        perm.shuffle(rng);
        let mut rows = m.rows.clone();
        let mut r = 0;
        for &c in &perm {
            let (w, b) = (c / 64, c % 64);
            let Some(p) = (r..rows.len()).find(|&i| rows[i][w] >> b & 1 == 1) else {
                continue;
            };
            rows.swap(r, p);
            let piv = rows[r].clone();
            for (i, row) in rows.iter_mut().enumerate() {
                if i != r && row[w] >> b & 1 == 1 {
                    for (x, y) in row.iter_mut().zip(&piv) {
                        *x ^= y;
                    }
                }
            }
            r += 1;
            if r == rows.len() {
                break;
            }
        }
        let weight = |v: &[u64]| v.iter().map(|x| x.count_ones() as usize).sum::<usize>();
        let mut consider = |v: Vec<u64>| {
            let w = weight(&v);
            if w < best {
                best = w;
                best_support = (0..m.n)
                    .filter(|&j| v[j / 64] >> (j % 64) & 1 == 1)
                    .collect();
            }
        };
        for i in 0..m.k {
            consider(rows[i].clone());
            for j in i + 1..m.k {
                let x: Vec<u64> = rows[i].iter().zip(&rows[j]).map(|(a, b)| a ^ b).collect();
                if m.k <= 20 {
                    for l in j + 1..m.k {
                        consider(x.iter().zip(&rows[l]).map(|(a, b)| a ^ b).collect());
                    }
                }
                consider(x);
            }
        }
        cx.count("information sets searched", 1);
    }
    cx.sample(
        "lightest combination found",
        7,
        || json!({"matrix": m.name, "weight": best, "t": m.t}),
    );
    ensure!(best > m.t, "{}", fail(&best_support));
    Ok(())
}

/// All row combinations, decides every adversarial set at once.
fn exhaustive(cx: &mut Cx, m: &Mat) -> R {
    let mut acc = vec![0u64; m.rows[0].len()];
    for i in 1u64..(1 << m.k) {
        let flip = i.trailing_zeros() as usize;
        for (x, y) in acc.iter_mut().zip(&m.rows[flip]) {
            *x ^= y;
        }
        let w: u32 = acc.iter().map(|x| x.count_ones()).sum();
        ensure!(
            w as usize > m.t,
            "{}: corrupting {} parties (t = {}) makes the extracted bits dependent",
            m.name,
            w,
            m.t
        );
    }
    cx.count("row combinations enumerated", (1 << m.k) - 1);
    cx.evals_bulk((&m.name, "all combinations"), (1 << m.k) - 1);
    Ok(())
}

pub fn run(cx: &mut Cx) {
    cx.rule = "random matrix files, and for the shipped matrices adversarial sets of exactly t parties \
        (random, runs, progressions, supports of light row combinations); non-trivial: matrix with both \
        entries, or any adversarial set"
        .into();
    cx.assumptions.push(
        "for shipped matrices with more than 20 rows light row combinations are searched, not enumerated"
            .into(),
    );
    let _ = GF::<18>::init();
    cx.cases("loader", cx.amount(1200, 6000), |cx, _, rng| {
        loader(cx, rng)
    });
    let mut mats: Option<Vec<Mat>> = None;
    let rounds = cx.amount(2000, 60000);
    cx.cases("shipped", 28, |cx, idx, rng| {
        if mats.is_none() {
            mats = Some(shipped()?);
        }
        let ms = mats.as_ref().unwrap();
        // Every shard searches every matrix with its own randomness.
        let m = &ms[(idx / 4) as usize % ms.len()];
        if m.k <= 20 {
            exhaustive(cx, m)?;
        }
        corrupt(cx, m, rng, rounds)
    });
}
