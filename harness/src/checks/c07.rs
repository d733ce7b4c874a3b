//! C07: t shares carry no information.

use crate::cx::{Cx, R};
use crate::ensure;
use crate::mpc::{gs, us};
use crate::refgf::RefField;
use ndarray::ArrayView1;
use rand::seq::SliceRandom;
use rand::Rng;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::galois::GF;
use scalable_mpc::sharing::PackedSharing;
use serde_json::json;

/// Chi-square statistic standardised to roughly a normal deviate.
fn chi2_z(counts: &[u64], total: u64) -> f64 {
    let e = total as f64 / counts.len() as f64;
    let c: f64 = counts.iter().map(|&o| (o as f64 - e).powi(2) / e).sum();
    let dof = (counts.len() - 1) as f64;
    // Wilson-Hilferty.
    let x = (c / dof).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * dof));
    x / (2.0 / (9.0 * dof)).sqrt()
}

/// Joint distribution of t shares in a narrow field, for several secrets and every call style.
fn joint<const W: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng, max_t: usize) -> R {
    GF::<W>::init().map_err(|e| e.to_string())?;
    let order = 1usize << W;
    let t = rng.gen_range(1..=max_t);
    let l = rng.gen_range(1..=3usize.min((order - t) / 2));
    let d = t + l - 1;
    let n = rng.gen_range(d + 1..=(order - l).min(d + 6));
    let taken = us(&PackedSharing::<W>::share_pos(n as u32));
    let mut free: Vec<u32> = (n as u32..order as u32)
        .filter(|x| !taken.contains(x))
        .collect();
    if free.len() < l {
        // The parties' positions leave no room in so narrow a field.
        cx.count("configurations without room for the secrets", 1);
        return Ok(());
    }
    let default = us(&PackedSharing::<W>::default_pos(n as u32, l as u32));
    let fits = default.iter().all(|x| free.contains(x))
        && (0..l).all(|i| !default[..i].contains(&default[i]));
    let pos = if fits && rng.gen() {
        gs::<W>(&default)
    } else {
        free.shuffle(rng);
        gs::<W>(&free[..l])
    };
    let ps = PackedSharing::<W>::new(d as u32, n as u32, &pos);
    let coeffs = PackedSharing::<W>::compute_share_coeffs(d as u32, n as u32, &pos);
    let cells = order.pow(t as u32);
    let draws = (cells * 40).max(4000) as u64;
    let subset = {
        let mut v = match rng.gen_range(0..4) {
            0 => (0..t).collect(),
            1 => (n - t..n).collect(),
            _ => rand::seq::index::sample(rng, n, t).into_vec(),
        };
        v.sort_unstable();
        v
    };
    let style = rng.gen_range(0..4);
    let given = match style {
        0 | 1 => l,
        2 => rng.gen_range(0..=l),
        _ => 0,
    };
    let secrets: Vec<u32> = match rng.gen_range(0..3) {
        0 => vec![0; given],
        1 => vec![order as u32 - 1; given],
        _ => (0..given).map(|_| rng.gen_range(0..order as u32)).collect(),
    };
    let sec = gs::<W>(&secrets);
    let mut src = ChaCha12Rng::seed_from_u64(rng.gen());
    let mut hist = vec![0u64; cells];
    let mut pair_hist = vec![0u64; order * order];
    let mut prev: Option<Vec<u32>> = None;
    for i in 0..draws {
        let sh = if style == 1 {
            us(&PackedSharing::share_using_coeffs(
                ArrayView1::from(&sec),
                coeffs.view(),
                l as u32,
                &mut src,
            ))
        } else if style == 3 && i % 2 == 0 && secrets.is_empty() {
            us(&ps.rand(&mut src))
        } else {
            us(&ps.share(ArrayView1::from(&sec), &mut src))
        };
        ensure!(
            sh.len() == n,
            "sharing returned {} shares for {} parties",
            sh.len(),
            n
        );
        let cell = subset
            .iter()
            .fold(0usize, |acc, &p| acc * order + sh[p] as usize);
        hist[cell] += 1;
        if let Some(p) = &prev {
            let q = subset[0];
            pair_hist[p[q] as usize * order + sh[q] as usize] += 1;
        }
        prev = Some(sh);
    }
    let z = chi2_z(&hist, draws);
    ensure!(
        z < 8.0,
        "width {} n={} t={} l={}: shares of parties {:?} of secrets {:?} (given {}) are not uniform: chi-square deviate {:.1} over {} draws",
        W, n, t, l, subset, secrets, given, z, draws
    );
    if draws as usize >= 10 * order * order {
        let z = chi2_z(&pair_hist, draws - 1);
        ensure!(
            z < 8.0,
            "width {} n={} t={} l={}: successive sharings are not independent at party {}: chi-square deviate {:.1}",
            W, n, t, l, subset[0], z
        );
    }
    cx.eval((W, n, t, l, &subset, &secrets, style), true);
    cx.count("sharings observed (joint distribution)", draws);
    cx.sample("joint", 3, || json!({"w": W, "n": n, "t": t, "l": l, "parties": subset, "secrets": secrets, "deviate": z}));
    Ok(())
}

/// Degrees of freedom of the observed share vectors in the wide field.
fn ranks(cx: &mut Cx, rng: &mut ChaCha12Rng, f: &RefField) -> R {
    const W: u8 = 18;
    let t = rng.gen_range(1..=8usize);
    let l = rng.gen_range(1..=8usize);
    let d = t + l - 1;
    let n = rng.gen_range(d + 1..=d + 12);
    let pos = PackedSharing::<W>::default_pos(n as u32, l as u32);
    let ps = PackedSharing::<W>::new(d as u32, n as u32, &pos);
    let subset = rand::seq::index::sample(rng, n, t).into_vec();
    for given in [l, rng.gen_range(0..=l), 0] {
        let secrets: Vec<u32> = (0..given).map(|_| rng.gen_range(0..f.order)).collect();
        let sec = gs::<W>(&secrets);
        // Calls come from several threads with their own generators, as in the protocols.
        let num = d + 6;
        let threaded = rng.gen_bool(0.3);
        let vecs: Vec<Vec<u32>> = if threaded {
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..num)
                    .map(|_| {
                        s.spawn(|| us(&ps.share(ArrayView1::from(&sec), &mut rand::thread_rng())))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        } else {
            let mut src = ChaCha12Rng::seed_from_u64(rng.gen());
            (0..num)
                .map(|_| us(&ps.share(ArrayView1::from(&sec), &mut src)))
                .collect()
        };
        let diffs: Vec<Vec<u32>> = vecs[1..]
            .iter()
            .map(|v| v.iter().zip(&vecs[0]).map(|(a, b)| a ^ b).collect())
            .collect();
        let want = d + 1 - given;
        let got = f.rank(&diffs);
        // What fills the slots that were not given is not claimed to be random.
        ensure!(
            t <= got && got <= want,
            "n={} t={} l={}: repeated sharings of {} given secrets vary in {} dimensions, expected {}",
            n, t, l, given, got, want
        );
        let sub: Vec<Vec<u32>> = diffs
            .iter()
            .map(|v| subset.iter().map(|&p| v[p]).collect())
            .collect();
        let got = f.rank(&sub);
        ensure!(
            got == t,
            "n={} t={} l={}: shares of parties {:?} vary in only {} dimensions for fixed secrets",
            n,
            t,
            l,
            subset,
            got
        );
        for i in 0..vecs.len() {
            for p in 0..n {
                // A share that repeats between calls for every call would show up in the rank; a
                // constant zero mask shows up as equal shares.
                ensure!(
                    vecs.iter().any(|v| v[p] != vecs[i][p]),
                    "n={} t={} l={}: share of party {} never changes",
                    n,
                    t,
                    l,
                    p
                );
            }
        }
        cx.eval((n, t, l, &subset, &secrets, threaded), true);
        cx.count("sharings observed (rank)", num as u64);
    }
    let mut src = ChaCha12Rng::seed_from_u64(rng.gen());
    let vecs: Vec<Vec<u32>> = (0..d + 6).map(|_| us(&ps.rand(&mut src))).collect();
    let got = f.rank(&vecs);
    ensure!(
        got == d + 1,
        "n={} degree {}: random sharings span {} dimensions, expected {}",
        n,
        d,
        got,
        d + 1
    );
    cx.sample(
        "rank",
        2,
        || json!({"n": n, "t": t, "l": l, "parties": subset}),
    );
    Ok(())
}

pub fn run(cx: &mut Cx) {
    cx.rule = "narrow fields: measured joint distribution of t shares against uniform (chi-square, 8 standard \
        deviations); wide field: rank of differences of repeated sharings; every configuration is non-trivial"
        .into();
    let mut f = None;
    cx.cases("joint", cx.amount(1200, 16000), |cx, idx, rng| {
        match idx / 4 % 3 {
            0 => joint::<3>(cx, rng, 3),
            1 => joint::<4>(cx, rng, 3),
            _ => joint::<5>(cx, rng, 2),
        }
    });
    cx.cases("rank", cx.amount(24000, 300000), |cx, _, rng| {
        if f.is_none() {
            f = Some(RefField::discover::<18>()?);
        }
        ranks(cx, rng, f.as_ref().unwrap())
    });
}
