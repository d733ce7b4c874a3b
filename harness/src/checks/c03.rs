//! C03: interpolation weights, code and extraction matrices, selections.

use crate::cx::{Cx, R};
use crate::ensure;
use crate::mpc::{gs, us};
use crate::refgf::RefField;
use ndarray::ArrayView1;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::{lagrange_coeffs, rs_gen_mat, super_inv_matrix, Combination};
use serde_json::json;

fn points<G: Rng>(rng: &mut G, order: u32, k: usize) -> Vec<u32> {
    match rng.gen_range(0..4) {
        // Consecutive, as the protocols use them.
        0 => {
            let s = rng.gen_range(0..=(order - k as u32));
            let mut v: Vec<u32> = (s..s + k as u32).collect();
            if rng.gen() {
                v.shuffle(rng);
            }
            v
        }
        1 => {
            let mut v: Vec<u32> = (order - k as u32..order).collect();
            v.reverse();
            v
        }
        _ => rand::seq::index::sample(rng, order as usize, k)
            .into_iter()
            .map(|x| x as u32)
            .collect(),
    }
}

fn lagrange<const W: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng, f: &RefField) -> R {
    let maxk = 80.min(f.order as usize);
    let k = if rng.gen_bool(0.3) {
        rng.gen_range(1..=4.min(maxk))
    } else {
        rng.gen_range(1..=maxk)
    };
    let xs = points(rng, f.order, k);
    let m = rng.gen_range(0..=40.min(f.order as usize));
    let mut at: Vec<u32> = points(rng, f.order, m.max(1));
    at.truncate(m);
    // Mix in some of the given points.
    for x in xs.iter().take(rng.gen_range(0..=k)) {
        if !at.contains(x) && rng.gen() {
            at.push(*x);
        }
    }
    at.shuffle(rng);
    let c = lagrange_coeffs(&gs::<W>(&xs), &gs::<W>(&at));
    ensure!(
        c.shape() == [at.len(), xs.len()],
        "weights for {} points at {} positions have shape {:?}",
        xs.len(),
        at.len(),
        c.shape()
    );
    let c: Vec<Vec<u32>> = c.rows().into_iter().map(|r| us(r.iter())).collect();
    for _ in 0..2 {
        let poly: Vec<u32> = (0..k).map(|_| rng.gen_range(0..f.order)).collect();
        let ys: Vec<u32> = xs.iter().map(|&x| f.poly_eval(&poly, x)).collect();
        for (i, &a) in at.iter().enumerate() {
            ensure!(
                f.dot(&c[i], &ys) == f.poly_eval(&poly, a),
                "width {}: interpolating {} points {:?}.. to {} gives {}, polynomial value is {}",
                W,
                k,
                &xs[..k.min(6)],
                a,
                f.dot(&c[i], &ys),
                f.poly_eval(&poly, a)
            );
        }
    }
    // Monomials pin every single weight down.
    for d in [0, k - 1] {
        for (i, &a) in at.iter().enumerate() {
            let ys: Vec<u32> = xs.iter().map(|&x| f.pow(x, d as u32)).collect();
            ensure!(
                f.dot(&c[i], &ys) == f.pow(a, d as u32),
                "width {}: weights do not reproduce x^{} at {}",
                W,
                d,
                a
            );
        }
    }
    cx.eval(("lagrange", W, &xs, &at), k > 1 && !at.is_empty());
    cx.count("interpolated values", 4 * at.len() as u64);
    cx.sample("lagrange", 2, || json!({"w": W, "points": xs, "at": at}));
    Ok(())
}

fn subsets<G: Rng>(rng: &mut G, n: usize, k: usize, num: usize) -> Vec<Vec<usize>> {
    let mut res = Vec::new();
    res.push((0..k).collect());
    res.push((n - k..n).collect());
    for _ in 0..num {
        let mut v: Vec<usize> = rand::seq::index::sample(rng, n, k).into_vec();
        v.sort_unstable();
        res.push(v);
    }
    res.sort();
    res.dedup();
    res
}

fn all_subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut res = Vec::new();
    let mut idx: Vec<usize> = (0..k).collect();
    loop {
        res.push(idx.clone());
        let Some(i) = (0..k).rev().find(|&i| idx[i] != i + n - k) else {
            return res;
        };
        idx[i] += 1;
        for j in i + 1..k {
            idx[j] = idx[j - 1] + 1;
        }
    }
}

fn choose(n: usize, k: usize) -> f64 {
    (0..k).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64)
}

fn matrices<const W: u8>(cx: &mut Cx, rng: &mut ChaCha12Rng, f: &RefField) -> R {
    let cap = (f.order as usize - 1).min(if rng.gen_bool(0.1) { 300 } else { 60 });
    let code = rng.gen_range(1..=cap);
    let mssg = if rng.gen_bool(0.5) {
        rng.gen_range(1..=code.min(6))
    } else {
        rng.gen_range(1..=code.min(60))
    };
    let m = rs_gen_mat::<W>(mssg, code);
    ensure!(
        m.shape() == [code, mssg],
        "code matrix for message length {} and code length {} has shape {:?}",
        mssg,
        code,
        m.shape()
    );
    let rows: Vec<Vec<u32>> = m.rows().into_iter().map(|r| us(r.iter())).collect();
    let subs = if choose(code, mssg) <= 150.0 {
        all_subsets(code, mssg)
    } else {
        subsets(rng, code, mssg, 12)
    };
    for s in &subs {
        let sub: Vec<Vec<u32>> = s.iter().map(|&i| rows[i].clone()).collect();
        ensure!(
            f.rank(&sub) == mssg,
            "width {}: rows {:?} of the ({},{}) code matrix do not determine the message",
            W,
            s,
            mssg,
            code
        );
    }
    // A code longer than the message space is not needed, a shorter one is still injective on rows.
    let e = super_inv_matrix::<W>(code, mssg);
    ensure!(
        e.shape() == [mssg, code],
        "extraction matrix for {} inputs and {} outputs has shape {:?}",
        code,
        mssg,
        e.shape()
    );
    let cols: Vec<Vec<u32>> = e.columns().into_iter().map(|r| us(r.iter())).collect();
    for s in &subs {
        let sub: Vec<Vec<u32>> = s.iter().map(|&i| cols[i].clone()).collect();
        ensure!(
            f.rank(&sub) == mssg,
            "width {}: extraction matrix {}x{} loses rank on input columns {:?}",
            W,
            mssg,
            code,
            s
        );
    }
    cx.eval(("matrix", W, mssg, code, &subs), mssg > 1);
    cx.count("row/column subsets", 2 * subs.len() as u64);
    cx.sample(
        "matrix",
        2,
        || json!({"w": W, "mssg": mssg, "code": code, "subsets": subs.len()}),
    );
    Ok(())
}

fn selection(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    let n = rng.gen_range(1..30usize);
    let k = rng.gen_range(0..40usize);
    let map: Vec<usize> = (0..k).map(|_| rng.gen_range(0..n)).collect();
    let inp: Vec<u64> = (0..n).map(|_| rng.gen()).collect();
    let want: Vec<u64> = map.iter().map(|&i| inp[i]).collect();
    let c = Combination::new(map.clone());
    ensure!(
        c.len() == k,
        "selection of {} reports length {}",
        k,
        c.len()
    );
    ensure!(
        c.apply(ArrayView1::from(&inp)) == want,
        "selection {:?} picks the wrong elements",
        map
    );
    // Distinct labels determine the map; applied to other data it selects the same positions.
    let inferred = Combination::from_instance(&inp, &want);
    let other: Vec<u64> = (0..n).map(|_| rng.gen()).collect();
    let want2: Vec<u64> = map.iter().map(|&i| other[i]).collect();
    ensure!(
        inferred.len() == k && inferred.apply(ArrayView1::from(&other)) == want2,
        "selection inferred from an example differs from {:?}",
        map
    );
    cx.eval(("selection", n, &map), k > 1);
    Ok(())
}

pub fn run(cx: &mut Cx) {
    cx.rule = "random point sets, matrix shapes and index maps; non-trivial: more than one point, \
        message symbol or selected index"
        .into();
    let (f5, f8, f12, f18) = (
        RefField::discover::<5>(),
        RefField::discover::<8>(),
        RefField::discover::<12>(),
        RefField::discover::<18>(),
    );
    cx.cases(
        "lagrange",
        cx.amount(60000, 600000),
        |cx, idx, rng| match idx / 4 % 4 {
            0 => lagrange::<5>(cx, rng, f5.as_ref().map_err(|e| e.clone())?),
            1 => lagrange::<8>(cx, rng, f8.as_ref().map_err(|e| e.clone())?),
            2 => lagrange::<12>(cx, rng, f12.as_ref().map_err(|e| e.clone())?),
            _ => lagrange::<18>(cx, rng, f18.as_ref().map_err(|e| e.clone())?),
        },
    );
    cx.cases("matrix", cx.amount(24000, 240000), |cx, idx, rng| {
        match idx / 4 % 4 {
            0 => matrices::<5>(cx, rng, f5.as_ref().map_err(|e| e.clone())?),
            1 => matrices::<8>(cx, rng, f8.as_ref().map_err(|e| e.clone())?),
            2 => matrices::<12>(cx, rng, f12.as_ref().map_err(|e| e.clone())?),
            _ => matrices::<18>(cx, rng, f18.as_ref().map_err(|e| e.clone())?),
        }
    });
    cx.cases("selection", cx.amount(20000, 200000), |cx, _, rng| {
        selection(cx, rng)
    });
}
