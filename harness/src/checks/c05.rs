//! C05 and C06: packed sharing as a code, checked reconstruction.

use crate::cx::{Cx, R};
use crate::ensure;
use crate::mpc::{gs, us};
use crate::refgf::{RefField, RefSharing};
use ndarray::{Array1, ArrayView1};
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::galois::GF;
use scalable_mpc::sharing::PackedSharing;
use scalable_mpc::ProtoErrorKind;
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct Setup<const W: u8> {
    pub n: usize,
    pub l: usize,
    pub d: usize,
    pub pos: Vec<u32>,
    pub ps: PackedSharing<W>,
    pub rs: RefSharing,
    pub f: Rc<RefField>,
}

pub fn setup<const W: u8>(rng: &mut ChaCha12Rng, f: &Rc<RefField>, max_n: usize) -> R<Setup<W>> {
    let room = f.order as usize;
    let n = rng.gen_range(1..=max_n.min(room - 4));
    let l = rng.gen_range(1..=n.min(8).min(room - n));
    let d = rng.gen_range(l - 1..n);
    let sp = us(&PackedSharing::<W>::share_pos(n as u32));
    ensure!(
        sp.len() == n,
        "{} share positions for {} parties",
        sp.len(),
        n
    );
    let pos = if rng.gen_bool(0.5) {
        let p = us(&PackedSharing::<W>::default_pos(n as u32, l as u32));
        ensure!(
            p.len() == l,
            "{} default positions for packing {}",
            p.len(),
            l
        );
        p
    } else {
        let mut p = Vec::new();
        while p.len() < l {
            let x = rng.gen_range(0..f.order);
            if !sp.contains(&x) && !p.contains(&x) {
                p.push(x);
            }
        }
        p
    };
    let mut all: Vec<u32> = sp.iter().chain(&pos).cloned().collect();
    all.sort_unstable();
    all.dedup();
    ensure!(
        all.len() == n + l,
        "positions of shares and secrets are not distinct for n={}, l={}",
        n,
        l
    );
    let ps = PackedSharing::<W>::new(d as u32, n as u32, &gs(&pos));
    ensure!(
        ps.num_parties() as usize == n
            && ps.num_secrets() as usize == l
            && ps.degree() as usize == d,
        "sharing for n={} d={} l={} reports {} {} {}",
        n,
        d,
        l,
        ps.num_parties(),
        ps.degree(),
        ps.num_secrets()
    );
    Ok(Setup {
        n,
        l,
        d,
        pos,
        ps,
        rs: RefSharing::new(f.clone(), sp),
        f: f.clone(),
    })
}

impl<const W: u8> Setup<W> {
    fn desc(&self) -> String {
        format!(
            "width {} n={} degree={} secrets at {:?}",
            W, self.n, self.d, self.pos
        )
    }

    fn rand_vec(&self, rng: &mut ChaCha12Rng, k: usize) -> Vec<u32> {
        (0..k)
            .map(|_| match rng.gen_range(0..5) {
                0 => 0,
                1 => 1,
                2 => self.f.order - 1,
                _ => rng.gen_range(0..self.f.order),
            })
            .collect()
    }

    fn check_codeword(&self, shares: &[u32], secrets: &[u32], what: &str) -> R {
        ensure!(
            shares.len() == self.n,
            "{}: {} gives {} shares",
            self.desc(),
            what,
            shares.len()
        );
        ensure!(
            self.rs.on_degree(shares, self.d),
            "{}: {} is not on a polynomial of degree at most {}",
            self.desc(),
            what,
            self.d
        );
        let got = self.rs.at(shares, self.d, &self.pos);
        ensure!(
            got[..secrets.len()] == *secrets,
            "{}: {} of {:?} holds {:?}",
            self.desc(),
            what,
            secrets,
            got
        );
        Ok(())
    }

    /// Every reconstruction route agrees with the reference on a codeword.
    fn check_routes(&self, shares: &[u32]) -> R {
        let want = self.rs.at(shares, self.d, &self.pos);
        let sh = gs::<W>(shares);
        let view = ArrayView1::from(&sh);
        let got = self.ps.recon(view);
        ensure!(
            got.as_ref().map(|v| us(v)) == Ok(want.clone()),
            "{}: checked reconstruction gives {:?}, expected {:?}",
            self.desc(),
            got.map(|v| us(&v)),
            want
        );
        ensure!(
            us(&self.ps.semihon_recon(view)) == want,
            "{}: unchecked reconstruction gives {:?}, expected {:?}",
            self.desc(),
            us(&self.ps.semihon_recon(view)),
            want
        );
        let c =
            PackedSharing::<W>::compute_recon_coeffs(self.d as u32, self.n as u32, &gs(&self.pos));
        let got = us(&PackedSharing::recon_using_coeffs(view, c.view()));
        ensure!(
            got == want,
            "{}: reconstruction from computed coefficients gives {:?}, expected {:?}",
            self.desc(),
            got,
            want
        );
        let got = us(&PackedSharing::recon_using_coeffs(
            view,
            self.ps.recon_coeffs(),
        ));
        ensure!(
            got == want,
            "{}: reconstruction from stored coefficients gives {:?}, expected {:?}",
            self.desc(),
            got,
            want
        );
        Ok(())
    }
}

fn sharing_case<const W: u8>(
    cx: &mut Cx,
    rng: &mut ChaCha12Rng,
    f: &Rc<RefField>,
    max_n: usize,
) -> R {
    let s = setup::<W>(rng, f, max_n)?;
    for kind in 0..3 {
        let given = match kind {
            0 => s.l,
            1 => rng.gen_range(0..=s.l),
            _ => 0,
        };
        let secrets = s.rand_vec(rng, given);
        let sh = us(&s.ps.share(ArrayView1::from(&gs::<W>(&secrets)), rng));
        s.check_codeword(&sh, &secrets, "sharing")?;
        s.check_routes(&sh)?;
        let c = PackedSharing::<W>::compute_share_coeffs(s.d as u32, s.n as u32, &gs(&s.pos));
        let sh2 = us(&PackedSharing::share_using_coeffs(
            ArrayView1::from(&gs::<W>(&secrets)),
            c.view(),
            s.l as u32,
            rng,
        ));
        s.check_codeword(&sh2, &secrets, "sharing from coefficients")?;
        s.check_routes(&sh2)?;
        // Linearity.
        let (a, b) = (rng.gen_range(0..f.order), rng.gen_range(0..f.order));
        let lin: Array1<_> = sh
            .iter()
            .zip(&sh2)
            .map(|(&x, &y)| {
                GF::<W>::from(x) * GF::<W>::from(a) + GF::<W>::from(y) * GF::<W>::from(b)
            })
            .collect();
        let want: Vec<u32> =
            s.rs.at(&sh, s.d, &s.pos)
                .iter()
                .zip(s.rs.at(&sh2, s.d, &s.pos))
                .map(|(&x, y)| f.mul(x, a) ^ f.mul(y, b))
                .collect();
        let got = s.ps.recon(lin.view());
        ensure!(
            got.as_ref().map(|v| us(v)) == Ok(want.clone()),
            "{}: combination {} x + {} y reconstructs to {:?}, expected {:?}",
            s.desc(),
            a,
            b,
            got.map(|v| us(&v)),
            want
        );
        // Products at the summed degree.
        if 2 * s.d < s.n {
            let p2 = PackedSharing::<W>::new(2 * s.d as u32, s.n as u32, &gs(&s.pos));
            let prod: Array1<_> = sh
                .iter()
                .zip(&sh2)
                .map(|(&x, &y)| GF::<W>::from(x) * GF::<W>::from(y))
                .collect();
            let want: Vec<u32> =
                s.rs.at(&sh, s.d, &s.pos)
                    .iter()
                    .zip(s.rs.at(&sh2, s.d, &s.pos))
                    .map(|(&x, y)| f.mul(x, y))
                    .collect();
            let got = p2.recon(prod.view());
            ensure!(
                got.as_ref().map(|v| us(v)) == Ok(want.clone()),
                "{}: share-wise product reconstructs to {:?}, expected {:?}",
                s.desc(),
                got.map(|v| us(&v)),
                want
            );
            cx.count("products", 1);
        }
        cx.eval((W, s.n, s.d, &s.pos, &secrets, kind), s.d > 0 && s.n > 1);
        cx.count(["full blocks", "partial blocks", "empty blocks"][kind], 1);
    }
    let r = us(&s.ps.rand(rng));
    s.check_codeword(&r, &[], "random sharing")?;
    s.check_routes(&r)?;
    cx.sample(
        "sharing",
        3,
        || json!({"w": W, "n": s.n, "d": s.d, "pos": s.pos}),
    );
    Ok(())
}

fn altered_case<const W: u8>(
    cx: &mut Cx,
    rng: &mut ChaCha12Rng,
    f: &Rc<RefField>,
    max_n: usize,
) -> R {
    let s = setup::<W>(rng, f, max_n)?;
    let secrets = s.rand_vec(rng, s.l);
    // Codewords come from the reference dealer so this does not depend on the sharing routine.
    let base = s.rs.deal(rng, s.d, &s.pos, &secrets);
    let judge = |cx: &mut Cx, v: &[u32], what: &str| -> R {
        let member = s.rs.on_degree(v, s.d);
        let got = s.ps.recon(ArrayView1::from(&gs::<W>(v)));
        match &got {
            Ok(sec) => {
                ensure!(
                    member,
                    "{}: {} accepted although the shares are inconsistent",
                    s.desc(),
                    what
                );
                let want = s.rs.at(v, s.d, &s.pos);
                ensure!(
                    us(sec) == want,
                    "{}: {}: accepted with secrets {:?}, expected {:?}",
                    s.desc(),
                    what,
                    us(sec),
                    want
                );
            }
            Err(e) => {
                ensure!(
                    !member,
                    "{}: {} refused ({:?}) although the shares are consistent",
                    s.desc(),
                    what,
                    e
                );
                ensure!(
                    *e == ProtoErrorKind::MaliciousBehavior,
                    "{}: {} reported as {:?}",
                    s.desc(),
                    what,
                    e
                );
            }
        }
        cx.eval((W, s.d, &s.pos, v), !member);
        cx.count(
            if member {
                "consistent vectors"
            } else {
                "inconsistent vectors"
            },
            1,
        );
        Ok(())
    };
    judge(cx, &base, "honest vector")?;
    let nz = |rng: &mut ChaCha12Rng| rng.gen_range(1..f.order);
    // Every single party (a sample for many parties).
    let mut who: Vec<usize> = (0..s.n).collect();
    if s.n > 40 {
        who.shuffle(rng);
        who.truncate(40);
        who.extend([0, s.n - 1, s.n - s.d - 1]);
    }
    for p in who {
        let mut v = base.clone();
        v[p] ^= if rng.gen() {
            nz(rng)
        } else {
            1 << rng.gen_range(0..f.w)
        };
        judge(cx, &v, &format!("share of party {} altered", p))?;
    }
    for _ in 0..6 {
        let k = rng.gen_range(1..=s.n);
        let mut v = base.clone();
        let set = rand::seq::index::sample(rng, s.n, k).into_vec();
        for &p in &set {
            v[p] ^= nz(rng);
        }
        judge(cx, &v, &format!("shares of parties {:?} altered", set))?;
        // The same difference everywhere is a codeword shift; on a subset it is not (usually).
        let c = nz(rng);
        let mut v = base.clone();
        for &p in &set {
            v[p] ^= c;
        }
        judge(cx, &v, "constant difference on a subset")?;
    }
    // Differences that are polynomials of slightly too high degree vanishing on many parties.
    for extra in 1..=3usize {
        let deg = s.d + extra;
        if deg >= s.n {
            break;
        }
        for style in 0..3 {
            let mut roots: Vec<usize> = (0..s.n).collect();
            match style {
                0 => roots.shuffle(rng),
                1 => {}
                _ => roots.reverse(),
            }
            let k = rng.gen_range(0..=deg);
            let roots: Vec<u32> = roots[..k].iter().map(|&i| s.rs.sp[i]).collect();
            let lead = nz(rng);
            let rest: Vec<u32> = (0..(deg - k)).map(|_| rng.gen_range(0..f.order)).collect();
            let mut v = base.clone();
            for (i, x) in s.rs.sp.iter().enumerate() {
                let mut y = lead;
                for r in roots.iter().chain(&rest) {
                    y = f.mul(y, x ^ r);
                }
                v[i] ^= y;
            }
            judge(cx, &v, &format!("difference of degree {}", deg))?;
        }
    }
    // Valid shift by a codeword, with and without secrets at zero.
    for zero in [false, true] {
        let sec = if zero {
            vec![0; s.l]
        } else {
            s.rand_vec(rng, s.l)
        };
        let delta = s.rs.deal(rng, s.d, &s.pos, &sec);
        let v: Vec<u32> = base.iter().zip(&delta).map(|(a, b)| a ^ b).collect();
        judge(cx, &v, "codeword shift")?;
    }
    if s.n > 1 {
        let mut v = base.clone();
        let i = rng.gen_range(0..s.n);
        let j = rng.gen_range(0..s.n);
        v.swap(i, j);
        judge(cx, &v, "two shares swapped")?;
        let mut v = base.clone();
        v.rotate_left(1);
        judge(cx, &v, "shares rotated")?;
    }
    let any = s.rand_vec(rng, s.n);
    judge(cx, &any, "arbitrary vector")?;
    // Wrong lengths.
    for len in [0, s.n - 1, s.n + 1, 2 * s.n + 1] {
        if len == s.n {
            continue;
        }
        let mut v = base.clone();
        v.resize(len, 1);
        let got = s.ps.recon(ArrayView1::from(&gs::<W>(&v)));
        ensure!(
            got.is_err(),
            "{}: {} shares accepted instead of {}",
            s.desc(),
            len,
            s.n
        );
        let vv = gs::<W>(&v);
        let r = catch_unwind(AssertUnwindSafe(|| {
            s.ps.semihon_recon(ArrayView1::from(&vv))
        }));
        ensure!(
            r.is_err(),
            "{}: unchecked reconstruction accepts {} shares instead of {}",
            s.desc(),
            len,
            s.n
        );
        cx.count("wrong lengths", 1);
    }
    cx.sample(
        "altered",
        3,
        || json!({"w": W, "n": s.n, "d": s.d, "pos": s.pos}),
    );
    Ok(())
}

fn fields() -> R<(Rc<RefField>, Rc<RefField>, Rc<RefField>)> {
    Ok((
        Rc::new(RefField::discover::<6>()?),
        Rc::new(RefField::discover::<10>()?),
        Rc::new(RefField::discover::<18>()?),
    ))
}

pub fn run05(cx: &mut Cx) {
    cx.rule = "random (width, n, degree, packing, positions, secrets) with full, partial and empty blocks; \
        non-trivial: degree > 0 and more than one party"
        .into();
    let mut fs = None;
    cx.cases("sharing", cx.amount(60000, 800000), |cx, idx, rng| {
        if fs.is_none() {
            fs = Some(fields()?);
        }
        let (a, b, c) = fs.as_ref().unwrap();
        match idx / 4 % 8 {
            0 | 1 => sharing_case::<6>(cx, rng, a, 30),
            2 | 3 => sharing_case::<10>(cx, rng, b, 40),
            _ => sharing_case::<18>(cx, rng, c, 40),
        }
    });
    cx.cases("large", cx.amount(160, 2400), |cx, _, rng| {
        if fs.is_none() {
            fs = Some(fields()?);
        }
        sharing_case::<18>(cx, rng, &fs.as_ref().unwrap().2, 300)
    });
}

pub fn run06(cx: &mut Cx) {
    cx.rule = "share vectors derived from reference codewords by the listed alterations; non-trivial: the \
        vector is not a codeword (decided by the reference)"
        .into();
    let mut fs = None;
    cx.cases("altered", cx.amount(40000, 500000), |cx, idx, rng| {
        if fs.is_none() {
            fs = Some(fields()?);
        }
        let (a, b, c) = fs.as_ref().unwrap();
        match idx / 4 % 8 {
            0 | 1 => altered_case::<6>(cx, rng, a, 30),
            2 | 3 => altered_case::<10>(cx, rng, b, 40),
            _ => altered_case::<18>(cx, rng, c, 40),
        }
    });
    cx.cases("large", cx.amount(100, 1200), |cx, _, rng| {
        if fs.is_none() {
            fs = Some(fields()?);
        }
        altered_case::<18>(cx, rng, &fs.as_ref().unwrap().2, 300)
    });
}
