//! Configurations and contexts for protocol runs.

use crate::refgf::{RefField, RefSharing};
use rand::Rng;
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::MPCContext;
use scalable_mpc::sharing::PackedSharing;
use std::rc::Rc;
use std::sync::Arc;

pub const W: u8 = 18;
pub type F = GF<W>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub n: usize,
    pub t: usize,
    pub l: usize,
    pub kl: usize,
    pub q: usize,
}

impl Cfg {
    /// Admissible: t, l >= 1 and products of two low-degree sharings still determined by n shares.
    pub fn pick<G: Rng>(rng: &mut G, max_tl: usize, max_n: usize) -> Cfg {
        loop {
            let t = rng.gen_range(1..=max_tl);
            let l = rng.gen_range(1..=max_tl);
            let lo = 2 * (t + l) - 1;
            if lo > max_n {
                continue;
            }
            let extra = if rng.gen_bool(0.5) {
                0
            } else {
                rng.gen_range(0..=(max_n - lo).min(5))
            };
            return Cfg {
                n: lo + extra,
                t,
                l,
                kl: rng.gen_range(1..=3),
                q: rng.gen_range(1..=5),
            };
        }
    }

    pub fn d(&self) -> usize {
        self.t + self.l - 1
    }

    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({"n": self.n, "t": self.t, "l": self.l, "key_len": self.kl, "mssg_len": self.q})
    }
}

pub fn u<const V: u8>(x: GF<V>) -> u32 {
    x.into()
}

pub fn us<'a, const V: u8, I: IntoIterator<Item = &'a GF<V>>>(it: I) -> Vec<u32> {
    it.into_iter().map(|&x| x.into()).collect()
}

pub fn g<const V: u8>(x: u32) -> GF<V> {
    GF::from(x)
}

pub fn gs<const V: u8>(v: &[u32]) -> Vec<GF<V>> {
    v.iter().map(|&x| GF::from(x)).collect()
}

pub fn contexts(cfg: &Cfg) -> Vec<MPCContext<W>> {
    let n = cfg.n as u32;
    let l = cfg.l as u32;
    let defpos = PackedSharing::<W>::default_pos(n, l);
    let pss = Arc::new(PackedSharing::new(cfg.d() as u32, n, &defpos));
    let pss_n = Arc::new(PackedSharing::new(n - 1, n, &defpos));
    (0..cfg.n)
        .map(|id| MPCContext {
            id: id as u16,
            n: cfg.n,
            t: cfg.t,
            l: cfg.l,
            lpn_tau: 2,
            lpn_key_len: cfg.kl,
            lpn_mssg_len: cfg.q,
            pss: pss.clone(),
            pss_n: pss_n.clone(),
        })
        .collect()
}

/// Public positions of a configuration, and the reference sharing over them.
pub struct World {
    pub cfg: Cfg,
    pub f: Rc<RefField>,
    pub sh: RefSharing,
    pub dp: Vec<u32>,
}

impl World {
    pub fn new(f: &Rc<RefField>, cfg: Cfg) -> World {
        let sp = us(&PackedSharing::<W>::share_pos(cfg.n as u32));
        let dp = us(&PackedSharing::<W>::default_pos(cfg.n as u32, cfg.l as u32));
        World {
            cfg,
            f: f.clone(),
            sh: RefSharing::new(f.clone(), sp),
            dp,
        }
    }

    pub fn rand_el<G: Rng>(&self, rng: &mut G) -> u32 {
        rng.gen_range(0..self.f.order)
    }

    pub fn rand_block<G: Rng>(&self, rng: &mut G) -> Vec<u32> {
        (0..self.cfg.l).map(|_| self.rand_el(rng)).collect()
    }

    pub fn wire_pos(&self, wires: &[u32]) -> Vec<u32> {
        PackedSharing::<W>::wire_to_pos(self.cfg.n as u32, self.cfg.l as u32, wires.iter().cloned())
            .map(u)
            .collect()
    }
}

/// Transposes per-item share vectors into per-party vectors.
pub fn per_party(items: &[Vec<u32>], n: usize) -> Vec<Vec<u32>> {
    (0..n)
        .map(|p| items.iter().map(|s| s[p]).collect())
        .collect()
}

/// Transposes per-party vectors into per-item share vectors. All must have equal length.
pub fn per_item(parties: &[Vec<u32>]) -> Result<Vec<Vec<u32>>, String> {
    let len = parties[0].len();
    if let Some(p) = parties.iter().position(|v| v.len() != len) {
        return Err(format!(
            "party {} holds {} items, party 0 holds {}",
            p,
            parties[p].len(),
            len
        ));
    }
    Ok((0..len)
        .map(|i| parties.iter().map(|v| v[i]).collect())
        .collect())
}

impl World {
    /// Low-degree sharing of `secrets` at the default positions.
    pub fn low<G: Rng>(&self, rng: &mut G, secrets: &[u32]) -> Vec<u32> {
        self.sh.deal(rng, self.cfg.d(), &self.dp, secrets)
    }

    /// Full-degree sharing of `secrets` at the default positions.
    pub fn full<G: Rng>(&self, rng: &mut G, secrets: &[u32]) -> Vec<u32> {
        self.sh.deal(rng, self.cfg.n - 1, &self.dp, secrets)
    }

    pub fn low_random<G: Rng>(&self, rng: &mut G, num: usize) -> Vec<Vec<u32>> {
        (0..num)
            .map(|_| {
                let b = self.rand_block(rng);
                self.low(rng, &b)
            })
            .collect()
    }

    pub fn zeros<G: Rng>(&self, rng: &mut G, num: usize) -> Vec<Vec<u32>> {
        let z = vec![0; self.cfg.l];
        (0..num).map(|_| self.full(rng, &z)).collect()
    }

    /// Secrets at the default positions of a share vector of any degree below n.
    pub fn secrets(&self, shares: &[u32]) -> Vec<u32> {
        self.sh.at(shares, self.cfg.n - 1, &self.dp)
    }

    pub fn add(&self, a: &[u32], b: &[u32]) -> Vec<u32> {
        a.iter().zip(b).map(|(x, y)| x ^ y).collect()
    }

    pub fn mul(&self, a: &[u32], b: &[u32]) -> Vec<u32> {
        a.iter().zip(b).map(|(&x, &y)| self.f.mul(x, y)).collect()
    }
}

/// Per-party arrays of the implementation's type.
pub fn arrays(items: &[Vec<u32>], n: usize) -> Vec<ndarray::Array1<F>> {
    per_party(items, n)
        .iter()
        .map(|v| ndarray::Array1::from_vec(gs(v)))
        .collect()
}

/// Field elements carried by a message, decoded as the protocols decode them.
pub fn decode(data: &[u8]) -> Result<Vec<u32>, String> {
    bincode::deserialize::<Vec<F>>(data)
        .map(|v| us(&v))
        .map_err(|e| {
            format!(
                "message of {} bytes is no vector of field elements: {}",
                data.len(),
                e
            )
        })
}
