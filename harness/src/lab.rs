//! Garbling with supplied material whose secrets are known, and the judgement of its tables.

use crate::circ::{blocks, Circ, Kind};
use crate::cx::R;
use crate::ensure;
use crate::mpc::*;
use crate::refgf::RefField;
use crate::simnet::{simulate, Msg, SimFail, SimOpts};
use ndarray::{Array1, Array3};
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::circuit::{Circuit, PackedCircuit};
use scalable_mpc::math::rs_gen_mat;
use scalable_mpc::protocol::garble::{garble, GarbleContext};
use scalable_mpc::protocol::preproc::{PreProc, PreProcCount};
use std::collections::HashMap;
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;

pub struct Lab {
    pub w: World,
    pub circ: Circ,
    pub packed: PackedCircuit,
    pub inputs: Vec<Vec<u32>>,
    pub gates: Vec<(Kind, Vec<Vec<u32>>, Vec<u32>)>,
    /// Wire -> (block, slot); input blocks come first.
    pub place: HashMap<u32, (usize, usize)>,
    pub counts: PreProcCount,
    pub gc: Vec<Arc<GarbleContext<W>>>,
    /// Public encoding of messages, code length x message length.
    pub enc: Vec<Vec<u32>>,
}

/// Secrets of the material, indexed by block (input blocks first), slots innermost.
#[derive(Clone)]
pub struct Secrets {
    pub masks: Vec<Vec<u32>>,
    /// [label][key index][block]
    pub keys: Vec<Vec<Vec<Vec<u32>>>>,
    pub errors: Vec<Vec<u32>>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Noise {
    None,
    /// Every entry has a different value in the first slot.
    Distinct,
}

pub struct Material {
    pub sec: Secrets,
    pub randoms: Vec<Vec<u32>>,
    pub zeros: Vec<Vec<u32>>,
    pub pre: Vec<PreProc<W>>,
}

/// Opened tables: [gate][row][symbol][slot].
pub type Tables = Vec<Vec<Vec<Vec<u32>>>>;

pub struct GarbleRun {
    pub tables: Tables,
    pub log: Vec<Msg>,
}

/// Public matrices recovered from observed tables: [gate][row][slot] -> rows of the matrix.
pub type Mats = Vec<Vec<Vec<Option<Vec<Vec<u32>>>>>>;

impl Lab {
    pub fn new(f: &Rc<RefField>, cfg: Cfg, circ: Circ, file: &Path) -> Lab {
        circ.write(file, 0);
        let packed = Circuit::from_bristol_fashion(file).pack(cfg.l as u32);
        let _ = std::fs::remove_file(file);
        let w = World::new(f, cfg);
        let inputs = packed.inputs().to_vec();
        let gates = blocks(&packed);
        let mut place = HashMap::new();
        for (b, ws) in inputs.iter().enumerate() {
            for (s, &wire) in ws.iter().enumerate() {
                place.insert(wire, (b, s));
            }
        }
        for (g, (_, _, out)) in gates.iter().enumerate() {
            for (s, &wire) in out.iter().enumerate() {
                place.insert(wire, (inputs.len() + g, s));
            }
        }
        let ctx = contexts(&cfg);
        let counts = PreProc::describe(&packed, &ctx[0]);
        let mut lab = Lab {
            w,
            circ,
            packed,
            inputs,
            gates,
            place,
            counts,
            gc: Vec::new(),
            enc: rs_gen_mat::<W>(cfg.kl + 1, cfg.q)
                .rows()
                .into_iter()
                .map(|r| us(r.iter()))
                .collect(),
        };
        lab.renew();
        lab
    }

    /// Every party derives its garbling context anew.
    pub fn renew(&mut self) {
        self.gc = contexts(&self.w.cfg)
            .into_iter()
            .map(|c| Arc::new(GarbleContext::new(self.packed.clone(), c)))
            .collect();
    }

    pub fn blocks(&self) -> usize {
        self.inputs.len() + self.gates.len()
    }

    pub fn label(&self) -> String {
        let c = self.w.cfg;
        format!(
            "n={} t={} l={} key {} code {}, {} inputs, {} AND {} XOR {} INV in {} blocks",
            c.n,
            c.t,
            c.l,
            c.kl,
            c.q,
            self.circ.num_inputs(),
            self.circ.count(Kind::And),
            self.circ.count(Kind::Xor),
            self.circ.count(Kind::Inv),
            self.gates.len()
        )
    }

    /// Material in exactly the announced amounts.
    pub fn material(&self, rng: &mut ChaCha12Rng, blank: bool, noise: Noise) -> Material {
        let cfg = self.w.cfg;
        let (l, kl) = (cfg.l, cfg.kl);
        let blocks = self.blocks();
        let masks: Vec<Vec<u32>> = (0..blocks)
            .map(|_| {
                (0..l)
                    .map(|_| if blank { 0 } else { rng.gen_range(0..2) })
                    .collect()
            })
            .collect();
        let keys: Vec<Vec<Vec<Vec<u32>>>> = (0..2)
            .map(|_| {
                (0..kl)
                    .map(|_| {
                        (0..blocks)
                            .map(|_| {
                                (0..l)
                                    .map(|_| if blank { 0 } else { self.w.rand_el(rng) })
                                    .collect()
                            })
                            .collect()
                    })
                    .collect()
            })
            .collect();
        let start = rng.gen_range(1..self.w.f.order - 1);
        let errors: Vec<Vec<u32>> = (0..self.counts.errors)
            .map(|k| match noise {
                Noise::None => vec![0; l],
                Noise::Distinct => {
                    let mut v = self.w.rand_block(rng);
                    v[0] = (start + k as u32) % self.w.f.order;
                    v
                }
            })
            .collect();
        let sec = Secrets {
            masks,
            keys,
            errors,
        };
        let randoms = self.w.low_random(rng, self.counts.randoms);
        let zeros = self.w.zeros(rng, self.counts.zeros);
        let pre = self.share(rng, &sec, &randoms, &zeros);
        Material {
            sec,
            randoms,
            zeros,
            pre,
        }
    }

    pub fn share(
        &self,
        rng: &mut ChaCha12Rng,
        sec: &Secrets,
        randoms: &[Vec<u32>],
        zeros: &[Vec<u32>],
    ) -> Vec<PreProc<W>> {
        let n = self.w.cfg.n;
        let mut low = |v: &[Vec<u32>]| -> Vec<Vec<u32>> {
            let items: Vec<Vec<u32>> = v.iter().map(|s| self.w.low(rng, s)).collect();
            per_party(&items, n)
        };
        let masks = low(&sec.masks);
        let flat: Vec<Vec<u32>> = sec.keys.iter().flatten().flatten().cloned().collect();
        let keys = low(&flat);
        let errors = low(&sec.errors);
        let randoms = per_party(randoms, n);
        let zeros = per_party(zeros, n);
        (0..n)
            .map(|p| PreProc {
                masks: Array1::from_vec(gs(&masks[p])),
                keys: Array3::from_shape_vec((2, self.w.cfg.kl, self.blocks()), gs(&keys[p]))
                    .unwrap(),
                randoms: gs(&randoms[p]).into(),
                zeros: gs(&zeros[p]).into(),
                errors: gs(&errors[p]).into(),
            })
            .collect()
    }

    pub fn garble_raw(
        &self,
        pre: &[PreProc<W>],
        id: &[u8],
        opts: SimOpts,
    ) -> Result<crate::simnet::SimOut<Vec<ndarray::Array2<F>>>, SimFail> {
        simulate(self.w.cfg.n, opts, |p, net| {
            let (pre, gc, id) = (
                pre[p as usize].clone(),
                self.gc[p as usize].clone(),
                id.to_vec(),
            );
            async move { garble(id, pre, gc, net).await.gates }
        })
    }

    pub fn garble(&self, pre: &[PreProc<W>], id: &[u8], opts: SimOpts) -> R<GarbleRun> {
        let out = self.garble_raw(pre, id, opts)?;
        out.clean()?;
        Ok(GarbleRun {
            tables: self.open(&out.results)?,
            log: out.log,
        })
    }

    /// Reconstructs the tables from the parties' outputs.
    pub fn open(&self, out: &[Vec<ndarray::Array2<F>>]) -> R<Tables> {
        let cfg = self.w.cfg;
        for (p, o) in out.iter().enumerate() {
            ensure!(
                o.len() == self.gates.len(),
                "party {} returns tables of {} instead of {} gate blocks",
                p,
                o.len(),
                self.gates.len()
            );
            for (g, a) in o.iter().enumerate() {
                let rows = if self.gates[g].0 == Kind::Inv { 2 } else { 4 };
                ensure!(
                    a.shape() == [rows, cfg.q],
                    "party {} returns a table of shape {:?} for gate block {}",
                    p,
                    a.shape(),
                    g
                );
            }
        }
        Ok((0..self.gates.len())
            .map(|g| {
                let (rows, q) = out[0][g].dim();
                (0..rows)
                    .map(|r| {
                        (0..q)
                            .map(|c| {
                                let sh: Vec<u32> = out.iter().map(|o| u(o[g][[r, c]])).collect();
                                self.w.secrets(&sh)
                            })
                            .collect()
                    })
                    .collect()
            })
            .collect())
    }

    fn label_of(&self, sec: &Secrets, wire: u32, bit: usize) -> Vec<u32> {
        let (b, s) = self.place[&wire];
        sec.keys[bit].iter().map(|k| k[b][s]).collect()
    }

    pub fn mask_of(&self, sec: &Secrets, wire: u32) -> u32 {
        let (b, s) = self.place[&wire];
        sec.masks[b][s]
    }

    /// Labels entering row `r` of slot `s` of gate block `g`, as (wire, label) pairs.
    pub fn row_labels(&self, g: usize, r: usize, s: usize) -> Vec<(u32, usize)> {
        let (kind, inp, _) = &self.gates[g];
        if *kind == Kind::Inv {
            vec![(inp[0][s], r)]
        } else {
            vec![(inp[0][s], r / 2), (inp[1][s], r % 2)]
        }
    }

    pub fn row_key(&self, sec: &Secrets, g: usize, r: usize, s: usize) -> Vec<u32> {
        let mut k = vec![0; self.w.cfg.kl];
        for (wire, lab) in self.row_labels(g, r, s) {
            k = self.w.add(&k, &self.label_of(sec, wire, lab));
        }
        k
    }

    /// Output label and masked output bit the truth table prescribes for the row.
    pub fn row_message(&self, sec: &Secrets, g: usize, r: usize, s: usize) -> Vec<u32> {
        let (kind, _, out) = &self.gates[g];
        let v: Vec<u32> = self
            .row_labels(g, r, s)
            .iter()
            .map(|&(wire, lab)| lab as u32 ^ self.mask_of(sec, wire))
            .collect();
        let res = match kind {
            Kind::And => v[0] & v[1],
            Kind::Xor => v[0] ^ v[1],
            Kind::Inv => 1 ^ v[0],
        };
        let masked = res ^ self.mask_of(sec, out[s]);
        let mut m = self.label_of(sec, out[s], masked as usize);
        m.push(masked);
        m
    }

    /// The rows as (gate, row, slot).
    pub fn rows(&self) -> Vec<(usize, usize, usize)> {
        let mut v = Vec::new();
        for (g, (kind, _, out)) in self.gates.iter().enumerate() {
            for r in 0..if *kind == Kind::Inv { 2 } else { 4 } {
                for s in 0..out.len() {
                    v.push((g, r, s));
                }
            }
        }
        v
    }

    /// Ciphertext minus the encoding of the prescribed message.
    fn stripped(&self, sec: &Secrets, t: &Tables, (g, r, s): (usize, usize, usize)) -> Vec<u32> {
        let code = self.w.f.mat_vec(&self.enc, &self.row_message(sec, g, r, s));
        (0..self.w.cfg.q).map(|q| t[g][r][q][s] ^ code[q]).collect()
    }

    /// Finds, for every row, the public matrix that explains all observed noiseless tables; fails
    /// if there is none. Needs at least two runs more than the key length.
    pub fn learn(&self, runs: &[(Secrets, Tables)]) -> R<Mats> {
        let f = &self.w.f;
        let mut out: Mats = self
            .gates
            .iter()
            .map(|(k, _, o)| vec![vec![None; o.len()]; if *k == Kind::Inv { 2 } else { 4 }])
            .collect();
        for (g, r, s) in self.rows() {
            let x: Vec<Vec<u32>> = runs
                .iter()
                .map(|(sec, _)| self.row_key(sec, g, r, s))
                .collect();
            let y: Vec<Vec<u32>> = runs
                .iter()
                .map(|(sec, t)| self.stripped(sec, t, (g, r, s)))
                .collect();
            let mut mat = Vec::new();
            for q in 0..self.w.cfg.q {
                let b: Vec<u32> = y.iter().map(|v| v[q]).collect();
                match f.solve(&x, &b) {
                    Ok(a) => mat.push(a),
                    Err(false) => break,
                    Err(true) => {
                        return Err(format!(
                            "row {} of slot {} of gate block {} ({:?}, inputs {:?}) does not encrypt the prescribed label and masked bit: symbol {} over {} garblings is no fixed linear function of the row's labels plus the encoded message",
                            r, s, g, self.gates[g].0, self.row_labels(g, r, s), q, runs.len()
                        ))
                    }
                }
            }
            if mat.len() == self.w.cfg.q {
                out[g][r][s] = Some(mat);
            }
        }
        Ok(out)
    }

    /// What is left of every row after removing matrix times key and encoded message.
    fn residual(
        &self,
        sec: &Secrets,
        t: &Tables,
        a: &Mats,
        at: (usize, usize, usize),
    ) -> Option<Vec<u32>> {
        let (g, r, s) = at;
        let key = self.row_key(sec, g, r, s);
        let y = self.stripped(sec, t, at);
        if key.iter().all(|&k| k == 0) {
            return Some(y);
        }
        let a = a[g][r][s].as_ref()?;
        Some(self.w.add(&y, &self.w.f.mat_vec(a, &key)))
    }

    /// The noise in the tables is exactly the supplied noise, every entry used once.
    pub fn judge_noise(&self, sec: &Secrets, t: &Tables, a: &Mats) -> R {
        let mut by_first: HashMap<u32, Vec<usize>> = HashMap::new();
        for (k, e) in sec.errors.iter().enumerate() {
            by_first.entry(e[0]).or_default().push(k);
        }
        let mut adj: Vec<Vec<usize>> = Vec::new();
        let mut what: Vec<String> = Vec::new();
        for (g, (kind, _, out)) in self.gates.iter().enumerate() {
            for r in 0..if *kind == Kind::Inv { 2 } else { 4 } {
                let res: Vec<Option<Vec<u32>>> = (0..out.len())
                    .map(|s| self.residual(sec, t, a, (g, r, s)))
                    .collect();
                for q in 0..self.w.cfg.q {
                    let Some(first) = &res[0] else { continue };
                    let cand = by_first.get(&first[q]).map_or(&[][..], |v| v);
                    adj.push(
                        cand.iter()
                            .cloned()
                            .filter(|&k| {
                                res.iter().enumerate().all(|(s, v)| {
                                    v.as_ref().map_or(true, |v| v[q] == sec.errors[k][s])
                                })
                            })
                            .collect(),
                    );
                    let got: Vec<Option<u32>> =
                        res.iter().map(|v| v.as_ref().map(|v| v[q])).collect();
                    what.push(format!(
                        "symbol {} of row {} of gate block {} ({:?}) carries the noise {:?}",
                        q, r, g, kind, got
                    ));
                }
            }
        }
        // Entries may coincide in the slots that can be seen, so match them up.
        let mut user: Vec<Option<usize>> = vec![None; sec.errors.len()];
        for i in 0..adj.len() {
            let mut seen = vec![false; user.len()];
            if !augment(i, &adj, &mut user, &mut seen) {
                return Err(format!(
                    "{}, which is no (unused) supplied noise entry",
                    what[i]
                ));
            }
        }
        Ok(())
    }

    /// Evaluates the noiseless garbled circuit on `x`; Ok(false) if it cannot be decoded uniquely.
    pub fn evaluate(&self, sec: &Secrets, t: &Tables, a: &Mats, x: &[bool]) -> R<bool> {
        let cfg = self.w.cfg;
        if cfg.q < cfg.kl + 1 {
            return Ok(false);
        }
        let mut held: HashMap<u32, (usize, Vec<u32>)> = HashMap::new();
        for (i, &b) in x.iter().enumerate() {
            let m = (b as u32 ^ self.mask_of(sec, i as u32)) as usize;
            held.insert(i as u32, (m, self.label_of(sec, i as u32, m)));
        }
        for gate in &self.circ.gates {
            let (blk, s) = self.place[&gate.out];
            let g = blk - self.inputs.len();
            let ins: Vec<&(usize, Vec<u32>)> = gate.inp.iter().map(|w| &held[w]).collect();
            let r = ins.iter().fold(0, |acc, i| acc * 2 + i.0);
            let mut key = vec![0; cfg.kl];
            for i in &ins {
                key = self.w.add(&key, &i.1);
            }
            let mut y: Vec<u32> = (0..cfg.q).map(|q| t[g][r][q][s]).collect();
            if key.iter().any(|&k| k != 0) {
                let Some(a) = &a[g][r][s] else {
                    return Ok(false);
                };
                y = self.w.add(&y, &self.w.f.mat_vec(a, &key));
            }
            match self.w.f.solve(&self.enc, &y) {
                Ok(m) => {
                    ensure!(
                        m[cfg.kl] < 2,
                        "the evaluator decrypts gate {:?} to masked bit {}",
                        gate,
                        m[cfg.kl]
                    );
                    held.insert(gate.out, (m[cfg.kl] as usize, m[..cfg.kl].to_vec()));
                }
                Err(_) => {
                    return Err(format!("the evaluator cannot decode gate {:?}", gate));
                }
            }
        }
        let want = self.circ.eval_wires(x);
        for w in self.circ.outputs().iter().flatten() {
            let got = held[w].0 as u32 ^ self.mask_of(sec, *w);
            ensure!(
                got == want[*w as usize] as u32,
                "output wire {} evaluates to {} instead of {} on input {:?}",
                w,
                got,
                want[*w as usize] as u32,
                x
            );
        }
        Ok(true)
    }
}

/// One step of bipartite matching.
fn augment(i: usize, adj: &[Vec<usize>], user: &mut [Option<usize>], seen: &mut [bool]) -> bool {
    // Free entries first: keeps the recursion shallow.
    if let Some(&k) = adj[i].iter().find(|&&k| user[k].is_none()) {
        user[k] = Some(i);
        return true;
    }
    for &k in &adj[i] {
        if !seen[k] {
            seen[k] = true;
            if augment(user[k].unwrap(), adj, user, seen) {
                user[k] = Some(i);
                return true;
            }
        }
    }
    false
}
