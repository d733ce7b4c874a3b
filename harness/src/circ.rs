//! Circuit generator, Bristol writer and plain evaluator (independent of the loader under test).

use rand::seq::SliceRandom;
use rand::Rng;
use scalable_mpc::circuit::{PackedCircuit, PackedGate};
use std::fmt::Write as _;
use std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    And,
    Xor,
    Inv,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct CGate {
    pub kind: Kind,
    pub inp: Vec<u32>,
    pub out: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Circ {
    pub in_lens: Vec<u32>,
    pub out_lens: Vec<u32>,
    pub num_wires: u32,
    pub gates: Vec<CGate>,
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub gates: usize,
    pub max_inputs: u32,
    /// Relative weights of AND, XOR, INV.
    pub weights: [u32; 3],
    /// Operands come from this many most recent wires / a fixed small pool, if set.
    pub pool: Option<usize>,
    /// Probability in percent of repeating the previous gate's operand pair (maybe swapped).
    pub repeat_pair: u32,
    /// Probability in percent of using the same wire twice.
    pub same_wire: u32,
    /// Number gate outputs in random order.
    pub permute: bool,
    pub max_groups: u32,
}

impl GenOpts {
    pub fn pick<G: Rng>(rng: &mut G, max_gates: usize) -> Self {
        let weights = match rng.gen_range(0..8) {
            0 => [1, 0, 0],
            1 => [0, 1, 0],
            2 => [0, 0, 1],
            3 => [1, 1, 0],
            4 => [1, 0, 1],
            5 => [0, 1, 1],
            _ => [
                rng.gen_range(1..5),
                rng.gen_range(1..5),
                rng.gen_range(1..4),
            ],
        };
        GenOpts {
            gates: rng.gen_range(1..=max_gates),
            max_inputs: rng.gen_range(1..=12),
            weights,
            pool: if rng.gen_bool(0.4) {
                Some(rng.gen_range(1..=4))
            } else {
                None
            },
            repeat_pair: *[0, 0, 20, 60].choose(rng).unwrap(),
            same_wire: *[0, 5, 30].choose(rng).unwrap(),
            permute: rng.gen_bool(0.5),
            max_groups: rng.gen_range(1..=5),
        }
    }
}

/// Splits `total` into positive parts.
pub fn split<G: Rng>(rng: &mut G, total: u32, groups: u32) -> Vec<u32> {
    let g = groups.clamp(1, total);
    let mut cuts: Vec<u32> = (1..total).collect();
    cuts.shuffle(rng);
    cuts.truncate(g as usize - 1);
    cuts.push(0);
    cuts.push(total);
    cuts.sort_unstable();
    cuts.windows(2).map(|w| w[1] - w[0]).collect()
}

impl Circ {
    pub fn gen<G: Rng>(rng: &mut G, o: &GenOpts) -> Circ {
        let num_in = rng.gen_range(1..=o.max_inputs.max(1));
        let num_gates = o.gates as u32;
        let mut out_ids: Vec<u32> = (num_in..(num_in + num_gates)).collect();
        if o.permute {
            out_ids.shuffle(rng);
        }
        let mut avail: Vec<u32> = (0..num_in).collect();
        let pool: Option<Vec<u32>> = o.pool.map(|k| {
            let mut v = avail.clone();
            v.shuffle(rng);
            v.truncate(k);
            v
        });
        let mut gates: Vec<CGate> = Vec::new();
        let total: u32 = o.weights.iter().sum();
        for &out in &out_ids {
            let mut r = rng.gen_range(0..total);
            let kind = if r < o.weights[0] {
                Kind::And
            } else {
                r -= o.weights[0];
                if r < o.weights[1] {
                    Kind::Xor
                } else {
                    Kind::Inv
                }
            };
            let pick = |rng: &mut G| -> u32 {
                match &pool {
                    Some(p) if rng.gen_bool(0.8) => *p.choose(rng).unwrap(),
                    _ => *avail.choose(rng).unwrap(),
                }
            };
            let inp = if kind == Kind::Inv {
                vec![pick(rng)]
            } else {
                let prev = gates
                    .iter()
                    .rev()
                    .find(|g| g.inp.len() == 2)
                    .map(|g| g.inp.clone());
                match prev {
                    Some(mut p) if rng.gen_range(0..100) < o.repeat_pair => {
                        if rng.gen() {
                            p.swap(0, 1);
                        }
                        p
                    }
                    _ => {
                        let a = pick(rng);
                        let b = if rng.gen_range(0..100) < o.same_wire {
                            a
                        } else {
                            pick(rng)
                        };
                        vec![a, b]
                    }
                }
            };
            gates.push(CGate { kind, inp, out });
            avail.push(out);
        }
        let num_out = rng.gen_range(1..=num_gates);
        let in_groups = rng.gen_range(1..=o.max_groups);
        let out_groups = rng.gen_range(1..=o.max_groups);
        Circ {
            in_lens: split(rng, num_in, in_groups),
            out_lens: split(rng, num_out, out_groups),
            num_wires: num_in + num_gates,
            gates,
        }
    }

    pub fn num_inputs(&self) -> u32 {
        self.in_lens.iter().sum()
    }

    pub fn count(&self, k: Kind) -> usize {
        self.gates.iter().filter(|g| g.kind == k).count()
    }

    pub fn inputs(&self) -> Vec<Vec<u32>> {
        let mut s = 0;
        self.in_lens
            .iter()
            .map(|&l| {
                s += l;
                (s - l..s).collect()
            })
            .collect()
    }

    pub fn outputs(&self) -> Vec<Vec<u32>> {
        let mut s = self.num_wires - self.out_lens.iter().sum::<u32>();
        self.out_lens
            .iter()
            .map(|&l| {
                s += l;
                (s - l..s).collect()
            })
            .collect()
    }

    /// Writes the file; `layout` picks among equivalent whitespace layouts.
    pub fn text(&self, layout: u32) -> String {
        let mut s = String::new();
        let sep = if layout & 1 == 1 { "  " } else { " " };
        let tail = if layout & 2 == 2 { " " } else { "" };
        let nl = if layout & 8 == 8 { "\r\n" } else { "\n" };
        write!(s, "{} {}{}{}", self.gates.len(), self.num_wires, tail, nl).unwrap();
        for lens in [&self.in_lens, &self.out_lens] {
            write!(s, "{}", lens.len()).unwrap();
            for l in lens.iter() {
                write!(s, "{}{}", sep, l).unwrap();
            }
            write!(s, "{}{}", tail, nl).unwrap();
        }
        s.push_str(nl);
        for (i, g) in self.gates.iter().enumerate() {
            write!(s, "{} 1", g.inp.len()).unwrap();
            for w in &g.inp {
                write!(s, " {}", w).unwrap();
            }
            let k = match g.kind {
                Kind::And => "AND",
                Kind::Xor => "XOR",
                Kind::Inv => "INV",
            };
            write!(s, " {} {}{}", g.out, k, tail).unwrap();
            if i + 1 < self.gates.len() || layout & 4 == 0 {
                s.push_str(nl);
            }
        }
        s
    }

    pub fn write(&self, path: &Path, layout: u32) {
        std::fs::write(path, self.text(layout)).expect("scratch file is writable");
    }

    pub fn eval_wires(&self, inputs: &[bool]) -> Vec<bool> {
        let mut v = vec![false; self.num_wires as usize];
        v[..inputs.len()].copy_from_slice(inputs);
        for g in &self.gates {
            let a = v[g.inp[0] as usize];
            v[g.out as usize] = match g.kind {
                Kind::And => a & v[g.inp[1] as usize],
                Kind::Xor => a ^ v[g.inp[1] as usize],
                Kind::Inv => !a,
            };
        }
        v
    }

    pub fn eval(&self, inputs: &[bool]) -> Vec<Vec<bool>> {
        let w = self.eval_wires(inputs);
        self.outputs()
            .iter()
            .map(|g| g.iter().map(|&i| w[i as usize]).collect())
            .collect()
    }

    /// The circuit of a Bristol file, parsed with the harness's own parser.
    pub fn parse(text: &str) -> Circ {
        let mut it = text.split_ascii_whitespace();
        let mut num = || it.next().unwrap().parse::<u32>().unwrap();
        let ng = num();
        let nw = num();
        let k = num();
        let in_lens = (0..k).map(|_| num()).collect();
        let k = num();
        let out_lens = (0..k).map(|_| num()).collect();
        let mut gates = Vec::new();
        for _ in 0..ng {
            let mut num = || it.next().unwrap().parse::<u32>().unwrap();
            let fi = num();
            let _ = num();
            let inp = (0..fi).map(|_| num()).collect();
            let out = num();
            let kind = match it.next().unwrap() {
                "AND" => Kind::And,
                "XOR" => Kind::Xor,
                "INV" => Kind::Inv,
                k => panic!("HARNESS-ERROR: gate kind {}", k),
            };
            gates.push(CGate { kind, inp, out });
        }
        Circ {
            in_lens,
            out_lens,
            num_wires: nw,
            gates,
        }
    }
}

/// Blocks of a packed circuit as plain data: (kind, operand wires per side, output wires).
pub fn blocks(p: &PackedCircuit) -> Vec<(Kind, Vec<Vec<u32>>, Vec<u32>)> {
    p.gates()
        .iter()
        .map(|g| match g {
            PackedGate::And(i) => (Kind::And, i.inp.to_vec(), i.out.clone()),
            PackedGate::Xor(i) => (Kind::Xor, i.inp.to_vec(), i.out.clone()),
            PackedGate::Inv(i) => (Kind::Inv, i.inp.to_vec(), i.out.clone()),
        })
        .collect()
}
