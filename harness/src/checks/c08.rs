//! C08 and C09: circuit loading, plain evaluation and packing.

use crate::circ::{blocks, CGate, Circ, GenOpts, Kind};
use crate::cx::{hash_of, Cx, HARNESS, R};
use crate::ensure;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::circuit::{Circuit, Gate, PackedCircuit};
use serde_json::json;
use std::path::Path;

fn gates_of(c: &Circuit) -> Vec<CGate> {
    c.gates()
        .iter()
        .map(|g| match g {
            Gate::And(i) => CGate {
                kind: Kind::And,
                inp: i.inp.to_vec(),
                out: i.out,
            },
            Gate::Xor(i) => CGate {
                kind: Kind::Xor,
                inp: i.inp.to_vec(),
                out: i.out,
            },
            Gate::Inv(i) => CGate {
                kind: Kind::Inv,
                inp: i.inp.to_vec(),
                out: i.out,
            },
        })
        .collect()
}

fn group(lens: &[u32], bits: &[bool]) -> Vec<Vec<bool>> {
    let mut s = 0;
    lens.iter()
        .map(|&l| {
            s += l as usize;
            bits[s - l as usize..s].to_vec()
        })
        .collect()
}

fn compare(c: &Circ, got: &Circuit) -> R {
    ensure!(
        got.num_wires() == c.num_wires,
        "{} wires loaded, file declares {}",
        got.num_wires(),
        c.num_wires
    );
    ensure!(
        got.inputs() == c.inputs(),
        "input groups {:?} load as {:?}",
        c.inputs(),
        got.inputs()
    );
    ensure!(
        got.outputs() == c.outputs(),
        "output groups {:?} load as {:?}",
        c.outputs(),
        got.outputs()
    );
    let gg = gates_of(got);
    ensure!(
        gg.len() == c.gates.len(),
        "{} gates loaded, file has {}",
        gg.len(),
        c.gates.len()
    );
    for (i, (a, b)) in gg.iter().zip(&c.gates).enumerate() {
        ensure!(
            a == b,
            "gate {} is {:?} in the file and {:?} loaded",
            i,
            b,
            a
        );
    }
    Ok(())
}

fn load_case(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    let max_gates = if rng.gen_bool(0.1) { 600 } else { 40 };
    let o = GenOpts::pick(rng, max_gates);
    let c = Circ::gen(rng, &o);
    let layout = rng.gen_range(0..16);
    let path = cx.scratch.join("circ.txt");
    c.write(&path, layout);
    let got = Circuit::from_bristol_fashion(&path);
    compare(&c, &got)?;
    let n = c.num_inputs();
    let exhaustive = n <= 6;
    let runs = if exhaustive { 1u32 << n } else { 48 };
    for r in 0..runs {
        let bits: Vec<bool> = (0..n)
            .map(|i| {
                if exhaustive {
                    r >> i & 1 == 1
                } else {
                    rng.gen()
                }
            })
            .collect();
        let want = c.eval(&bits);
        let have = got.eval(&group(&c.in_lens, &bits));
        ensure!(
            have == want,
            "circuit with gates {:?}.. on {:?} evaluates to {:?}, expected {:?}",
            &c.gates[..c.gates.len().min(5)],
            bits,
            have,
            want
        );
    }
    cx.eval((&c, layout), c.gates.len() > 1);
    cx.count("assignments evaluated", runs as u64);
    cx.count(
        "output groups beyond the first",
        c.out_lens.len() as u64 - 1,
    );
    cx.sample("circuit", 3, || json!({"inputs": c.in_lens, "outputs": c.out_lens, "and": c.count(Kind::And), "xor": c.count(Kind::Xor), "inv": c.count(Kind::Inv), "layout": layout}));
    Ok(())
}

fn aes128(key: &[u8; 16], pt: &[u8; 16]) -> [u8; 16] {
    let xt = |b: u8| (b << 1) ^ (if b & 0x80 != 0 { 0x1b } else { 0 });
    let mul = |mut a: u8, mut b: u8| {
        let mut r = 0;
        while b != 0 {
            if b & 1 == 1 {
                r ^= a;
            }
            a = xt(a);
            b >>= 1;
        }
        r
    };
    let mut sbox = [0u8; 256];
    for (x, s) in sbox.iter_mut().enumerate() {
        let inv = (0..=255u8).find(|&y| mul(x as u8, y) == 1).unwrap_or(0);
        *s = (0..5).fold(0x63, |a, i| a ^ inv.rotate_left(i));
    }
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
    let mut rc = 1u8;
    for i in 4..44 {
        let mut t = w[i - 1];
        if i % 4 == 0 {
            t.rotate_left(1);
            t = t.map(|b| sbox[b as usize]);
            t[0] ^= rc;
            rc = xt(rc);
        }
        let p = w[i - 4];
        w.push(std::array::from_fn(|j| p[j] ^ t[j]));
    }
    let add = |s: &mut [u8; 16], r: usize| {
        for i in 0..16 {
            s[i] ^= w[4 * r + i / 4][i % 4];
        }
    };
    let mut s = *pt;
    add(&mut s, 0);
    for r in 1..=10 {
        let b = s.map(|b| sbox[b as usize]);
        for c in 0..4 {
            for i in 0..4 {
                s[4 * c + i] = b[4 * ((c + i) % 4) + i];
            }
        }
        if r < 10 {
            for c in 0..4 {
                let a: [u8; 4] = s[4 * c..4 * c + 4].try_into().unwrap();
                for i in 0..4 {
                    s[4 * c + i] = xt(a[i])
                        ^ (xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4])
                        ^ a[(i + 2) % 4]
                        ^ a[(i + 3) % 4];
                }
            }
        }
        add(&mut s, r);
    }
    s
}

fn sha256_compress(state: &[u32; 8], block: &[u8; 64]) -> [u32; 8] {
    // Constants are the fractional parts of roots of primes.
    let primes: Vec<u64> = (2..400u64)
        .filter(|p| (2..*p).all(|q| p % q != 0))
        .take(64)
        .collect();
    let k: Vec<u32> = primes
        .iter()
        .map(|&p| {
            // floor(cbrt(p) * 2^32) mod 2^32 by integer search on x^3 <= p * 2^96.
            let (mut lo, mut hi) = (0u128, 1u128 << 35);
            while hi - lo > 1 {
                let m = (lo + hi) / 2;
                if m * m * m <= (p as u128) << 96 {
                    lo = m;
                } else {
                    hi = m;
                }
            }
            lo as u32
        })
        .collect();
    let mut w: Vec<u32> = block
        .chunks(4)
        .map(|c| u32::from_be_bytes(c.try_into().unwrap()))
        .collect();
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w.push(
            w[i - 16]
                .wrapping_add(s0)
                .wrapping_add(w[i - 7])
                .wrapping_add(s1),
        );
    }
    let mut v = *state;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7]
            .wrapping_add(s1)
            .wrapping_add(ch)
            .wrapping_add(k[i])
            .wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [
            t1.wrapping_add(t2),
            v[0],
            v[1],
            v[2],
            v[3].wrapping_add(t1),
            v[4],
            v[5],
            v[6],
        ];
    }
    std::array::from_fn(|i| v[i].wrapping_add(state[i]))
}

/// Most significant bit first, then reversed: the convention of the shipped circuits.
fn rev_bits(b: &[u8]) -> Vec<bool> {
    let mut v: Vec<bool> = b
        .iter()
        .flat_map(|&c| (0..8).map(move |i| c >> (7 - i) & 1 == 1))
        .collect();
    v.reverse();
    v
}

fn shipped_case(cx: &mut Cx, rng: &mut ChaCha12Rng, idx: u64) -> R {
    let name = ["sub64", "aes_128", "sha256"][(idx / 4 % 3) as usize];
    let path = format!("/repo/data/circ/{}.txt", name);
    let text = std::fs::read_to_string(&path).map_err(|e| format!("{}{}", HARNESS, e))?;
    let c = Circuit::from_bristol_fashion(Path::new(&path));
    compare(&Circ::parse(&text), &c)?;
    for r in 0..6 {
        let fill = |rng: &mut ChaCha12Rng, b: &mut [u8]| match r {
            0 => b.fill(0),
            1 => b.fill(0xff),
            _ => rng.fill(b),
        };
        let (inp, want) = match name {
            "sub64" => {
                let (a, b): (u64, u64) = match r {
                    0 => (0, 1),
                    1 => (u64::MAX, u64::MAX),
                    2 => (1 << 63, 1),
                    _ => (rng.gen(), rng.gen()),
                };
                let lsb = |x: u64| (0..64).map(|i| x >> i & 1 == 1).collect::<Vec<bool>>();
                (vec![lsb(a), lsb(b)], lsb(a.wrapping_sub(b)))
            }
            "aes_128" => {
                let (mut k, mut p) = ([0u8; 16], [0u8; 16]);
                fill(rng, &mut k);
                fill(rng, &mut p);
                (vec![rev_bits(&k), rev_bits(&p)], rev_bits(&aes128(&k, &p)))
            }
            _ => {
                let (mut b, mut s) = ([0u8; 64], [0u8; 32]);
                fill(rng, &mut b);
                fill(rng, &mut s);
                let st: [u32; 8] = std::array::from_fn(|i| {
                    u32::from_be_bytes(s[4 * i..4 * i + 4].try_into().unwrap())
                });
                let o: Vec<u8> = sha256_compress(&st, &b)
                    .iter()
                    .flat_map(|x| x.to_be_bytes())
                    .collect();
                (vec![rev_bits(&b), rev_bits(&s)], rev_bits(&o))
            }
        };
        let got = c.eval(&inp);
        ensure!(
            got == vec![want],
            "{} does not compute its function on assignment {}",
            name,
            r
        );
        cx.eval((name, &inp), true);
        cx.count(&format!("evaluations of {}", name), 1);
    }
    Ok(())
}

pub fn run08(cx: &mut Cx) {
    cx.rule =
        "generated circuit files (all small assignments, else samples) and the shipped circuits; \
        non-trivial: more than one gate"
            .into();
    cx.cases("load", cx.amount(60000, 600000), |cx, _, rng| {
        load_case(cx, rng)
    });
    cx.cases("shipped", cx.amount(24, 240), |cx, idx, rng| {
        shipped_case(cx, rng, idx)
    });
}

fn check_packed(c: &Circ, p: &PackedCircuit, l: usize) -> R {
    let mut want: Vec<(Kind, Vec<u32>, u32)> = c
        .gates
        .iter()
        .map(|g| (g.kind, g.inp.clone(), g.out))
        .collect();
    let mut have = Vec::new();
    let bs = blocks(p);
    let mut counts = [0usize; 3];
    for (i, (kind, inp, out)) in bs.iter().enumerate() {
        ensure!(
            !out.is_empty() && out.len() <= l,
            "block {} has {} gates for packing width {}",
            i,
            out.len(),
            l
        );
        ensure!(
            inp.iter().all(|s| s.len() == out.len()),
            "block {} has {} outputs and operand lists {:?}",
            i,
            out.len(),
            inp.iter().map(|s| s.len()).collect::<Vec<_>>()
        );
        for j in 0..out.len() {
            have.push((
                *kind,
                inp.iter().map(|s| s[j]).collect::<Vec<u32>>(),
                out[j],
            ));
        }
        counts[*kind as usize] += 1;
    }
    want.sort();
    have.sort();
    ensure!(
        want == have,
        "packing with width {} does not preserve the gates: first difference {:?}",
        l,
        want.iter().zip(&have).find(|(a, b)| a != b)
    );
    let (a, x, i) = p.get_gate_counts();
    ensure!(
        [a, x, i] == counts,
        "reported block counts {:?}, actual (AND, XOR, INV) {:?}",
        (a, x, i),
        counts
    );
    ensure!(
        p.num_wires() == c.num_wires,
        "packed circuit reports {} wires instead of {}",
        p.num_wires(),
        c.num_wires
    );
    ensure!(
        p.gates_per_block() as usize == l,
        "packed circuit reports width {} instead of {}",
        p.gates_per_block(),
        l
    );
    for (what, packed, groups) in [
        ("input", p.inputs(), c.inputs()),
        ("output", p.outputs(), c.outputs()),
    ] {
        let flat: Vec<u32> = groups.into_iter().flatten().collect();
        let have: Vec<u32> = packed.iter().flatten().cloned().collect();
        ensure!(
            flat == have,
            "{} wires {:?} are packed as {:?}",
            what,
            flat,
            packed
        );
        ensure!(
            packed.iter().all(|b| !b.is_empty() && b.len() <= l),
            "an {} block has {:?} wires for packing width {}",
            what,
            packed.iter().map(|b| b.len()).collect::<Vec<_>>(),
            l
        );
    }
    Ok(())
}

type Shape = (
    Vec<(Kind, Vec<Vec<u32>>, Vec<u32>)>,
    Vec<Vec<u32>>,
    Vec<Vec<u32>>,
);

fn shape(p: &PackedCircuit) -> Shape {
    (blocks(p), p.inputs().to_vec(), p.outputs().to_vec())
}

fn pack_case(cx: &mut Cx, rng: &mut ChaCha12Rng, fresh: bool) -> R {
    let max_gates = if rng.gen_bool(0.1) { 800 } else { 60 };
    let o = GenOpts::pick(rng, max_gates);
    let c = Circ::gen(rng, &o);
    let l = if rng.gen_bool(0.1) {
        rng.gen_range(1..2000)
    } else {
        rng.gen_range(1..=9usize)
    };
    let path = cx.scratch.join("circ.txt");
    c.write(&path, 0);
    let p = Circuit::from_bristol_fashion(&path).pack(l as u32);
    check_packed(&c, &p, l)?;
    let s = shape(&p);
    for _ in 0..2 {
        let q = Circuit::from_bristol_fashion(&path).pack(l as u32);
        ensure!(
            shape(&q) == s,
            "packing the same circuit twice with width {} differs",
            l
        );
    }
    let th = {
        let path = path.clone();
        std::thread::spawn(move || shape(&Circuit::from_bristol_fashion(&path).pack(l as u32)))
            .join()
            .map_err(|_| "packing panics in another thread".to_string())?
    };
    ensure!(th == s, "packing differs between threads (width {})", l);
    if fresh {
        let exe = std::env::current_exe().map_err(|e| format!("{}{}", HARNESS, e))?;
        let out = std::process::Command::new(exe)
            .args(["child", "c09", path.to_str().unwrap(), &l.to_string()])
            .output()
            .map_err(|e| format!("{}{}", HARNESS, e))?;
        ensure!(
            out.status.success(),
            "packing in a fresh process fails: {}",
            String::from_utf8_lossy(&out.stderr)
        );
        let got = String::from_utf8_lossy(&out.stdout).trim().to_string();
        ensure!(
            got == hash_of(&s).to_string(),
            "packing the same circuit in another process differs (width {})",
            l
        );
        cx.count("fresh processes", 1);
    }
    cx.eval((&c, l), c.gates.len() > l);
    cx.count("gate blocks", s.0.len() as u64);
    cx.sample("packing", 3, || json!({"gates": c.gates.len(), "width": l, "blocks": s.0.len(), "inputs": c.in_lens, "outputs": c.out_lens}));
    Ok(())
}

pub fn child(args: &[String]) -> i32 {
    let l: u32 = args[1].parse().unwrap();
    let p = Circuit::from_bristol_fashion(Path::new(&args[0])).pack(l);
    println!("{}", hash_of(&shape(&p)));
    0
}

pub fn run09(cx: &mut Cx) {
    cx.rule = "generated circuits and packing widths 1..2000, shipped circuits; non-trivial: more gates than fit \
        one block"
        .into();
    cx.cases("pack", cx.amount(30000, 300000), |cx, idx, rng| {
        pack_case(cx, rng, idx / 4 % 25 == 0)
    });
    cx.cases("shipped", 24, |cx, idx, rng| {
        let name = ["sub64", "aes_128", "sha256"][(idx / 4 % 3) as usize];
        let path = format!("/repo/data/circ/{}.txt", name);
        let text = std::fs::read_to_string(&path).map_err(|e| format!("{}{}", HARNESS, e))?;
        let l = rng.gen_range(1..=200);
        let p = Circuit::from_bristol_fashion(Path::new(&path)).pack(l);
        check_packed(&Circ::parse(&text), &p, l as usize)?;
        let q = Circuit::from_bristol_fashion(Path::new(&path)).pack(l);
        ensure!(
            shape(&p) == shape(&q),
            "packing {} twice with width {} differs",
            name,
            l
        );
        cx.eval((name, l), true);
        Ok(())
    });
}
