//! C23: progress and cleanliness under every delivery order. Also the wire part of C10.

use super::c14::{field_cached, pick_id};
use super::c16::{self, judge_pieces, pieces, Mats};
use super::c18::pick_lab;
use crate::circ::GenOpts;
use crate::cx::{Cx, R};
use crate::ensure;
use crate::lab::*;
use crate::mpc::*;
use crate::refgf::RefField;
use crate::simnet::{all_orders, simulate, Policy, SimOpts};
use crate::views;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::math::Combination;
use scalable_mpc::protocol::network::{sync, Network};
use scalable_mpc::protocol::preproc::{self, PreProc, RandBitContext, RandContext, ZeroContext};
use scalable_mpc::protocol::{core, garble, ProtocolID};
use serde_json::json;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

/// What a party outputs, in a form all instances share.
pub enum Out {
    Shares(Vec<u32>),
    Pre(Box<PreProc<W>>),
    Tables(Vec<ndarray::Array2<F>>),
    Nothing,
}

type Fut = Pin<Box<dyn Future<Output = Out> + Send>>;

/// One protocol instance with its inputs dealt, and the judgement of its outputs.
pub struct Inst {
    pub name: String,
    start: Box<dyn Fn(usize, ProtocolID, Network) -> Fut>,
    judge: Box<dyn Fn(&[&Out]) -> R>,
}

fn shares_of(outs: &[&Out]) -> R<Vec<Vec<u32>>> {
    per_item(
        &outs
            .iter()
            .map(|o| match o {
                Out::Shares(v) => v.clone(),
                _ => Vec::new(),
            })
            .collect::<Vec<_>>(),
    )
}

pub fn kinds() -> usize {
    9
}

fn make(cx: &Cx, f: &Rc<RefField>, rng: &mut ChaCha12Rng, cfg: Cfg, kind: usize) -> R<Inst> {
    let w = Rc::new(World::new(f, cfg));
    let (n, d) = (cfg.n, cfg.d());
    let ctx = contexts(&cfg);
    let num = rng.gen_range(0..4usize);
    let leader = if rng.gen() {
        None
    } else {
        Some(rng.gen_range(0..n) as u16)
    };
    Ok(match kind {
        0 | 1 => {
            let a: Vec<Vec<u32>> = (0..num).map(|_| w.rand_block(rng)).collect();
            let b: Vec<Vec<u32>> = (0..num).map(|_| w.rand_block(rng)).collect();
            let xs = arrays(&a.iter().map(|s| w.low(rng, s)).collect::<Vec<_>>(), n);
            let ys = arrays(&b.iter().map(|s| w.low(rng, s)).collect::<Vec<_>>(), n);
            let fulls = arrays(&a.iter().map(|s| w.full(rng, s)).collect::<Vec<_>>(), n);
            let r = arrays(&w.low_random(rng, num), n);
            let z = arrays(&w.zeros(rng, num), n);
            let want: Vec<Vec<u32>> = if kind == 0 {
                a.iter().zip(&b).map(|(x, y)| w.mul(x, y)).collect()
            } else {
                a
            };
            Inst {
                name: format!(
                    "{} of {} (leader {:?})",
                    ["mult", "reduce_degree"][kind],
                    num,
                    leader
                ),
                start: Box::new(move |p, id, net| {
                    let (x, y, full, r, z, c) = (
                        xs[p].clone(),
                        ys[p].clone(),
                        fulls[p].clone(),
                        r[p].clone(),
                        z[p].clone(),
                        ctx[p].clone(),
                    );
                    Box::pin(async move {
                        let v = if kind == 0 {
                            core::mult(id, x, y, r, z, leader, c, net).await
                        } else {
                            core::reduce_degree(id, full, r, z, leader, c, net).await
                        };
                        Out::Shares(us(v.iter()))
                    })
                }),
                judge: Box::new(move |outs| {
                    let it = shares_of(outs)?;
                    ensure!(it.len() == want.len(), "{} results", it.len());
                    for (s, want) in it.iter().zip(&want) {
                        ensure!(
                            w.sh.on_degree(s, d) && w.sh.at(s, d, &w.dp) == *want,
                            "a result is not a sharing of the right values"
                        );
                    }
                    Ok(())
                }),
            }
        }
        2 => {
            let old = w.dp.clone();
            let wires: Vec<u32> = (0..cfg.l as u32).map(|i| i * 3 + 1).collect();
            let new = w.wire_pos(&wires);
            let a: Vec<Vec<u32>> = (0..num).map(|_| w.rand_block(rng)).collect();
            let m: Vec<Vec<u32>> = (0..num).map(|_| w.rand_block(rng)).collect();
            let xs = arrays(&a.iter().map(|s| w.low(rng, s)).collect::<Vec<_>>(), n);
            let full = arrays(&m.iter().map(|s| w.full(rng, s)).collect::<Vec<_>>(), n);
            let low = arrays(
                &m.iter()
                    .map(|s| w.sh.deal(rng, d, &new, s))
                    .collect::<Vec<_>>(),
                n,
            );
            let l = cfg.l;
            let new2 = new.clone();
            Inst {
                name: format!("trans of {} (leader {:?})", num, leader),
                start: Box::new(move |p, id, net| {
                    let (x, lo, fu, c) = (
                        xs[p].clone(),
                        low[p].clone(),
                        full[p].clone(),
                        ctx[p].clone(),
                    );
                    let tf = core::SharingTransform::new(
                        gs(&old),
                        gs(&new),
                        Combination::new((0..l).collect()),
                    );
                    Box::pin(async move {
                        Out::Shares(us(core::trans(id, x, lo, fu, tf, leader, c, net)
                            .await
                            .iter()))
                    })
                }),
                judge: Box::new(move |outs| {
                    let it = shares_of(outs)?;
                    ensure!(it.len() == a.len(), "{} results", it.len());
                    for (s, want) in it.iter().zip(&a) {
                        ensure!(
                            w.sh.on_degree(s, d) && w.sh.at(s, d, &new2) == *want,
                            "a result is not a sharing of the right values"
                        );
                    }
                    Ok(())
                }),
            }
        }
        3..=5 => {
            let mats = Mats::pick(rng, &cfg);
            let sup = c16::to_arr(&mats.sup);
            let bin = c16::to_arr(&mats.bin);
            Inst {
                name: format!("{} of {}", ["rand", "zero", "randbit"][kind - 3], num),
                start: Box::new(move |p, id, net| {
                    let (sup, bin, c) = (sup.clone(), bin.clone(), ctx[p].clone());
                    Box::pin(async move {
                        let v = match kind {
                            3 => preproc::rand(id, num, RandContext::new(sup, &c), net).await,
                            4 => preproc::zero(id, num, ZeroContext::new(sup, &c), net).await,
                            _ => preproc::randbit(id, num, RandBitContext::new(bin, &c), net).await,
                        };
                        Out::Shares(us(v.iter()))
                    })
                }),
                judge: Box::new(move |outs| {
                    let it = shares_of(outs)?;
                    ensure!(it.len() >= num, "only {} items", it.len());
                    for s in &it {
                        let sec = w.secrets(s);
                        let ok = match kind {
                            3 => w.sh.on_degree(s, d),
                            4 => sec.iter().all(|&x| x == 0),
                            _ => w.sh.on_degree(s, d) && sec.iter().all(|&x| x < 2),
                        };
                        ensure!(ok, "an item is not a sharing of the right kind");
                    }
                    Ok(())
                }),
            }
        }
        6 => {
            let mats = Mats::pick(rng, &cfg);
            let sup = c16::to_arr(&mats.sup);
            let bin = c16::to_arr(&mats.bin);
            let counts = c16::pick_counts(rng, &cfg, 2 * n);
            Inst {
                name: format!("preprocessing with {} noise values", counts.errors),
                start: Box::new(move |p, id, net| {
                    let (sup, bin, c) = (sup.clone(), bin.clone(), ctx[p].clone());
                    Box::pin(async move {
                        Out::Pre(Box::new(
                            preproc::preproc(
                                id,
                                counts,
                                c.clone(),
                                RandContext::new(sup.clone(), &c),
                                ZeroContext::new(sup, &c),
                                RandBitContext::new(bin, &c),
                                net,
                            )
                            .await,
                        ))
                    })
                }),
                judge: Box::new(move |outs| {
                    let pre: Vec<PreProc<W>> = outs
                        .iter()
                        .filter_map(|o| match o {
                            Out::Pre(p) => Some((**p).clone()),
                            _ => None,
                        })
                        .collect();
                    judge_pieces(&w, &pieces(&pre)?, &counts)
                }),
            }
        }
        7 => {
            let mut o = GenOpts::pick(rng, 6);
            o.max_inputs = o.max_inputs.min(6);
            let lab = pick_lab(cx, rng, cfg, &o)?;
            let m = lab.material(rng, false, Noise::Distinct);
            // The opened tables are determined by the material.
            let want = lab
                .garble(&m.pre, &[9], SimOpts::new(Policy::Fifo, 8, 0))?
                .tables;
            let gc = lab.gc.clone();
            let used: Vec<usize> = lab.gates.iter().map(|g| g.2.len()).collect();
            Inst {
                name: format!("garbling of {} gate blocks", lab.gates.len()),
                start: Box::new(move |p, id, net| {
                    let (pre, gc) = (m.pre[p].clone(), gc[p].clone());
                    Box::pin(
                        async move { Out::Tables(garble::garble(id, pre, gc, net).await.gates) },
                    )
                }),
                judge: Box::new(move |outs| {
                    let t: Vec<Vec<ndarray::Array2<F>>> = outs
                        .iter()
                        .filter_map(|o| match o {
                            Out::Tables(t) => Some(t.clone()),
                            _ => None,
                        })
                        .collect();
                    let got = lab.open(&t)?;
                    same_tables(&want, &got, &used)
                }),
            }
        }
        _ => Inst {
            name: "sync".into(),
            start: Box::new(move |_, id, net| {
                Box::pin(async move {
                    sync(id, &net, n).await;
                    Out::Nothing
                })
            }),
            judge: Box::new(|_| Ok(())),
        },
    })
}

/// Compares opened tables in the slots that belong to gates.
pub fn same_tables(a: &Tables, b: &Tables, used: &[usize]) -> R {
    for (g, (x, y)) in a.iter().zip(b).enumerate() {
        for (r, (x, y)) in x.iter().zip(y).enumerate() {
            for (q, (x, y)) in x.iter().zip(y).enumerate() {
                ensure!(
                    x[..used[g]] == y[..used[g]],
                    "symbol {} of row {} of gate block {} opens to {:?} and to {:?}",
                    q,
                    r,
                    g,
                    x,
                    y
                );
            }
        }
    }
    Ok(())
}

/// Distinct identifiers of equal length.
fn ids(rng: &mut ChaCha12Rng, num: usize) -> Vec<Vec<u8>> {
    let len = rng.gen_range(1..5);
    let mut v: Vec<Vec<u8>> = Vec::new();
    while v.len() < num {
        let id: Vec<u8> = (0..len)
            .map(|_| *[0u8, 1, 2, 255, rng.gen()].choose(rng).unwrap())
            .collect();
        if !v.contains(&id) {
            v.push(id);
        }
    }
    v
}

fn run_all(
    n: usize,
    insts: &[Inst],
    ids: &[Vec<u8>],
    mode: usize,
    opts: SimOpts,
    reps: usize,
    sync_id: &[u8],
) -> R {
    let out = simulate(n, opts, |p, net| {
        // Instances are started by each party in its own order where they run concurrently.
        let mut order: Vec<usize> = (0..insts.len()).collect();
        if mode == 1 {
            order.rotate_left(p as usize % insts.len());
        }
        let mut futs: Vec<(usize, Vec<Fut>)> = Vec::new();
        for &k in &order {
            futs.push((
                k,
                (0..reps)
                    .map(|_| (insts[k].start)(p as usize, ids[k].clone(), net.clone()))
                    .collect(),
            ));
        }
        let sync_id = sync_id.to_vec();
        async move {
            let mut res: Vec<(usize, usize, Out)> = Vec::new();
            if mode == 1 {
                let hs: Vec<_> = futs
                    .into_iter()
                    .map(|(k, mut f)| (k, tokio::spawn(f.remove(0))))
                    .collect();
                for (k, h) in hs {
                    res.push((k, 0, h.await.unwrap()));
                }
            } else {
                for (k, fs) in futs {
                    let last = fs.len() - 1;
                    for (i, f) in fs.into_iter().enumerate() {
                        res.push((k, i, f.await));
                        if i < last {
                            sync(sync_id.clone(), &net, n).await;
                        }
                    }
                }
            }
            res.sort_by_key(|x| (x.0, x.1));
            res
        }
    })?;
    out.clean()?;
    let total = out.results[0].len();
    for i in 0..total {
        let outs: Vec<&Out> = out.results.iter().map(|r| &r[i].2).collect();
        let k = out.results[0][i].0;
        (insts[k].judge)(&outs)
            .map_err(|e| format!("{} (run {}): {}", insts[k].name, out.results[0][i].1, e))?;
    }
    Ok(())
}

fn names(v: &[Inst]) -> String {
    v.iter()
        .map(|i| i.name.clone())
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn run23(cx: &mut Cx) {
    cx.rule = "protocols of every kind alone, concurrently and in succession under ten delivery policies, plus every delivery order of small runs; every run counted".into();
    cx.cases("orders", cx.amount(128, 800), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg {
            n: 3,
            t: 1,
            l: 1,
            kl: 1,
            q: 1,
        };
        let kind = (idx / 4 % 4) as usize;
        let max = if cx.thorough() { 4000 } else { 600 };
        let inst = [make(cx, &f, rng, cfg, [0, 1, 2, 8][kind])?];
        let id = ids(rng, 1);
        let mut k = 0;
        let (runs, complete) = all_orders(max, |opts| {
            k += 1;
            run_all(3, &inst, &id, 0, opts, 1, b"s")
                .map_err(|e| format!("{} in delivery order {}: {}", inst[0].name, k, e))
        })?;
        cx.evals_bulk((kind, idx), runs);
        cx.count("delivery orders", runs);
        cx.count(
            "small runs with every delivery order tried",
            complete as u64,
        );
        cx.sample(
            "orders",
            4,
            || json!({"what": inst[0].name, "orders": runs, "all": complete}),
        );
        Ok(())
    });
    cx.cases("alone", cx.amount(24000, 240000), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let kind = (idx / 4) as usize % kinds();
        let cfg = if kind == 7 {
            Cfg::pick(rng, 2, 8)
        } else {
            Cfg::pick(rng, 3, 13)
        };
        let inst = [make(cx, &f, rng, cfg, kind)?];
        let id = ids(rng, 1);
        let opts = SimOpts::pick(rng, cfg.n);
        run_all(cfg.n, &inst, &id, 0, opts, 1, b"s").map_err(|e| {
            format!(
                "{} n={} t={} l={} {:?} batch {}: {}",
                inst[0].name, cfg.n, cfg.t, cfg.l, opts.policy, opts.batch, e
            )
        })?;
        cx.eval((kind, cfg, opts.policy, opts.batch, &id), true);
        cx.count("runs alone", 1);
        Ok(())
    });
    // Numbers of blocks around the point where identifiers get longer.
    cx.cases("boundary", cx.amount(16, 80), |cx, idx, rng| {
        let cfg = Cfg {
            n: 3,
            t: 1,
            l: 1,
            kl: 1,
            q: 1,
        };
        let gates = if idx / 4 % 4 == 0 {
            rng.gen_range(500..600)
        } else {
            rng.gen_range(244..262)
        };
        let mut o = GenOpts::pick(rng, gates);
        o.gates = gates;
        let lab = pick_lab(cx, rng, cfg, &o)?;
        let m = lab.material(rng, false, Noise::Distinct);
        let used: Vec<usize> = lab.gates.iter().map(|g| g.2.len()).collect();
        let a = lab
            .garble(&m.pre, b"a", SimOpts::new(Policy::Flush, 1, 0))?
            .tables;
        let b = lab
            .garble(&m.pre, &pick_id(rng), SimOpts::pick(rng, 3))
            .map_err(|e| format!("{}: {}", lab.label(), e))?
            .tables;
        same_tables(&a, &b, &used)?;
        cx.eval((&lab.circ, idx), true);
        cx.count("garblings with identifiers of two bytes or nearly so", 1);
        Ok(())
    });
    cx.cases("concurrent", cx.amount(12000, 120000), |cx, _, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg::pick(rng, 2, 8);
        let num = rng.gen_range(2..=5);
        let mut insts = Vec::new();
        for _ in 0..num {
            let kind = rng.gen_range(0..kinds());
            insts.push(make(cx, &f, rng, cfg, kind)?);
        }
        let id = ids(rng, num);
        let opts = SimOpts::pick(rng, cfg.n);
        run_all(cfg.n, &insts, &id, 1, opts, 1, b"s").map_err(|e| {
            format!(
                "concurrently {} n={} t={} l={} {:?}: {}",
                names(&insts),
                cfg.n,
                cfg.t,
                cfg.l,
                opts.policy,
                e
            )
        })?;
        cx.eval((cfg, opts.policy, opts.batch, names(&insts), &id), true);
        cx.count("instances run concurrently", num as u64);
        cx.sample(
            "concurrent",
            3,
            || json!({"instances": names(&insts), "policy": format!("{:?}", opts.policy)}),
        );
        Ok(())
    });
    cx.cases("successive", cx.amount(8000, 80000), |cx, idx, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg::pick(rng, 2, 8);
        // Everything but a bare synchronisation.
        let kind = (idx / 4) as usize % (kinds() - 1);
        let inst = [make(cx, &f, rng, cfg, kind)?];
        let id = ids(rng, 2);
        let reps = rng.gen_range(2..=4);
        let opts = SimOpts::pick(rng, cfg.n);
        // Half of the time like the benchmarks do it: empty identifier, textual one for syncs.
        let bench = rng.gen();
        let (pid, sid): (Vec<u8>, Vec<u8>) = if bench {
            (Vec::new(), b"garble_benchmark".to_vec())
        } else {
            (id[0].clone(), id[1].clone())
        };
        run_all(cfg.n, &inst, &[pid.clone()], 0, opts, reps, &sid).map_err(|e| {
            format!(
                "{} times {} n={} t={} l={} {:?} batch {}: {}",
                reps, inst[0].name, cfg.n, cfg.t, cfg.l, opts.policy, opts.batch, e
            )
        })?;
        cx.eval((kind, cfg, opts.policy, opts.batch, pid, reps), true);
        cx.count("successive runs", reps as u64);
        Ok(())
    });
}

/// One identifier carries one sub-protocol instance: at most one message per ordered pair of
/// parties (two from the leader to itself), all in one communication pattern.
fn one_instance(log: &[crate::simnet::Msg], n: usize) -> R<usize> {
    let by = views::by_id(log);
    for (id, msgs) in &by {
        let ata = views::all_to_all(msgs, n)?.is_some();
        let open = views::opening(msgs, n)?.is_some();
        ensure!(
            ata || open,
            "the {} messages under identifier {:?} are not those of one sub-protocol instance",
            msgs.len(),
            id
        );
    }
    Ok(by.len())
}

pub fn run10_wire(cx: &mut Cx) {
    cx.cases("wire", cx.amount(1200, 12000), |cx, idx, rng| {
        let (cfg, gates) = match idx / 4 % 30 {
            0 => (
                Cfg {
                    n: 3,
                    t: 1,
                    l: 1,
                    kl: 1,
                    q: 1,
                },
                rng.gen_range(245..330),
            ),
            1 => (
                Cfg {
                    n: 5,
                    t: 1,
                    l: 2,
                    kl: 1,
                    q: 1,
                },
                rng.gen_range(480..560),
            ),
            _ => (Cfg::pick(rng, 3, 12), rng.gen_range(1..20)),
        };
        let mut o = GenOpts::pick(rng, gates);
        o.gates = gates;
        let lab = pick_lab(cx, rng, cfg, &o)?;
        let label = lab.label();
        let id = pick_id(rng);
        let m = lab.material(rng, true, Noise::None);
        let opts = SimOpts::pick(rng, cfg.n);
        let r = lab
            .garble(&m.pre, &id, opts)
            .map_err(|e| format!("{}: {}", label, e))?;
        let g = one_instance(&r.log, cfg.n).map_err(|e| format!("garbling, {}: {}", label, e))?;
        let mats = Mats::pick(rng, &cfg);
        let counts = c16::pick_counts(rng, &cfg, 3 * cfg.n);
        let opts = SimOpts::pick(rng, cfg.n);
        let r = c16::run_preproc(&lab.w, &mats, counts, &id, opts)
            .map_err(|e| format!("{}: {}", label, e))?;
        let p =
            one_instance(&r.log, cfg.n).map_err(|e| format!("preprocessing, {}: {}", label, e))?;
        cx.eval((cfg, &lab.circ, &id), true);
        cx.count("identifiers on the wire", (g + p) as u64);
        cx.sample(
            "wire",
            3,
            || json!({"what": label, "garbling identifiers": g, "preprocessing identifiers": p}),
        );
        Ok(())
    });
    // So many parties that preprocessing needs more than 256 identifiers.
    cx.cases("many parties", cx.amount(2, 8), |cx, _, rng| {
        let f = field_cached(cx)?;
        let cfg = Cfg {
            n: rng.gen_range(124..134),
            t: 1,
            l: 1,
            kl: 1,
            q: 1,
        };
        let w = World::new(&f, cfg);
        let mats = Mats::pick(rng, &cfg);
        let mut counts = c16::pick_counts(rng, &cfg, 2 * cfg.n);
        counts.errors = cfg.n + 3;
        let r = c16::run_preproc(&w, &mats, counts, b"x", SimOpts::new(Policy::Flush, 1, 0))?;
        let p = one_instance(&r.log, cfg.n)
            .map_err(|e| format!("preprocessing with {} parties: {}", cfg.n, e))?;
        judge_pieces(&w, &pieces(&r.out)?, &counts)?;
        cx.eval(cfg, true);
        cx.count("identifiers on the wire", p as u64);
        cx.sample("many parties", 1, || json!({"n": cfg.n, "identifiers": p}));
        Ok(())
    });
}
