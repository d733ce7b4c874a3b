//! C11: delivery on the real networks. C12: traffic statistics. C13: barrier and collection.

use crate::cx::{hash_of, panics, Cx, HARNESS, R};
use crate::ensure;
use crate::netlab::{self, pause, setup, Kind, Nets, Progress};
use crate::simnet::{all_orders, simulate, SimOpts};
use rand::seq::SliceRandom;
use rand::{Rng, RngCore};
use rand_chacha::ChaCha12Rng;
use scalable_mpc::protocol::network::{
    message_from_each_party, setup_tcp_network, sync, Network, Recipient, SendMessage,
};
use serde_json::json;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

type Bytes = Arc<Vec<u8>>;

#[derive(Clone)]
struct Item {
    to: Option<u16>,
    id: usize,
    data: Bytes,
    wait: u32,
}

/// Who sends what to whom, in which tasks, and how receivers pace themselves.
struct Plan {
    n: usize,
    ids: Vec<Vec<u8>>,
    /// [party][task]: an identifier belongs to one task of a party, so its order is defined.
    sends: Vec<Vec<Vec<Item>>>,
    /// [party][identifier]: wait before the first receive, wait between receives.
    pace: Vec<Vec<(u32, u32)>>,
    /// Parties let go of their handles as soon as they have sent and received everything.
    leave: bool,
}

fn wait<G: Rng>(rng: &mut G) -> u32 {
    match rng.gen_range(0..10) {
        0..=5 => 0,
        6 | 7 => rng.gen_range(1..10),
        8 => rng.gen_range(10..60),
        _ => rng.gen_range(60..300),
    }
}

fn pick_ids(rng: &mut ChaCha12Rng, num: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let mut tries = 0;
    while v.len() < num {
        tries += 1;
        let id: Vec<u8> = match rng.gen_range(0..6) {
            0 => vec![0; rng.gen_range(0..5)],
            1 => (0..*[126usize, 127, 128, 129, 200, 253, 254, 255]
                .choose(rng)
                .unwrap())
                .map(|_| rng.gen())
                .collect(),
            2 if !v.is_empty() => {
                // A relative of another one.
                let mut b = v.choose(rng).unwrap().clone();
                match rng.gen_range(0..3) {
                    0 if b.len() < 255 => b.push(*[0u8, 1, 255].choose(rng).unwrap()),
                    1 if !b.is_empty() => {
                        b.pop();
                    }
                    _ => {
                        if let Some(x) = b.last_mut() {
                            *x = x.wrapping_add(1);
                        }
                    }
                }
                b
            }
            _ => (0..rng.gen_range(0..20)).map(|_| rng.gen()).collect(),
        };
        if !v.contains(&id) || tries > 1000 {
            v.push(id);
        }
    }
    v
}

fn payload(rng: &mut ChaCha12Rng, id_len: usize, large: bool) -> Bytes {
    let len = match rng.gen_range(0..10) {
        0 => 0,
        1..=4 => rng.gen_range(1..40),
        5 | 6 if large => {
            let c = *[1usize << 21, 1 << 21, 1 << 20, 4_000_000, 1 << 16]
                .choose(rng)
                .unwrap();
            (c + rng.gen_range(0..8)).saturating_sub(id_len + 4)
        }
        5 | 6 => {
            // The sizes at which length encodings change.
            let c = *[128usize, 256, 1 << 14, 1 << 15, 1 << 16]
                .choose(rng)
                .unwrap();
            (c + rng.gen_range(0..6)).saturating_sub(id_len + 4)
        }
        7 => {
            let c = *[128usize, 256].choose(rng).unwrap();
            c + rng.gen_range(0..6) - 3
        }
        _ => rng.gen_range(0..3000),
    };
    let mut d = vec![0u8; len];
    match rng.gen_range(0..4) {
        0 => d.fill(*[0u8, 255].choose(rng).unwrap()),
        _ => rng.fill_bytes(&mut d),
    }
    Arc::new(d)
}

impl Plan {
    fn gen(rng: &mut ChaCha12Rng, n: usize, num_ids: usize, per_party: usize, large: bool) -> Plan {
        let ids = pick_ids(rng, num_ids);
        let mut sends = Vec::new();
        for _ in 0..n {
            let tasks = rng.gen_range(1..=3.min(num_ids));
            let owner: Vec<usize> = (0..num_ids).map(|_| rng.gen_range(0..tasks)).collect();
            let mut t: Vec<Vec<Item>> = vec![Vec::new(); tasks];
            for _ in 0..per_party {
                let id = rng.gen_range(0..num_ids);
                t[owner[id]].push(Item {
                    to: if rng.gen_bool(0.3) {
                        None
                    } else {
                        Some(rng.gen_range(0..n) as u16)
                    },
                    id,
                    data: payload(rng, ids[id].len(), large),
                    wait: wait(rng),
                });
            }
            // An end mark under every identifier: anything surplus shows up before it.
            for id in 0..num_ids {
                t[owner[id]].push(Item {
                    to: None,
                    id,
                    data: Arc::new(b"end of messages".to_vec()),
                    wait: 0,
                });
            }
            sends.push(t);
        }
        let pace = (0..n)
            .map(|_| {
                (0..num_ids)
                    .map(|_| (wait(rng), if rng.gen_bool(0.7) { 0 } else { wait(rng) }))
                    .collect()
            })
            .collect();
        Plan {
            n,
            ids,
            sends,
            pace,
            leave: rng.gen(),
        }
    }

    /// What `to` receives under an identifier, by sender.
    fn expected(&self, to: usize, id: usize) -> Vec<Vec<Bytes>> {
        self.sends
            .iter()
            .map(|t| {
                t.iter()
                    .flatten()
                    .filter(|m| m.id == id && m.to.map_or(true, |p| p as usize == to))
                    .map(|m| m.data.clone())
                    .collect()
            })
            .collect()
    }

    fn messages(&self) -> usize {
        self.sends
            .iter()
            .flatten()
            .flatten()
            .map(|m| if m.to.is_some() { 1 } else { self.n })
            .sum()
    }
}

fn send(net: &Network, id: &[u8], to: Option<u16>, data: &[u8]) {
    net.send(SendMessage {
        proto_id: id.to_vec(),
        to: to.map_or(Recipient::All, Recipient::One),
        data: data.to_vec(),
    });
}

fn short(d: &[u8]) -> String {
    format!("{} bytes {:?}", d.len(), &d[..d.len().min(8)])
}

/// Runs the plan and judges every receive.
async fn exchange(plan: Arc<Plan>, nets: Nets, progress: Progress) -> R<()> {
    let mut senders = Vec::new();
    let mut receivers = Vec::new();
    for p in 0..plan.n {
        for id in 0..plan.ids.len() {
            let (plan, net, progress) = (plan.clone(), nets[p].1.clone(), progress.clone());
            receivers.push(tokio::spawn(async move {
                let want = plan.expected(p, id);
                let total: usize = want.iter().map(|v| v.len()).sum();
                let mut next = vec![0usize; plan.n];
                let (first, between) = plan.pace[p][id];
                pause(first).await;
                for k in 0..total {
                    if k > 0 {
                        pause(between).await;
                    }
                    let m = net.recv(plan.ids[id].clone()).await;
                    progress.tick();
                    let at = format!(
                        "party {} receiving under identifier {:?}",
                        p,
                        short(&plan.ids[id])
                    );
                    ensure!(
                        m.proto_id == plan.ids[id],
                        "{} gets a message labelled {:?}",
                        at,
                        short(&m.proto_id)
                    );
                    let s = m.from as usize;
                    ensure!(s < plan.n, "{} gets a message from party {}", at, s);
                    ensure!(
                        next[s] < want[s].len(),
                        "{} gets more than the {} messages sent by party {}: {}",
                        at,
                        want[s].len(),
                        s,
                        short(&m.data)
                    );
                    ensure!(
                        m.data == *want[s][next[s]],
                        "{} gets {} as message {} from party {}, sent was {}",
                        at,
                        short(&m.data),
                        next[s],
                        s,
                        short(&want[s][next[s]])
                    );
                    next[s] += 1;
                }
                Ok(())
            }));
        }
        for t in 0..plan.sends[p].len() {
            let (plan, net) = (plan.clone(), nets[p].1.clone());
            senders.push(tokio::spawn(async move {
                for m in &plan.sends[p][t] {
                    pause(m.wait).await;
                    send(&net, &plan.ids[m.id], m.to, &m.data);
                }
            }));
        }
    }
    let kept = if plan.leave { None } else { Some(nets) };
    for h in receivers {
        h.await.map_err(|e| format!("receiving panics: {}", e))??;
    }
    for h in senders {
        h.await.map_err(|e| format!("sending panics: {}", e))?;
    }
    drop(kept);
    Ok(())
}

/// Runs plans on networks of their own at the same time (setting up TCP is mostly waiting).
fn case11(cx: &mut Cx, jobs: Vec<(Kind, Plan)>) -> R {
    let jobs: Vec<(Kind, Arc<Plan>)> = jobs.into_iter().map(|(k, p)| (k, Arc::new(p))).collect();
    netlab::run(&jobs[0].0, |progress| {
        let jobs = jobs.clone();
        async move {
            let hs: Vec<_> = jobs
                .into_iter()
                .map(|(kind, plan)| {
                    let progress = progress.clone();
                    tokio::spawn(async move {
                        let what = format!("{} parties, {}", plan.n, kind.describe());
                        let nets = setup(&kind, plan.n)
                            .await
                            .map_err(|e| format!("{}: {}", what, e))?;
                        progress.tick();
                        exchange(plan, nets, progress)
                            .await
                            .map_err(|e| format!("{}: {}", what, e))
                    })
                })
                .collect();
            for h in hs {
                h.await.map_err(|e| format!("a run panics: {}", e))??;
            }
            Ok(())
        }
    })
    .map_err(|e| {
        format!(
            "{} [{}]",
            e,
            jobs.iter()
                .map(|j| j.0.name())
                .collect::<Vec<_>>()
                .join(", ")
        )
    })?;
    for (kind, plan) in &jobs {
        let lens: Vec<usize> = plan
            .sends
            .iter()
            .flatten()
            .flatten()
            .map(|m| m.data.len())
            .collect();
        cx.eval((plan.n, kind.name(), &lens, &plan.ids), true);
        cx.count(
            &format!("messages, {}", kind.name()),
            plan.messages() as u64,
        );
        cx.count(
            "payloads above one megabyte",
            lens.iter().filter(|&&l| l > 1 << 20).count() as u64,
        );
        cx.sample(kind.name(), 2, || json!({"parties": plan.n, "messages": plan.messages(), "identifier lengths": plan.ids.iter().map(|i| i.len()).collect::<Vec<_>>(), "largest": lens.iter().max(), "how": kind.describe().chars().take(300).collect::<String>()}));
    }
    Ok(())
}

pub fn run11(cx: &mut Cx) {
    netlab::init_ports(cx);
    cx.rule = "random traffic plans on the in-process and the TCP network; every receive judged against the plan; every plan counted".into();
    cx.cases("local", cx.amount(2400, 40000), |cx, idx, rng| {
        let kind = if idx / 4 % 4 == 3 {
            Kind::LocalThreads
        } else {
            Kind::Local
        };
        let n = rng.gen_range(1..9);
        let (ids, per) = (rng.gen_range(1..7), rng.gen_range(0..30));
        case11(cx, vec![(kind, Plan::gen(rng, n, ids, per, false))])
    });
    cx.cases("local many", cx.amount(8, 60), |cx, _, rng| {
        let n = rng.gen_range(200..301);
        case11(cx, vec![(Kind::Local, Plan::gen(rng, n, 2, 3, false))])
    });
    cx.cases("tcp", cx.amount(60, 1000), |cx, _, rng| {
        let jobs = (0..6)
            .map(|_| {
                let n = rng.gen_range(2..8);
                let kind = Kind::tcp(rng, n, false);
                let (ids, per) = (rng.gen_range(1..7), rng.gen_range(0..25));
                (kind, Plan::gen(rng, n, ids, per, false))
            })
            .collect();
        case11(cx, jobs)
    });
    cx.cases("tcp large", cx.amount(16, 200), |cx, _, rng| {
        let jobs = (0..2)
            .map(|_| {
                let n = rng.gen_range(2..5);
                let kind = Kind::tcp(rng, n, true);
                let (ids, per) = (rng.gen_range(1..4), rng.gen_range(5..20));
                (kind, Plan::gen(rng, n, ids, per, true))
            })
            .collect();
        case11(cx, jobs)
    });
    // Parties that are started long after the others.
    cx.cases("tcp late", cx.amount(8, 40), |cx, _, rng| {
        let jobs = (0..6)
            .map(|_| {
                let n = rng.gen_range(2..6);
                let mut kind = Kind::tcp(rng, n, false);
                if let Kind::Tcp { delays, .. } = &mut kind {
                    for _ in 0..rng.gen_range(1..3) {
                        delays[rng.gen_range(0..n)] = rng.gen_range(3500..7500);
                    }
                }
                (kind, Plan::gen(rng, n, 3, 10, false))
            })
            .collect();
        case11(cx, jobs)
    });
    cx.cases("tcp many", cx.amount(4, 24), |cx, _, rng| {
        let n = rng.gen_range(30..60);
        let kind = Kind::Tcp {
            delays: (0..n).map(|_| rng.gen_range(0..100)).collect(),
            relays: Vec::new(),
            seed: 0,
        };
        case11(cx, vec![(kind, Plan::gen(rng, n, 2, 3, false))])
    });
    // Party numbers above 255; several processes because of the limit on open files.
    if cx.profile == "release" {
        cx.cases("tcp very many", cx.amount(1, 3), |cx, _, rng| {
            let n = rng.gen_range(257..264);
            very_many(n)?;
            cx.eval(n, true);
            cx.count(
                "messages, TCP with more than 256 parties",
                (n * n + n) as u64,
            );
            cx.sample("very many", 1, || json!({"parties": n}));
            Ok(())
        });
    }
}

const PROCESSES: usize = 7;

fn very_many(n: usize) -> R {
    let mut last = String::new();
    let mut failures = 0;
    for _ in 0..2 {
        let mut ports = Vec::new();
        for _ in 0..n {
            ports.push(netlab::port()?.to_string());
        }
        let ports = ports.join(",");
        let exe = std::env::current_exe().map_err(|e| format!("{}{}", HARNESS, e))?;
        let mut kids = Vec::new();
        for k in 0..PROCESSES {
            kids.push(
                Command::new(&exe)
                    .args(["child", "c11", &ports, &k.to_string()])
                    .stdin(Stdio::null())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .map_err(|e| format!("{}{}", HARNESS, e))?,
            );
        }
        let start = Instant::now();
        let mut status: Vec<Option<bool>> = vec![None; PROCESSES];
        while status.contains(&None) && start.elapsed() < Duration::from_secs(150) {
            for (k, c) in kids.iter_mut().enumerate() {
                if status[k].is_none() {
                    if let Ok(Some(s)) = c.try_wait() {
                        status[k] = Some(s.success());
                    }
                }
            }
            if status.contains(&Some(false)) {
                break;
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        let mut text = String::new();
        for c in kids.iter_mut() {
            let _ = c.kill();
            let _ = c.wait();
            if let Some(mut o) = c.stdout.take() {
                let _ = o.read_to_string(&mut text);
            }
        }
        if status.iter().all(|s| *s == Some(true)) {
            return if failures == 0 {
                Ok(())
            } else {
                Err(format!("{}failed once: {}", HARNESS, last))
            };
        }
        if !status.contains(&Some(false)) || text.contains("AddrInUse") || text.contains("Too many")
        {
            return Err(format!(
                "{}{} parties over TCP do not finish in time: {}",
                HARNESS, n, text
            ));
        }
        failures += 1;
        last = text;
    }
    Err(format!("{} parties over TCP: {}", n, last.trim()))
}

/// Some of the parties of `very_many`.
pub fn child(args: &[String]) -> i32 {
    let addr: Vec<String> = args[0]
        .split(',')
        .map(|p| format!("127.0.0.1:{}", p))
        .collect();
    let k: usize = args[1].parse().unwrap();
    let n = addr.len();
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .enable_all()
        .build()
        .unwrap();
    let res: R = rt.block_on(async move {
        let hs: Vec<_> = (0..n)
            .filter(|p| p % PROCESSES == k)
            .map(|p| {
                let addr = addr.clone();
                tokio::spawn(async move {
                    let (_, net) = setup_tcp_network(p as u16, &addr).await;
                    let id = b"many".to_vec();
                    send(&net, &id, None, format!("all {}", p).as_bytes());
                    send(
                        &net,
                        &id,
                        Some(((p * 7 + 3) % n) as u16),
                        format!("one {}", p).as_bytes(),
                    );
                    let mut got: Vec<Vec<String>> = vec![Vec::new(); n];
                    let own = (0..n).filter(|s| (s * 7 + 3) % n == p).count();
                    for _ in 0..n + own {
                        let m = net.recv(id.clone()).await;
                        got[m.from as usize].push(String::from_utf8_lossy(&m.data).to_string());
                    }
                    for (s, g) in got.iter().enumerate() {
                        let mut want = vec![format!("all {}", s)];
                        if (s * 7 + 3) % n == p {
                            want.push(format!("one {}", s));
                        }
                        ensure!(
                            *g == want,
                            "party {} receives {:?} from party {}, sent was {:?}",
                            p,
                            g,
                            s,
                            want
                        );
                    }
                    // Nobody leaves before everyone has everything.
                    sync(b"bye".to_vec(), &net, n).await;
                    tokio::time::sleep(Duration::from_secs(2)).await;
                    Ok(())
                })
            })
            .collect();
        for h in hs {
            h.await
                .map_err(|e| format!("a party panics: {} ({})", e, panics()))??;
        }
        Ok(())
    });
    if let Err(e) = res {
        println!("{}", e);
        return 1;
    }
    std::process::exit(0)
}

// ---------------------------------------------------------------------------------------------

/// One phase of traffic between two quiescent points.
#[derive(Clone)]
struct Phase {
    /// [party]: (identifier, recipient, payload length)
    sends: Vec<Vec<(Vec<u8>, Option<u16>, usize)>>,
    /// Milliseconds of real time the interval lasts at least.
    real_ms: u64,
}

async fn account(
    n: usize,
    phases: Arc<Vec<Phase>>,
    nets: Nets,
    progress: Progress,
    virt: bool,
) -> R<u64> {
    let mut sum = vec![vec![(0u64, 0u64); n]; n];
    // Interval measurements still open: (phase of opening, measurement, traffic at that time).
    let mut open: Vec<(
        usize,
        Vec<scalable_mpc::Stats>,
        Vec<Vec<(u64, u64)>>,
        Instant,
        Instant,
    )> = Vec::new();
    let mut judged = 0;
    for (k, ph) in phases.iter().enumerate() {
        let t0 = Instant::now();
        let mut marks = Vec::new();
        for (stats, _) in &nets {
            marks.push(scalable_mpc::Stats::now(stats, n as u32).await);
        }
        open.push((k, marks, sum.clone(), t0, Instant::now()));
        let mark_id = format!("mark {}", k).into_bytes();
        for (p, list) in ph.sends.iter().enumerate() {
            for (id, to, len) in list {
                send(&nets[p].1, id, *to, &vec![7u8; *len]);
                for q in 0..n {
                    if to.map_or(true, |t| t as usize == q) {
                        sum[q][p].0 += *len as u64;
                        sum[q][p].1 += (*len + id.len()) as u64;
                    }
                }
            }
            // Arrives after everything the party sent before.
            send(&nets[p].1, &mark_id, None, b"mark");
            for row in sum.iter_mut() {
                row[p].0 += 4;
                row[p].1 += 4 + mark_id.len() as u64;
            }
        }
        for (_, net) in &nets {
            for _ in 0..n {
                net.recv(mark_id.clone()).await;
                progress.tick();
            }
        }
        if ph.real_ms > 0 {
            std::thread::sleep(Duration::from_millis(ph.real_ms));
        }
        // Quiescence: on virtual time exact, otherwise given a few seconds.
        let mut tries = 0;
        let bad = loop {
            if virt {
                tokio::time::sleep(Duration::from_secs(60)).await;
            }
            let mut bad = None;
            for (q, (stats, _)) in nets.iter().enumerate() {
                let mut tot = (0, 0);
                for p in 0..n {
                    let got = stats.party(p as u16).await;
                    tot.0 += sum[q][p].0;
                    tot.1 += sum[q][p].1;
                    judged += 1;
                    if got != sum[q][p] {
                        bad = Some(format!(
                            "party {} has received {:?} bytes from party {} (payload, with identifiers), its statistics say {:?}",
                            q, sum[q][p], p, got
                        ));
                    }
                }
                let got = stats.total().await;
                if got != tot && bad.is_none() {
                    bad = Some(format!(
                        "party {} has received {:?} bytes, its totals say {:?}",
                        q, tot, got
                    ));
                }
            }
            tries += 1;
            if bad.is_none() || virt || tries > 60 {
                break bad;
            }
            tokio::time::sleep(Duration::from_millis(50)).await;
        };
        if let Some(b) = bad {
            return Err(format!("after phase {}: {}", k, b));
        }
        progress.tick();
        for (from, marks, before, t0, t1) in &open {
            for (q, m) in marks.iter().enumerate() {
                let t2 = Instant::now();
                let (ms, comm) = m.elapsed(&nets[q].0).await;
                let t3 = Instant::now();
                let want: Vec<(u64, u64)> = (0..n)
                    .map(|p| (sum[q][p].0 - before[q][p].0, sum[q][p].1 - before[q][p].1))
                    .collect();
                ensure!(
                    comm == want,
                    "an interval of party {} over phases {} to {} reports {:?}, received was {:?}",
                    q,
                    from,
                    k,
                    comm,
                    want
                );
                let (lo, hi) = ((t2 - *t1).as_millis() as u64, (t3 - *t0).as_millis() as u64);
                ensure!(
                    lo <= ms && ms <= hi,
                    "an interval of party {} lasting between {} and {} ms reports {} ms",
                    q,
                    lo,
                    hi,
                    ms
                );
                judged += 1;
            }
        }
        // Some measurements go on over several phases.
        open.retain(|(from, ..)| from % 3 == 0);
    }
    Ok(judged)
}

fn case12(cx: &mut Cx, rng: &mut ChaCha12Rng, kind: Kind, n: usize) -> R {
    let ids = pick_ids(rng, 5);
    let phases: Vec<Phase> = (0..rng.gen_range(1..5))
        .map(|_| Phase {
            sends: (0..n)
                .map(|_| {
                    (0..rng.gen_range(0..6))
                        .map(|_| {
                            let id = ids.choose(rng).unwrap().clone();
                            let to = if rng.gen_bool(0.3) {
                                None
                            } else {
                                Some(rng.gen_range(0..n) as u16)
                            };
                            let len = payload(rng, id.len(), false).len();
                            (id, to, len)
                        })
                        .collect()
                })
                .collect(),
            real_ms: if rng.gen_bool(0.05) {
                rng.gen_range(5..60)
            } else {
                0
            },
        })
        .collect();
    let phases = Arc::new(phases);
    let virt = matches!(kind, Kind::Local);
    let judged = netlab::run(&kind, |progress| {
        let (phases, kind) = (phases.clone(), kind.clone());
        async move {
            let nets = setup(&kind, n).await?;
            progress.tick();
            account(n, phases, nets, progress, virt).await
        }
    })
    .map_err(|e| format!("{} parties, {}: {}", n, kind.describe(), e))?;
    let key: Vec<u64> = phases.iter().map(|p| hash_of(&p.sends)).collect();
    cx.eval((n, kind.name(), key), true);
    cx.count(&format!("counters judged, {}", kind.name()), judged);
    cx.sample(kind.name(), 2, || json!({"parties": n, "phases": phases.len(), "first phase of party 0": phases[0].sends[0].iter().map(|(i, t, l)| json!([i.len(), t, l])).collect::<Vec<_>>()}));
    Ok(())
}

pub fn run12(cx: &mut Cx) {
    netlab::init_ports(cx);
    cx.rule = "random traffic in phases, statistics and interval measurements read at every quiescent point; every run counted".into();
    cx.cases("local", cx.amount(6000, 60000), |cx, idx, rng| {
        let kind = if idx / 4 % 8 == 7 {
            Kind::LocalThreads
        } else {
            Kind::Local
        };
        let n = if rng.gen_bool(0.03) {
            rng.gen_range(20..41)
        } else {
            rng.gen_range(1..9)
        };
        case12(cx, rng, kind, n)
    });
    cx.cases("tcp", cx.amount(160, 2000), |cx, _, rng| {
        let n = rng.gen_range(1..8);
        let kind = Kind::tcp(rng, n, false);
        case12(cx, rng, kind, n)
    });
}

// ---------------------------------------------------------------------------------------------

/// A party's way through a case of C13: waits, barriers, collections.
#[derive(Clone, Hash)]
struct Course {
    n: usize,
    rounds: usize,
    /// [round][party]: what happens before the party enters.
    before: Vec<Vec<u32>>,
    /// [round][party]: messages sent under the collected identifier, and waits between them.
    copies: Vec<Vec<Vec<u32>>>,
    /// [round]: parties collecting.
    collectors: Vec<Vec<u16>>,
    ids: Vec<Vec<u8>>,
}

impl Course {
    fn gen(rng: &mut ChaCha12Rng, n: usize, rounds: usize) -> Course {
        Course {
            n,
            rounds,
            before: (0..rounds)
                .map(|_| (0..n).map(|_| wait(rng)).collect())
                .collect(),
            copies: (0..rounds)
                .map(|_| {
                    (0..n)
                        .map(|_| {
                            (0..if rng.gen_bool(0.6) {
                                1
                            } else {
                                rng.gen_range(1..5)
                            })
                                .map(|_| if n < 20 { wait(rng) } else { 0 })
                                .collect()
                        })
                        .collect()
                })
                .collect(),
            collectors: (0..rounds)
                .map(|_| {
                    if rng.gen() {
                        (0..n as u16).collect()
                    } else {
                        vec![rng.gen_range(0..n) as u16]
                    }
                })
                .collect(),
            ids: pick_ids(rng, 3 * rounds),
        }
    }
}

fn word(r: usize, p: usize, k: usize) -> Vec<u8> {
    // Lengths differ so that a mix-up cannot go unnoticed; the first copy may be empty.
    let mut v = format!("{} {} {}", r, p, k).into_bytes();
    v.resize(v.len() + (p * 7 + k * 3) % 40, b'.');
    if (r + p) % 5 == 4 && k == 0 {
        v.clear();
    }
    v
}

/// What one party does; `inside` counts parties that have entered each barrier.
async fn walk(
    c: Arc<Course>,
    p: usize,
    net: Network,
    inside: Arc<Vec<AtomicUsize>>,
    progress: Option<Progress>,
) -> R<()> {
    let tick = || {
        if let Some(p) = &progress {
            p.tick()
        }
    };
    for r in 0..c.rounds {
        let (sid, cid, oid) = (&c.ids[3 * r], &c.ids[3 * r + 1], &c.ids[3 * r + 2]);
        // Traffic under another identifier around everything.
        send(&net, oid, None, &word(r, p, 100));
        pause(c.before[r][p]).await;
        inside[r].fetch_add(1, SeqCst);
        sync(sid.clone(), &net, c.n).await;
        tick();
        let k = inside[r].load(SeqCst);
        ensure!(
            k == c.n,
            "party {} returns from barrier {} when only {} of {} parties have entered",
            p,
            r,
            k,
            c.n
        );
        // Collection, with the later copies on their way at the same time.
        let sender = {
            let (c, net, cid) = (c.clone(), net.clone(), cid.clone());
            tokio::spawn(async move {
                for (k, w) in c.copies[r][p].iter().enumerate() {
                    pause(*w).await;
                    for &q in &c.collectors[r] {
                        send(&net, &cid, Some(q), &word(r, p, k));
                    }
                }
            })
        };
        if c.collectors[r].contains(&(p as u16)) {
            let got = message_from_each_party(cid.clone(), &net, c.n).await;
            tick();
            ensure!(
                got.len() == c.n,
                "party {} collects {} payloads from {} parties",
                p,
                got.len(),
                c.n
            );
            for (s, d) in got.iter().enumerate() {
                ensure!(
                    *d == word(r, s, 0),
                    "party {} collects '{}' for party {}, whose first message was '{}'",
                    p,
                    String::from_utf8_lossy(d),
                    s,
                    String::from_utf8_lossy(&word(r, s, 0))
                );
            }
        }
        let _ = sender.await;
        let mut seen = vec![false; c.n];
        for _ in 0..c.n {
            let m = net.recv(oid.clone()).await;
            tick();
            let s = m.from as usize;
            ensure!(
                s < c.n && !seen[s] && m.data == word(r, s, 100),
                "party {} no longer gets the message of party {} under another identifier",
                p,
                s
            );
            seen[s] = true;
        }
    }
    Ok(())
}

fn counters(c: &Course) -> Arc<Vec<AtomicUsize>> {
    Arc::new((0..c.rounds).map(|_| AtomicUsize::new(0)).collect())
}

fn controlled(c: &Arc<Course>, opts: SimOpts) -> R {
    let inside = counters(c);
    let out = simulate(c.n, opts, |p, net| {
        let (c, inside) = (c.clone(), inside.clone());
        async move {
            // Delayed parties: entering depends on a message to oneself.
            let d = c.before[0][p as usize] % 4;
            for k in 0..d {
                send(&net, b"delay of a party", Some(p), &[k as u8]);
                net.recv(b"delay of a party".to_vec()).await;
            }
            walk(c, p as usize, net, inside, None).await
        }
    })?;
    for r in out.results {
        r?;
    }
    Ok(())
}

pub fn run13(cx: &mut Cx) {
    netlab::init_ports(cx);
    cx.rule = "barriers and collections with delayed parties and duplicates; every run counted, every delivery order of small runs".into();
    cx.cases("orders", cx.amount(8, 16), |cx, idx, rng| {
        // Bare barriers, every arrival order.
        let n = if idx / 4 % 2 == 0 { 2 } else { 3 };
        let max = if cx.thorough() { 400_000 } else { 6_000 };
        let delayed: Vec<bool> = (0..n).map(|_| n == 2 && rng.gen()).collect();
        let (runs, all) = all_orders(max, |opts| -> R {
            let inside = Arc::new(AtomicUsize::new(0));
            let out = simulate(n, opts, |p, net| {
                let inside = inside.clone();
                let late = delayed[p as usize];
                async move {
                    if late {
                        send(&net, b"d", Some(p), b"");
                        net.recv(b"d".to_vec()).await;
                    }
                    inside.fetch_add(1, SeqCst);
                    sync(b"s".to_vec(), &net, n).await;
                    inside.load(SeqCst)
                }
            })?;
            out.clean()?;
            for (p, &k) in out.results.iter().enumerate() {
                ensure!(
                    k == n,
                    "party {} returns from a barrier that {} of {} parties have entered",
                    p,
                    k,
                    n
                );
            }
            Ok(())
        })?;
        cx.evals_bulk((n, idx), runs);
        cx.count("delivery orders of a barrier", runs);
        cx.count("barriers with every delivery order tried", all as u64);
        cx.sample(
            "orders",
            2,
            || json!({"parties": n, "orders": runs, "all": all}),
        );
        Ok(())
    });
    cx.cases("controlled", cx.amount(16000, 160000), |cx, _, rng| {
        let n = rng.gen_range(1..9);
        let rounds = rng.gen_range(1..4);
        let c = Arc::new(Course::gen(rng, n, rounds));
        let opts = SimOpts::pick(rng, n);
        controlled(&c, opts).map_err(|e| format!("{} parties, {:?}: {}", n, opts.policy, e))?;
        cx.eval((hash_of(&*c), opts.policy), true);
        cx.count("rounds on the controlled network", rounds as u64);
        Ok(())
    });
    let real = |cx: &mut Cx, rng: &mut ChaCha12Rng, kind: Kind, n: usize, rounds: usize| -> R {
        let c = Arc::new(Course::gen(rng, n, rounds));
        netlab::run(&kind, |progress| {
            let (c, kind) = (c.clone(), kind.clone());
            async move {
                let nets = setup(&kind, n).await?;
                progress.tick();
                let inside = counters(&c);
                let hs: Vec<_> = nets
                    .iter()
                    .enumerate()
                    .map(|(p, (_, net))| {
                        tokio::spawn(walk(
                            c.clone(),
                            p,
                            net.clone(),
                            inside.clone(),
                            Some(progress.clone()),
                        ))
                    })
                    .collect();
                for h in hs {
                    h.await.map_err(|e| format!("a party panics: {}", e))??;
                }
                Ok(())
            }
        })
        .map_err(|e| format!("{} parties, {}: {}", n, kind.describe(), e))?;
        cx.eval((hash_of(&*c), kind.name()), true);
        cx.count(&format!("rounds, {}", kind.name()), rounds as u64);
        Ok(())
    };
    cx.cases("local", cx.amount(4000, 40000), |cx, idx, rng| {
        let kind = if idx / 4 % 4 == 3 {
            Kind::LocalThreads
        } else {
            Kind::Local
        };
        let n = rng.gen_range(1..10);
        real(cx, rng, kind, n, 3)
    });
    cx.cases("local many", cx.amount(8, 60), |cx, _, rng| {
        let n = rng.gen_range(200..301);
        real(cx, rng, Kind::Local, n, 1)
    });
    cx.cases("tcp", cx.amount(160, 2000), |cx, _, rng| {
        let n = rng.gen_range(1..8);
        let kind = Kind::tcp(rng, n, false);
        real(cx, rng, kind, n, 3)
    });
}
