//! The repository's own networks under test: in-process and TCP, the latter through relays that
//! fragment, merge and delay the byte streams.

use crate::cx::{clear_panics, panics, Cx, HARNESS, R};
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use scalable_mpc::protocol::network::{setup_local_network, setup_tcp_network, Network, Stats};
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::{TcpListener, TcpStream};

pub type Nets = Vec<(Stats, Network)>;

static PORT_BASE: AtomicU32 = AtomicU32::new(0);
static PORT_NEXT: AtomicU32 = AtomicU32::new(0);
const PORT_RANGE: u32 = 2400;
/// Bytes moved by relays: a link that still moves bytes is not stalled.
static RELAYED: AtomicU64 = AtomicU64::new(0);

/// Every shard has ports of its own, below the range the kernel hands out.
pub fn init_ports(cx: &Cx) {
    let slot = cx.shard as u32 % 4 + if cx.profile == "release" { 0 } else { 4 };
    PORT_BASE.store(10000 + slot * PORT_RANGE, SeqCst);
}

pub fn port() -> R<u16> {
    for _ in 0..PORT_RANGE {
        let k = PORT_NEXT.fetch_add(1, SeqCst) % PORT_RANGE;
        let p = (PORT_BASE.load(SeqCst) + k) as u16;
        if std::net::TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return Ok(p);
        }
    }
    Err(format!("{}no free port", HARNESS))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    Straight,
    /// Pieces of at most so many bytes, each its own segment.
    Pieces(usize),
    /// Pieces with a pause (microseconds) in between.
    Slow(usize, u64),
    /// Collects what arrives during so many milliseconds and sends it at once.
    Merge(u64),
    /// Nothing at all for the first milliseconds.
    Late(u64),
}

impl Style {
    fn pick<G: Rng>(rng: &mut G, large: bool) -> Style {
        match rng.gen_range(0..6) {
            0 => Style::Straight,
            1 if !large => Style::Pieces(1),
            1 | 2 => Style::Pieces(
                *[2, 3, 7, 100, 1000].choose(rng).unwrap() * if large { 100 } else { 1 },
            ),
            3 if large => Style::Slow(rng.gen_range(20_000..100_000), rng.gen_range(10..1000)),
            3 => Style::Slow(rng.gen_range(1..300), rng.gen_range(10..500)),
            4 => Style::Merge(rng.gen_range(1..40)),
            _ => Style::Late(rng.gen_range(1..250)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// In-process network, one thread, virtual time.
    Local,
    /// In-process network, several threads.
    LocalThreads,
    Tcp {
        /// Start-up delay of each party in milliseconds.
        delays: Vec<u64>,
        /// Relays: (connecting party, accepting party, there, back).
        relays: Vec<(usize, usize, Style, Style)>,
        seed: u64,
    },
}

impl Kind {
    pub fn tcp<G: Rng>(rng: &mut G, n: usize, large: bool) -> Kind {
        let calm = rng.gen_bool(0.25);
        let delays = (0..n)
            .map(|_| match rng.gen_range(0..12) {
                _ if calm => 0,
                0 => rng.gen_range(200..700),
                1..=4 => rng.gen_range(1..60),
                _ => 0,
            })
            .collect();
        let density = *[0.0, 0.3, 1.0].choose(rng).unwrap();
        let mut relays = Vec::new();
        for i in 0..n {
            for j in 0..i {
                if n <= 12 && rng.gen_bool(density) {
                    relays.push((i, j, Style::pick(rng, large), Style::pick(rng, large)));
                }
            }
        }
        Kind::Tcp {
            delays,
            relays,
            seed: rng.gen(),
        }
    }

    pub fn name(&self) -> &'static str {
        match self {
            Kind::Local => "in-process",
            Kind::LocalThreads => "in-process, threads",
            Kind::Tcp { relays, .. } if relays.is_empty() => "TCP",
            Kind::Tcp { .. } => "TCP through relays",
        }
    }

    pub fn describe(&self) -> String {
        match self {
            Kind::Tcp { delays, relays, .. } => format!(
                "TCP with start-up delays {:?} ms and relays {:?}",
                &delays[..delays.len().min(12)],
                relays.iter().take(6).collect::<Vec<_>>()
            ),
            k => k.name().into(),
        }
    }
}

async fn relay(mut r: OwnedReadHalf, mut w: OwnedWriteHalf, style: Style, seed: u64) {
    let mut rng = ChaCha12Rng::seed_from_u64(seed);
    let mut buf = vec![0u8; 65536];
    if let Style::Late(ms) = style {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
    let mut pauses = 0;
    loop {
        let k = match r.read(&mut buf).await {
            Ok(0) | Err(_) => break,
            Ok(k) => k,
        };
        let mut data = buf[..k].to_vec();
        if let Style::Merge(ms) = style {
            let end = tokio::time::Instant::now() + Duration::from_millis(ms);
            while let Ok(Ok(k)) = tokio::time::timeout_at(end, r.read(&mut buf)).await {
                if k == 0 {
                    break;
                }
                data.extend_from_slice(&buf[..k]);
            }
        }
        let mut at = 0;
        while at < data.len() {
            let (max, us) = match style {
                Style::Pieces(m) => (m, 0),
                Style::Slow(m, us) if pauses < 300 => (m, us),
                _ => (data.len(), 0),
            };
            let len = rng.gen_range(1..=max).min(data.len() - at);
            if w.write_all(&data[at..at + len]).await.is_err() {
                return;
            }
            at += len;
            RELAYED.fetch_add(1, SeqCst);
            if us > 0 && pauses < 300 {
                pauses += 1;
                tokio::time::sleep(Duration::from_micros(rng.gen_range(0..=us))).await;
            } else {
                tokio::task::yield_now().await;
            }
        }
    }
    let _ = w.shutdown().await;
}

async fn start_relay(target: u16, there: Style, back: Style, seed: u64) -> R<u16> {
    let mut tries = 0;
    let (listener, p) = loop {
        let p = port()?;
        match TcpListener::bind(("127.0.0.1", p)).await {
            Ok(l) => break (l, p),
            Err(e) => {
                tries += 1;
                if tries > 20 {
                    return Err(format!("{}relay: {}", HARNESS, e));
                }
            }
        }
    };
    tokio::spawn(async move {
        let Ok((a, _)) = listener.accept().await else {
            return;
        };
        let b = loop {
            match TcpStream::connect(("127.0.0.1", target)).await {
                Ok(s) => break s,
                Err(_) => tokio::time::sleep(Duration::from_millis(10)).await,
            }
        };
        let _ = a.set_nodelay(true);
        let _ = b.set_nodelay(true);
        let (ar, aw) = a.into_split();
        let (br, bw) = b.into_split();
        tokio::spawn(relay(ar, bw, there, seed));
        tokio::spawn(relay(br, aw, back, seed ^ 1));
    });
    Ok(p)
}

/// Sets up the networks of all parties.
pub async fn setup(kind: &Kind, n: usize) -> R<Nets> {
    let (delays, relays, seed) = match kind {
        Kind::Local | Kind::LocalThreads => return Ok(setup_local_network(n as u16).await),
        Kind::Tcp {
            delays,
            relays,
            seed,
        } => (delays, relays, *seed),
    };
    let mut ports = Vec::new();
    for _ in 0..n {
        ports.push(port()?);
    }
    let mut addr: Vec<Vec<String>> =
        vec![ports.iter().map(|p| format!("127.0.0.1:{}", p)).collect(); n];
    for (k, &(i, j, there, back)) in relays.iter().enumerate() {
        let p = start_relay(ports[j], there, back, seed.wrapping_add(2 * k as u64)).await?;
        addr[i][j] = format!("127.0.0.1:{}", p);
    }
    let handles: Vec<_> = addr
        .into_iter()
        .enumerate()
        .map(|(i, a)| {
            let ms = delays[i];
            tokio::spawn(async move {
                if ms > 0 {
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                }
                setup_tcp_network(i as u16, &a).await
            })
        })
        .collect();
    let mut nets = Vec::new();
    for (i, h) in handles.into_iter().enumerate() {
        match h.await {
            Ok(x) => nets.push(x),
            Err(_) => {
                let p = panics();
                if p.contains("AddrInUse") || p.contains("Too many open files") {
                    return Err(format!("{}{}", HARNESS, p));
                }
                return Err(format!("setting up party {} fails: {}", i, p));
            }
        }
    }
    Ok(nets)
}

/// Counts observable progress of a case.
#[derive(Clone, Default)]
pub struct Progress(Arc<AtomicU64>);

impl Progress {
    pub fn tick(&self) {
        self.0.fetch_add(1, SeqCst);
    }
}

/// Round trips of a connection of the harness's own: tells a stalled network from a busy machine.
struct Canary {
    trips: Arc<AtomicU64>,
    stop: Arc<AtomicBool>,
}

impl Canary {
    fn start() -> R<Canary> {
        use std::io::{Read, Write};
        let err = |e: std::io::Error| format!("{}canary: {}", HARNESS, e);
        let l = std::net::TcpListener::bind(("127.0.0.1", 0)).map_err(err)?;
        let mut a = std::net::TcpStream::connect(l.local_addr().map_err(err)?).map_err(err)?;
        let (mut b, _) = l.accept().map_err(err)?;
        let _ = a.set_nodelay(true);
        let _ = b.set_nodelay(true);
        let c = Canary {
            trips: Arc::default(),
            stop: Arc::default(),
        };
        let (trips, stop) = (c.trips.clone(), c.stop.clone());
        std::thread::spawn(move || {
            let mut x = [0u8; 1];
            while !stop.load(SeqCst) {
                if a.write_all(&[1]).is_err() || b.read_exact(&mut x).is_err() {
                    return;
                }
                trips.fetch_add(1, SeqCst);
                std::thread::sleep(Duration::from_millis(20));
            }
        });
        Ok(c)
    }
}

impl Drop for Canary {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
    }
}

enum Seen<T> {
    Done(T),
    Stalled(String),
}

const QUIET_S: u64 = 12;

fn attempt<T, F, Fut>(kind: &Kind, f: &mut F) -> R<Seen<T>>
where
    F: FnMut(Progress) -> Fut,
    Fut: Future<Output = R<T>>,
{
    clear_panics();
    let progress = Progress::default();
    let fut = f(progress.clone());
    if let Kind::Local = kind {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .unwrap();
        // Virtual time only advances when every task is idle, so this never fires early.
        let res = rt.block_on(async {
            tokio::time::timeout(Duration::from_secs(30 * 24 * 3600), fut).await
        });
        let text = panics();
        rt.shutdown_background();
        return match res {
            Ok(r) => r.map(Seen::Done),
            Err(_) => Ok(Seen::Stalled(text)),
        };
    }
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .enable_all()
        .build()
        .map_err(|e| format!("{}{}", HARNESS, e))?;
    let canary = Canary::start()?;
    let start = Instant::now();
    let res = rt.block_on(async {
        tokio::pin!(fut);
        let mut last = (u64::MAX, Instant::now(), 0);
        loop {
            tokio::select! {
                r = &mut fut => return r.map(Seen::Done),
                _ = tokio::time::sleep(Duration::from_millis(250)) => {}
            }
            let now = progress.0.load(SeqCst) + RELAYED.load(SeqCst);
            if now != last.0 {
                last = (now, Instant::now(), canary.trips.load(SeqCst));
            } else if last.1.elapsed() > Duration::from_secs(QUIET_S)
                && canary.trips.load(SeqCst) - last.2 > QUIET_S * 20
            {
                return Ok(Seen::Stalled(panics()));
            }
            if start.elapsed() > Duration::from_secs(240) {
                return Err(format!("{}a case takes more than 240 s", HARNESS));
            }
        }
    });
    rt.shutdown_background();
    res
}

/// Runs a case. On real time, a stall counts only if it happens three times in a row.
pub fn run<T, F, Fut>(kind: &Kind, mut f: F) -> R<T>
where
    F: FnMut(Progress) -> Fut,
    Fut: Future<Output = R<T>>,
{
    let tries = if let Kind::Local = kind { 1 } else { 3 };
    let mut text = String::new();
    let mut stalls = 0;
    for k in 0..tries + 2 {
        match attempt(kind, &mut f) {
            Ok(Seen::Done(t)) if stalls == 0 => return Ok(t),
            Ok(Seen::Done(_)) => {
                return Err(format!(
                    "{}no progress for {} s in {} of {} attempts ({})",
                    HARNESS,
                    QUIET_S,
                    stalls,
                    k + 1,
                    text
                ))
            }
            Ok(Seen::Stalled(p)) => {
                stalls += 1;
                text = p;
                if stalls >= tries {
                    break;
                }
            }
            // Environment trouble (ports) is retried.
            Err(e) if e.contains(HARNESS) && k < tries + 1 => text = e,
            Err(e) => return Err(e),
        }
    }
    if stalls >= tries {
        Err(format!(
            "nothing is received any more although everything was sent ({})",
            text
        ))
    } else {
        Err(format!("{}{}", HARNESS, text))
    }
}

/// Waits as long as wanted by a plan; on the in-process network with virtual time this is free.
pub async fn pause(k: u32) {
    match k {
        0 => {}
        1..=9 => {
            for _ in 0..k {
                tokio::task::yield_now().await;
            }
        }
        k => tokio::time::sleep(Duration::from_micros((k as u64 - 9) * 100)).await,
    }
}
