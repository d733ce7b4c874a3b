//! Controlled network: every party runs on one single-threaded runtime with a paused clock; the
//! driver delivers one batch of messages at a time, chosen by a policy, whenever all parties are
//! idle. "Nothing left to deliver while a party is unfinished" is therefore an exact observation.

use crate::cx::{clear_panics, panics};
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use scalable_mpc::protocol::network::{Network, ReceivedMessage, Recipient, SendMessage};
use scalable_mpc::protocol::ProtocolID;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::future::Future;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};
use tokio::sync::oneshot;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Policy {
    Random,
    Fifo,
    Lifo,
    StarveParty(u16),
    StarveFrom(u16),
    StarveLink(u16, u16),
    SelfFirst,
    SelfLast,
    RoundRobin,
    HighFirst,
    /// Everything pending at once, in order of sending.
    Flush,
    /// Choices taken from SCRIPT.
    Script,
}

thread_local! {
    /// Choices to make, and the number of alternatives met at each delivery of the last run.
    pub static SCRIPT: std::cell::RefCell<(Vec<usize>, Vec<usize>)> = const { std::cell::RefCell::new((Vec::new(), Vec::new())) };
}

/// Runs `f` once for every delivery order (one message at a time, in order per link), at most
/// `max` times. Returns the number of orders tried and whether that were all.
pub fn all_orders<E>(
    max: u64,
    mut f: impl FnMut(SimOpts) -> Result<(), E>,
) -> Result<(u64, bool), E> {
    let mut script: Vec<usize> = Vec::new();
    let mut runs = 0;
    loop {
        SCRIPT.with(|s| *s.borrow_mut() = (script.clone(), Vec::new()));
        f(SimOpts::new(Policy::Script, 1, 0))?;
        runs += 1;
        let width = SCRIPT.with(|s| s.borrow().1.clone());
        script.resize(width.len(), 0);
        loop {
            match script.pop() {
                None => return Ok((runs, true)),
                Some(c) if c + 1 < width[script.len()] => {
                    script.push(c + 1);
                    break;
                }
                _ => {}
            }
        }
        if runs >= max {
            return Ok((runs, false));
        }
    }
}

impl Policy {
    pub fn pick<G: Rng>(rng: &mut G, n: usize) -> Policy {
        let p = rng.gen_range(0..n) as u16;
        let q = rng.gen_range(0..n) as u16;
        match rng.gen_range(0..11) {
            0 | 1 => Policy::Random,
            2 => Policy::Fifo,
            3 => Policy::Lifo,
            4 => Policy::StarveParty(p),
            5 => Policy::StarveFrom(p),
            6 => Policy::StarveLink(p, q),
            7 => Policy::SelfFirst,
            8 => Policy::SelfLast,
            9 => Policy::RoundRobin,
            _ => Policy::HighFirst,
        }
    }

    /// Lower class is delivered first, within the first nonempty class the tie rule applies.
    fn class(&self, from: u16, to: u16) -> u32 {
        match *self {
            Policy::StarveParty(p) => (from == p || to == p) as u32,
            Policy::StarveFrom(p) => (from == p) as u32,
            Policy::StarveLink(p, q) => (from == p && to == q) as u32,
            Policy::SelfFirst => (from != to) as u32,
            Policy::SelfLast => (from == to) as u32,
            Policy::HighFirst => u32::MAX - from as u32,
            _ => 0,
        }
    }
}

#[derive(Clone)]
pub struct Msg {
    pub from: u16,
    pub to: u16,
    pub id: ProtocolID,
    pub data: Arc<Vec<u8>>,
    /// Position in the global order of sends.
    pub seq: u64,
    /// Step of the driver at which it was sent / delivered.
    pub sent_step: u64,
    pub delivered_step: u64,
}

pub struct SimOut<T> {
    pub results: Vec<T>,
    /// All messages in order of sending.
    pub log: Vec<Msg>,
    pub undelivered: usize,
    pub unconsumed: Vec<(u16, ProtocolID, usize)>,
    pub waiting: Vec<(u16, ProtocolID)>,
    /// Two receives outstanding for one identifier at one party at the same time.
    pub double_recv: Vec<(u16, ProtocolID)>,
    pub finish_step: Vec<u64>,
    pub steps: u64,
}

impl<T> SimOut<T> {
    pub fn clean(&self) -> Result<(), String> {
        if self.undelivered != 0 {
            return Err(format!(
                "{} message(s) left undelivered after every party finished",
                self.undelivered
            ));
        }
        if let Some((p, id, k)) = self.unconsumed.first() {
            return Err(format!(
                "party {} finished but {} message(s) under id {:?} were never consumed",
                p, k, id
            ));
        }
        if let Some((p, id)) = self.waiting.first() {
            return Err(format!(
                "party {} finished but a receive under id {:?} is still posted",
                p, id
            ));
        }
        if let Some((p, id)) = self.double_recv.first() {
            return Err(format!(
                "party {} had two receives posted under the same id {:?}",
                p, id
            ));
        }
        Ok(())
    }
}

#[derive(Debug, Clone)]
pub enum SimFail {
    Deadlock(String),
    Panic(String),
    Livelock(String),
}

impl std::fmt::Display for SimFail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            SimFail::Deadlock(s) => write!(f, "no progress possible: {}", s),
            SimFail::Panic(s) => write!(f, "a party panicked: {}", s),
            SimFail::Livelock(s) => write!(f, "does not finish: {}", s),
        }
    }
}

impl From<SimFail> for String {
    fn from(v: SimFail) -> String {
        v.to_string()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct SimOpts {
    pub policy: Policy,
    pub batch: usize,
    pub seed: u64,
    pub max_msgs: u64,
}

impl SimOpts {
    pub fn new(policy: Policy, batch: usize, seed: u64) -> Self {
        Self {
            policy,
            batch,
            seed,
            max_msgs: 3_000_000,
        }
    }

    pub fn pick<G: Rng>(rng: &mut G, n: usize) -> Self {
        let policy = Policy::pick(rng, n);
        let batch = *[1usize, 1, 2, 7, 64].choose(rng).unwrap();
        Self::new(policy, batch, rng.gen())
    }
}

/// Links with undelivered messages that a policy ranks equally.
#[derive(Default)]
struct Links {
    /// Link -> indices into the log, in order of sending. Only non-empty links are kept.
    queues: BTreeMap<(u16, u16), VecDeque<usize>>,
    /// Oldest message of each link.
    heads: BTreeSet<(usize, (u16, u16))>,
    /// The links in any order, and where each is in it.
    list: Vec<(u16, u16)>,
    place: HashMap<(u16, u16), usize>,
}

impl Links {
    fn push(&mut self, link: (u16, u16), i: usize) {
        let q = self.queues.entry(link).or_default();
        q.push_back(i);
        if q.len() == 1 {
            self.heads.insert((i, link));
            self.place.insert(link, self.list.len());
            self.list.push(link);
        }
    }

    fn pop(&mut self, link: (u16, u16)) -> usize {
        let q = self.queues.get_mut(&link).unwrap();
        let i = q.pop_front().unwrap();
        self.heads.remove(&(i, link));
        if let Some(&j) = q.front() {
            self.heads.insert((j, link));
        } else {
            self.queues.remove(&link);
            let k = self.place.remove(&link).unwrap();
            self.list.swap_remove(k);
            if let Some(&moved) = self.list.get(k) {
                self.place.insert(moved, k);
            }
        }
        i
    }
}

struct Party {
    send_rx: UnboundedReceiver<SendMessage>,
    recv_rx: UnboundedReceiver<(ProtocolID, oneshot::Sender<ReceivedMessage>)>,
    pool: HashMap<ProtocolID, VecDeque<ReceivedMessage>>,
    waiting: HashMap<ProtocolID, VecDeque<oneshot::Sender<ReceivedMessage>>>,
}

pub fn simulate<T, F, Fut>(n: usize, opts: SimOpts, mut mk: F) -> Result<SimOut<T>, SimFail>
where
    T: Send + 'static,
    Fut: Future<Output = T> + Send + 'static,
    F: FnMut(u16, Network) -> Fut,
{
    clear_panics();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    let res = rt.block_on(async move {
        let mut parties = Vec::with_capacity(n);
        let mut handles = Vec::with_capacity(n);
        for p in 0..n {
            let (stx, srx) = unbounded_channel();
            let (rtx, rrx) = unbounded_channel();
            parties.push(Party {
                send_rx: srx,
                recv_rx: rrx,
                pool: HashMap::new(),
                waiting: HashMap::new(),
            });
            handles.push(tokio::spawn(mk(p as u16, Network::new(stx, rtx))));
        }
        drive(n, opts, parties, handles).await
    });
    rt.shutdown_background();
    res
}

async fn drive<T: Send + 'static>(
    n: usize,
    opts: SimOpts,
    mut parties: Vec<Party>,
    handles: Vec<tokio::task::JoinHandle<T>>,
) -> Result<SimOut<T>, SimFail> {
    let mut rng = ChaCha12Rng::seed_from_u64(opts.seed);
    let mut log: Vec<Msg> = Vec::new();
    // By class; no entry is empty.
    let mut links: BTreeMap<u32, Links> = BTreeMap::new();
    let mut pending = 0usize;
    let mut steps = 0u64;
    let mut double_recv = Vec::new();
    let mut finish_step = vec![u64::MAX; n];
    let mut rr: (u16, u16) = (0, 0);
    let mut grace = false;

    loop {
        // Completes only once every other task is idle.
        tokio::time::sleep(Duration::from_millis(1)).await;
        steps += 1;
        let mut activity = false;

        for p in 0..n {
            while let Ok(m) = parties[p].send_rx.try_recv() {
                activity = true;
                let data = Arc::new(m.data);
                let dests: Vec<u16> = match m.to {
                    Recipient::One(q) => vec![q],
                    Recipient::All => (0..n as u16).collect(),
                };
                for to in dests {
                    if to as usize >= n {
                        return Err(SimFail::Panic(format!(
                            "party {} sent to non-existent party {}",
                            p, to
                        )));
                    }
                    let seq = log.len();
                    log.push(Msg {
                        from: p as u16,
                        to,
                        id: m.proto_id.clone(),
                        data: data.clone(),
                        seq: seq as u64,
                        sent_step: steps,
                        delivered_step: u64::MAX,
                    });
                    links
                        .entry(opts.policy.class(p as u16, to))
                        .or_default()
                        .push((p as u16, to), seq);
                    pending += 1;
                }
            }
            while let Ok((id, h)) = parties[p].recv_rx.try_recv() {
                activity = true;
                let party = &mut parties[p];
                if let Some(q) = party.pool.get_mut(&id) {
                    let m = q.pop_front().unwrap();
                    if q.is_empty() {
                        party.pool.remove(&id);
                    }
                    let _ = h.send(m);
                } else {
                    let q = party.waiting.entry(id.clone()).or_default();
                    q.retain(|h| !h.is_closed());
                    q.push_back(h);
                    if q.len() > 1 {
                        double_recv.push((p as u16, id));
                    }
                }
            }
            if finish_step[p] == u64::MAX && handles[p].is_finished() {
                finish_step[p] = steps;
            }
        }

        if log.len() as u64 > opts.max_msgs {
            return Err(SimFail::Livelock(format!("{} messages sent", log.len())));
        }
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        if activity {
            grace = false;
        }

        if pending == 0 {
            if activity {
                continue;
            }
            if !grace {
                // Lets any timer the protocol might use expire (virtual time) before judging.
                grace = true;
                tokio::time::sleep(Duration::from_secs(24 * 3600)).await;
                continue;
            }
            // Nobody can ever make progress again.
            let mut crashed = String::new();
            let mut stuck = Vec::new();
            for (p, h) in handles.into_iter().enumerate() {
                if h.is_finished() {
                    if let Err(e) = h.await {
                        crashed = format!("party {}: {} ({})", p, e, panics());
                    }
                } else {
                    let ids: Vec<_> = parties[p].waiting.keys().take(3).cloned().collect();
                    stuck.push(format!("party {} waits for {:?}", p, ids));
                }
            }
            if !crashed.is_empty() {
                return Err(SimFail::Panic(crashed));
            }
            let p = panics();
            if p != "no panic recorded" {
                return Err(SimFail::Panic(p));
            }
            stuck.truncate(4);
            return Err(SimFail::Deadlock(format!(
                "all sent messages delivered, but {}",
                stuck.join("; ")
            )));
        }

        let batch = if opts.policy == Policy::Flush {
            pending
        } else {
            opts.batch.min(pending)
        };
        for _ in 0..batch {
            let mut entry = links.first_entry().unwrap();
            let cand = entry.get_mut();
            let link = match opts.policy {
                Policy::Fifo | Policy::Flush => cand.heads.first().unwrap().1,
                Policy::Lifo => cand.heads.last().unwrap().1,
                Policy::RoundRobin => {
                    let next = cand.queues.range((rr.0, rr.1)..).find(|x| *x.0 != rr);
                    *next.or(cand.queues.iter().next()).unwrap().0
                }
                Policy::Script => SCRIPT.with(|s| {
                    let (want, width) = &mut *s.borrow_mut();
                    let c = want.get(width.len()).cloned().unwrap_or(0);
                    let len = cand.queues.len();
                    width.push(len);
                    *cand.queues.keys().nth(c.min(len - 1)).unwrap()
                }),
                _ => *cand.list.choose(&mut rng).unwrap(),
            };
            rr = link;
            let i = cand.pop(link);
            if cand.list.is_empty() {
                entry.remove();
            }
            pending -= 1;
            log[i].delivered_step = steps;
            let m = ReceivedMessage {
                proto_id: log[i].id.clone(),
                from: log[i].from,
                data: log[i].data.to_vec(),
            };
            let party = &mut parties[link.1 as usize];
            let mut m = Some(m);
            if let Some(q) = party.waiting.get_mut(&log[i].id) {
                while let Some(h) = q.pop_front() {
                    match h.send(m.take().unwrap()) {
                        Ok(()) => break,
                        Err(back) => m = Some(back),
                    }
                }
                if q.is_empty() {
                    party.waiting.remove(&log[i].id);
                }
            }
            if let Some(m) = m {
                party
                    .pool
                    .entry(log[i].id.clone())
                    .or_default()
                    .push_back(m);
            }
        }
    }

    let mut results = Vec::with_capacity(n);
    for (p, h) in handles.into_iter().enumerate() {
        match h.await {
            Ok(v) => results.push(v),
            Err(e) => {
                return Err(SimFail::Panic(format!("party {}: {} ({})", p, e, panics())));
            }
        }
    }
    let mut unconsumed = Vec::new();
    let mut waiting = Vec::new();
    for (p, party) in parties.iter_mut().enumerate() {
        for (id, q) in &party.pool {
            unconsumed.push((p as u16, id.clone(), q.len()));
        }
        for (id, q) in party.waiting.iter_mut() {
            q.retain(|h| !h.is_closed());
            if !q.is_empty() {
                waiting.push((p as u16, id.clone()));
            }
        }
    }
    Ok(SimOut {
        results,
        log,
        undelivered: pending,
        unconsumed,
        waiting,
        double_recv,
        finish_step,
        steps,
    })
}
