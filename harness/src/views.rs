//! What the parties saw: messages of a run grouped by identifier and decoded.

use crate::mpc::*;
use crate::simnet::Msg;
use std::collections::BTreeMap;

pub fn by_id(log: &[Msg]) -> BTreeMap<Vec<u8>, Vec<&Msg>> {
    let mut m: BTreeMap<Vec<u8>, Vec<&Msg>> = BTreeMap::new();
    for x in log {
        m.entry(x.id.clone()).or_default().push(x);
    }
    m
}

/// Everybody sends to everybody once: `[sender][item]` is the vector over receivers.
pub type AllToAll = Vec<Vec<Vec<u32>>>;

pub fn all_to_all(msgs: &[&Msg], n: usize) -> Result<Option<AllToAll>, String> {
    if msgs.len() != n * n {
        return Ok(None);
    }
    let mut got: Vec<Vec<Option<Vec<u32>>>> = vec![vec![None; n]; n];
    for m in msgs {
        let slot = &mut got[m.from as usize][m.to as usize];
        if slot.is_some() {
            return Ok(None);
        }
        *slot = Some(decode(&m.data)?);
    }
    let mut out = Vec::with_capacity(n);
    for row in got {
        let row: Vec<Vec<u32>> = row.into_iter().map(|x| x.unwrap()).collect();
        if row.iter().any(|r| r.len() != row[0].len()) {
            return Err("a party sends vectors of different lengths".into());
        }
        out.push(per_item(&row)?);
    }
    Ok(Some(out))
}

/// Everybody sends to one party, which answers everybody.
pub struct Opening {
    pub leader: u16,
    /// Share vectors the leader received, per item.
    pub seen: Vec<Vec<u32>>,
    /// Share vectors it sent back, per item.
    pub back: Vec<Vec<u32>>,
}

pub fn opening(msgs: &[&Msg], n: usize) -> Result<Option<Opening>, String> {
    if msgs.len() != 2 * n {
        return Ok(None);
    }
    // The leader is the party with a message to itself (two: its own share and its own answer).
    let own: Vec<&&Msg> = msgs.iter().filter(|m| m.from == m.to).collect();
    if own.len() != 2 || own[0].from != own[1].from {
        return Ok(None);
    }
    let leader = own[0].from;
    let mut seen: Vec<Option<Vec<u32>>> = vec![None; n];
    let mut back: Vec<Option<Vec<u32>>> = vec![None; n];
    for m in msgs {
        if m.from == m.to {
            // In order of sending.
            let d = Some(decode(&m.data)?);
            if seen[leader as usize].is_none() {
                seen[leader as usize] = d;
            } else {
                back[leader as usize] = d;
            }
        } else if m.to == leader {
            seen[m.from as usize] = Some(decode(&m.data)?);
        } else if m.from == leader {
            back[m.to as usize] = Some(decode(&m.data)?);
        } else {
            return Ok(None);
        }
    }
    if seen.iter().chain(&back).any(|x| x.is_none()) {
        return Ok(None);
    }
    let seen: Vec<Vec<u32>> = seen.into_iter().map(|x| x.unwrap()).collect();
    let back: Vec<Vec<u32>> = back.into_iter().map(|x| x.unwrap()).collect();
    Ok(Some(Opening {
        leader,
        seen: per_item(&seen)?,
        back: per_item(&back)?,
    }))
}
