//! C10 (builder part): identifiers handed out by the builder.

use crate::cx::{Cx, R};
use crate::ensure;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use scalable_mpc::protocol::ProtocolIDBuilder;
use serde_json::json;
use std::collections::HashSet;

fn flat(cx: &mut Cx, rng: &mut ChaCha12Rng, num: u64, parent: Vec<u8>) -> R {
    let mut b = ProtocolIDBuilder::new(&parent, num);
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let over = rng.gen_range(0..600);
    let mut refused = false;
    for i in 0..num + over {
        match b.next() {
            Some(id) => {
                ensure!(
                    !refused || i >= num,
                    "identifier {} of {} announced is handed out after a refusal",
                    i,
                    num
                );
                ensure!(
                    id.len() > parent.len() && id[..parent.len()] == parent[..],
                    "identifier {:?} ({} announced) does not extend its parent {:?}",
                    id,
                    num,
                    parent
                );
                ensure!(
                    seen.insert(id.clone()),
                    "identifier {:?} is handed out twice (request {} of {} announced)",
                    id,
                    i,
                    num
                );
            }
            None => {
                ensure!(
                    i >= num,
                    "no identifier for request {} although {} were announced",
                    i,
                    num
                );
                refused = true;
            }
        }
    }
    cx.eval((num, &parent), num > 1);
    cx.count("identifiers", seen.len() as u64);
    cx.sample(
        "flat",
        3,
        || json!({"announced": num, "over": over, "parent": parent, "handed_out": seen.len()}),
    );
    Ok(())
}

/// A tree of sub-protocols; every identifier in it (inner ones too) is used for traffic.
fn tree(cx: &mut Cx, rng: &mut ChaCha12Rng) -> R {
    let mut all: HashSet<Vec<u8>> = HashSet::new();
    let root: Vec<u8> = (0..rng.gen_range(0..6)).map(|_| rng.gen()).collect();
    let mut level = vec![root.clone()];
    all.insert(root.clone());
    let mut shape = Vec::new();
    for _ in 0..rng.gen_range(1..=4) {
        let mut next = Vec::new();
        for id in level.iter().take(12) {
            // Siblings may have different numbers of children, hence different suffix lengths.
            let ar = *[0u64, 1, 2, 3, 5, 255, 256, 257, 300, 600]
                .choose(rng)
                .unwrap();
            let ar = if all.len() > 4000 { ar.min(3) } else { ar };
            shape.push(ar);
            let mut b = ProtocolIDBuilder::new(id, ar);
            for i in 0..ar {
                let Some(c) = b.next() else {
                    return Err(format!("no identifier for child {} of {} announced", i, ar));
                };
                ensure!(
                    all.insert(c.clone()),
                    "identifier {:?} occurs twice in one tree of sub-protocols rooted at {:?} (arities {:?})",
                    c,
                    root,
                    shape
                );
                next.push(c);
            }
        }
        next.shuffle(rng);
        level = next;
        if level.is_empty() {
            break;
        }
    }
    cx.eval((&root, &shape), all.len() > 2);
    cx.count("identifiers in trees", all.len() as u64);
    cx.sample(
        "tree",
        2,
        || json!({"root": root, "arities": shape, "identifiers": all.len()}),
    );
    Ok(())
}

pub fn run(cx: &mut Cx) {
    cx.rule = "announced numbers around powers of two and random trees; non-trivial: more than one identifier".into();
    let mut nums: Vec<u64> = (0..=40).collect();
    for e in [7u32, 8, 9, 15, 16, 17] {
        for d in -2i64..=2 {
            nums.push(((1i64 << e) + d) as u64);
        }
    }
    nums.extend([100, 1000, 10_000, 70_000, 511, 513, 768, 1 << 12, 3 << 14]);
    let extra = cx.amount(400, 4000);
    let total = nums.len() as u64 + extra;
    cx.cases("flat", total, |cx, idx, rng| {
        let num = match nums.get(idx as usize) {
            Some(&v) => v,
            None => rng.gen_range(0..3000),
        };
        let parent: Vec<u8> = (0..rng.gen_range(0..8)).map(|_| rng.gen()).collect();
        flat(cx, rng, num, parent)
    });
    cx.cases("tree", cx.amount(8000, 80000), |cx, _, rng| tree(cx, rng));
}
