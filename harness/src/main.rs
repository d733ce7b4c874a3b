mod checks;
mod circ;
mod cx;
mod lab;
mod mpc;
mod netlab;
mod refgf;
mod simnet;
mod views;

use cx::{Args, Cx, Tier};
use std::path::PathBuf;

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let get = |name: &str| -> Option<String> {
        argv.iter()
            .position(|a| a == name)
            .and_then(|i| argv.get(i + 1).cloned())
    };
    if argv.get(1).map(|s| s == "child").unwrap_or(false) {
        cx::install_panic_hook();
        std::process::exit(checks::child(&argv[2..]));
    }
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(0);
    let out = PathBuf::from(get("--out").expect("--out"));
    let args = Args {
        prop: get("--prop").expect("--prop"),
        seed,
        tier: if get("--tier").as_deref() == Some("thorough") {
            Tier::Thorough
        } else {
            Tier::Quick
        },
        shard: get("--shard").map(|s| s.parse().unwrap()).unwrap_or(0),
        nshards: get("--nshards").map(|s| s.parse().unwrap()).unwrap_or(1),
        profile: get("--profile").unwrap_or_else(|| "release".into()),
        only: get("--group").map(|g| (g, get("--idx").unwrap().parse().unwrap())),
        scratch: PathBuf::from(get("--scratch").expect("--scratch")),
        budget_s: get("--budget").map(|s| s.parse().unwrap()).unwrap_or(1e9),
        out,
    };
    cx::install_panic_hook();
    let threads: usize = std::env::var("HARNESS_RAYON")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut cx = Cx::new(args);
    // Running inside the pool keeps the implementation's parallel loops on this thread unless
    // more than one worker was asked for.
    rayon::ThreadPoolBuilder::new()
        .num_threads(threads)
        .stack_size(16 << 20)
        .build_global()
        .unwrap();
    let cx_ref = &mut cx;
    let mut holder = SendPtr(cx_ref as *mut Cx);
    rayon::scope(|_| {
        let h = &mut holder;
        let cx = unsafe { &mut *h.0 };
        checks::run(cx);
    });
    cx.finish();
}

struct SendPtr(*mut Cx);
unsafe impl Send for SendPtr {}
