//! Replay a counterexample on the real code: `replay <harness> <values file>`.
//!
//! Exit 101: the violation shows. 77: the run left the path of the counterexample. 0: it does not show.
#[global_allocator]
static GHOST: dv::ghost::Ghost = dv::ghost::Ghost;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = a[1].as_str();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    // One value per line, bytes in decimal.
    let vals: Vec<Vec<u8>> = text.lines()
        .map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect())
        .collect();
    let f = match dv::tables().into_iter().find(|(n, _)| n.strip_prefix("dv::").unwrap_or(n).replace("::more_::", "::") == name.replace("::more_::", "::")) {
        Some((_, f)) => f,
        None => { eprintln!("no such contract: {}", name); std::process::exit(78) }
    };
    dv::sym::load(vals);
    dv::ghost::start();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    dv::ghost::stop();
    match r {
        Ok(()) => println!("NOT-REPRODUCED"),
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
            if m.contains("GHOST") { println!("REPLAY-DIVERGED: {}", m); std::process::exit(77) }
            println!("REPRODUCED {}", m);
            std::process::exit(101)
        }
    }
}
