//! Runs one harness natively: `replay NAME values FILE` feeds it the values of a counterexample,
//! `replay NAME seed N` random values.  Exit 101: an assertion fails.  0: the end is reached.
//! 3: an assumption does not hold for these values.  4: the values do not fit.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[2] == "explore" || a[2] == "schedule" {
        return explore(&a);
    }
    if a[2] == "histories" {
        return histories(&a);
    }
    if a[2] == "seed" {
        let mut n: u64 = a[3].parse().unwrap();
        n = n.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
        ghost::nd::seed(n);
    } else {
        let s = std::fs::read_to_string(&a[3]).unwrap();
        let i = s.find("\"values\":").expect("no values in the file");
        let mut vals = Vec::new();
        let mut depth = 0;
        let mut num = String::new();
        let mut cur: Vec<u8> = Vec::new();
        for c in s[i + 9..].chars() {
            match c {
                '[' => {
                    depth += 1;
                    cur = Vec::new();
                }
                '0'..='9' => num.push(c),
                _ => {
                    if !num.is_empty() {
                        cur.push(num.parse().unwrap());
                        num.clear();
                    }
                    if c == ']' {
                        if depth == 2 {
                            vals.push(std::mem::take(&mut cur));
                        }
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                }
            }
        }
        ghost::nd::load(vals);
    }
    if !polling::verif_harness::run(&a[1]) {
        println!("no harness {}", a[1]);
        std::process::exit(2);
    }
    println!("the harness ends without a failure");
}

/// `replay PROPERTY histories SECONDS SEED`: random histories; `replay PROPERTY histories 0 SEED`: one.
fn histories(a: &[String]) {
    use polling::verif_harness::hist::{Hist, Stop, TRACE};
    let secs: f64 = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    ghost::nd::in_history(true);
    std::panic::set_hook(Box::new(|_| ()));
    let t0 = std::time::Instant::now();
    let (mut runs, mut ops, mut cut, mut stopped) = (0u64, 0u64, 0u64, 0u64);
    loop {
        let s = if secs == 0.0 { seed } else { seed * 1_000_000_007 + runs };
        let mut h = Hist::new(&a[1], s);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.run()));
        runs += 1;
        ops += h.ops;
        if let Err(e) = r {
            if e.is::<ghost::nd::Prune>() {
                cut += 1;
            } else if e.is::<Stop>() {
                stopped += 1;
            } else {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                println!("FAILED: {}", m.unwrap_or_default());
                println!("HISTORY: {}", s);
                for l in unsafe { (&*(&raw const TRACE)).iter() } {
                    println!("  {}", l);
                }
                std::process::exit(101);
            }
        }
        if t0.elapsed().as_secs_f64() >= secs {
            break;
        }
    }
    println!("HISTORIES runs={} operations={} cut={} other={}", runs, ops, cut, stopped);
}

/// `replay NAME explore BOUND SECONDS SEED`: enumerates schedules with 0, 1, .. BOUND preemptions,
/// then random ones for the rest of the time.  `replay NAME schedule "BOUND;C,C,.."` repeats one.
fn explore(a: &[String]) {
    let f = match polling::verif_harness::x::LIST.iter().find(|x| x.0 == a[1]) {
        Some(x) => x.1,
        None => {
            println!("no scenario {}", a[1]);
            std::process::exit(2)
        }
    };
    if a[2] == "schedule" {
        let (b, t) = a[3].split_once(';').unwrap();
        let t = t.split(',').filter(|c| !c.is_empty()).map(|c| c.parse().unwrap()).collect();
        ghost::sched::replay(&a[1], f, b.parse().unwrap(), t);
        println!("the scenario ends without a failure");
        return;
    }
    let bound: u32 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let seed: u64 = a[5].parse().unwrap();
    let t0 = std::time::Instant::now();
    let (mut runs, mut steps) = (0, 0);
    let mut done = -1i64;
    for b in 0..=bound {
        let left = secs * 0.8 - t0.elapsed().as_secs_f64();
        if left <= 0.0 {
            break;
        }
        let (r, all, st) = ghost::sched::explore(&a[1], f, b, left, 0);
        runs += r;
        steps += st;
        if !all {
            break;
        }
        done = b as i64;
    }
    let mut random = 0;
    if done < bound as i64 {
        let left = (secs - t0.elapsed().as_secs_f64()).max(0.1);
        random = ghost::sched::explore(&a[1], f, 6, left, seed.wrapping_mul(0x9E3779B97F4A7C15) | 1).0;
    }
    println!("EXPLORED runs={} steps={} complete_bound={} random={}", runs, steps, done, random);
}
