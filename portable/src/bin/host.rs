//! `sv-portable SEED FROM TO [FAMILY|all [--MODE]]`: digests of cases. `sv-portable SEED INDEX FAMILY
//! --log`: what one of them did.
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

fn digest(f: usize, seed: u64, i: u64) -> u64 {
    std::panic::catch_unwind(|| sv_portable::run(f, seed, i, false).digest()).unwrap_or(1)
}

fn shuffle<T>(seed: u64, xs: &mut [T]) {
    let mut s = seed;
    for i in (1..xs.len()).rev() {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        xs.swap(i, (s >> 33) as usize % (i + 1));
    }
}

/// (enough for what is nested deep)
const STACK: usize = 512 << 20;

fn main() {
    let t = std::thread::Builder::new().stack_size(STACK).spawn(work).unwrap();
    if t.join().is_err() {
        std::process::exit(101);
    }
}

fn work() {
    let args: Vec<String> = std::env::args().collect();
    let n = |k: usize| args[k].parse::<u64>().unwrap();
    if args.get(4).is_some_and(|a| a == "--log") {
        let f = sv_portable::FAMILIES.iter().position(|f| f.0 == args[3]).expect("family");
        println!("{}", sv_portable::run(f, n(1), n(2), true).text.unwrap());
        return;
    }
    std::panic::set_hook(Box::new(|_| ()));
    let seed = n(1);
    let mut cases: Vec<(usize, u64)> = vec![];
    for (f, (name, _)) in sv_portable::FAMILIES.iter().enumerate() {
        if args.get(4).is_some_and(|a| a != name && (a != "all" || ["claim", "big"].contains(name))) {
            continue;
        }
        cases.extend((n(2)..n(3)).map(|i| (f, i)));
    }
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut say = |(f, i): (usize, u64), d: u64| writeln!(out, "{} {i} {d:016x}", sv_portable::FAMILIES[f].0).unwrap();
    match args.get(5).map(|s| s.as_str()).unwrap_or("") {
        "" => {
            for c in cases {
                say(c, digest(c.0, seed, c.1))
            }
        }
        "--backwards" => {
            for c in cases.into_iter().rev() {
                say(c, digest(c.0, seed, c.1))
            }
        }
        "--shuffled" => {
            shuffle(seed, &mut cases);
            for c in cases {
                say(c, digest(c.0, seed, c.1))
            }
        }
        "--repeated" => {
            // each case several times, with others in between; any which differs is told
            shuffle(seed + 1, &mut cases);
            for w in cases.chunks(7) {
                let first: Vec<u64> = w.iter().map(|c| digest(c.0, seed, c.1)).collect();
                for (c, d) in w.iter().zip(&first) {
                    let again = digest(c.0, seed, c.1);
                    let third = digest(c.0, seed, c.1);
                    say(*c, if again != *d { again } else if third != *d { third } else { *d })
                }
            }
        }
        "--threads" => {
            // all threads take the same cases, so that the same things happen at the same time, and
            // sets of their own
            shuffle(seed + 2, &mut cases);
            const T: usize = 8;
            let all = Mutex::new(vec![]);
            let barrier = Barrier::new(T);
            let next = AtomicUsize::new(0);
            std::thread::scope(|s| {
                for t in 0..T {
                    let (cases, all, barrier, next) = (&cases, &all, &barrier, &next);
                    let _ = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || {
                        let mut mine = vec![];
                        let same = &cases[..cases.len() / 4];
                        for part in same.chunks(same.len().div_ceil(20).max(1)) {
                            barrier.wait();
                            mine.extend(part.iter().map(|c| (*c, digest(c.0, seed, c.1))));
                        }
                        barrier.wait();
                        loop {
                            let k = next.fetch_add(1, SeqCst);
                            let Some(c) = cases.get(same.len() + k) else { break };
                            mine.push((*c, digest(c.0, seed, c.1)));
                        }
                        let _ = t;
                        all.lock().unwrap().extend(mine);
                    });
                }
            });
            let mut all = all.into_inner().unwrap();
            all.sort();
            // where threads disagree, the first and the last of them are told, of which the reader keeps one
            let mut seen: std::collections::BTreeMap<(usize, u64), Vec<u64>> = Default::default();
            for (c, d) in all {
                seen.entry(c).or_default().push(d);
            }
            for (c, ds) in seen {
                let same = ds.iter().all(|d| *d == ds[0]);
                say(c, if same { ds[0] } else { 2 })
            }
        }
        "--soak" => {
            // the first of them again, after all the others and one of them over and over
            let some = cases.len().min(60);
            let before: Vec<u64> = cases[..some].iter().map(|c| digest(c.0, seed, c.1)).collect();
            for (k, c) in cases.iter().enumerate() {
                digest(c.0, seed, c.1);
                if k % 3 == 0 {
                    digest(cases[k * 7 / cases.len()].0, seed, cases[k * 7 / cases.len()].1);
                }
            }
            for (c, d) in cases.iter().zip(&before) {
                let after = digest(c.0, seed, c.1);
                say(*c, if after == *d { after } else { 2 })
            }
        }
        "--together" => {
            // several threads begin with the same thing in a process which did nothing before
            // (with what is big, all of them at it at the same time)
            let big = args.get(4).is_some_and(|a| a == "big");
            #[allow(non_snake_case)]
            let T: usize = if big { 8 } else { 3 };
            for c in cases {
                let barrier = Barrier::new(T);
                let mut ds: Vec<u64> = std::thread::scope(|s| {
                    let ts: Vec<_> = (0..T)
                        .map(|_| {
                            std::thread::Builder::new()
                                .stack_size(STACK)
                                .spawn_scoped(s, || {
                                    barrier.wait();
                                    digest(c.0, seed, c.1)
                                })
                                .unwrap()
                        })
                        .collect();
                    ts.into_iter().map(|t| t.join().unwrap()).collect()
                });
                ds.push(digest(c.0, seed, c.1));
                if ds.iter().any(|d| *d != ds[0]) {
                    eprintln!("sv-differs {} {}", sv_portable::FAMILIES[c.0].0, c.1);
                }
                let same = ds.iter().all(|d| *d == ds[0]);
                say(c, if same { ds[0] } else { 2 })
            }
        }
        m => panic!("{m}"),
    }
    out.flush().unwrap();
}
