//! vp <property> <quick|thorough>   decide one property
//! vp replay <file>                 re-execute a recorded violation
//! vp dev [name…]                   run explorations by name, all properties
use std::time::Instant;
use vph::{explore::*, registry::*, report};

#[global_allocator]
static MEMORY: Limit = Limit;

fn mask_of(prop: &str) -> Option<u32> {
    let n: u32 = prop.strip_prefix('P')?.parse().ok()?;
    (1..=27).contains(&n).then(|| 1 << n)
}

fn dev(want: &[String], thorough: bool) {
    start_watchdog("DEV", ALL);
    for e in registry() {
        if !(if thorough { e.thorough } else { e.quick }) {
            continue;
        }
        if !want.is_empty() {
            let name = match &e.job {
                Job::Search(f) => f().name,
                Job::Enumerate(n, _, _) => n.to_string(),
            };
            if !want.iter().any(|w| name.contains(w.as_str())) {
                continue;
            }
        }
        let t = Instant::now();
        let Some(o) = e.run(ALL) else { continue };
        let st = &o.stats;
        println!(
            "{} states {} trans {} closed {} depth {} mf {} ms {} open {} {:?}",
            o.name, st.states, st.transitions, st.closed, st.depth, st.must_fail, st.must_succeed, st.open, t.elapsed()
        );
        if std::env::var("VP_KINDS").is_ok() {
            println!("   {:?}", st.kinds);
        }
        for x in o.found.iter().take(2) {
            println!("  !! {}\n{}", x.locator, x.replay);
        }
    }
}

/// Runs every quick exploration for all properties until one reports something.
fn first() -> i32 {
    start_watchdog("ANY", ALL);
    let known: Vec<String> = (1..=27).flat_map(|n| report::known(&format!("P{n:02}"))).collect();
    let (mut a, b): (Vec<Entry>, Vec<Entry>) =
        registry().into_iter().filter(|e| e.quick).partition(|e| matches!(e.job, Job::Enumerate(..)));
    a.extend(b);
    for e in a {
        let Some(o) = e.run(ALL) else { continue };
        if let Some(f) = o.found.iter().find(|f| !known.iter().any(|k| f.replay.contains(k.as_str()))) {
            println!("FOUND {} {}", f.locator, f.message.lines().next().unwrap_or("").chars().take(300).collect::<String>());
            return 1;
        }
    }
    0
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let field = |k: &str| {
        text.lines().find_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix(k)).map(str::to_string))
    };
    let prop = field("property=").unwrap_or_default();
    let mask = mask_of(&prop).unwrap_or(ALL);
    start_watchdog(&prop, mask);
    if let Some(name) = field("scenario=") {
        let init: usize = field("init=").and_then(|s| s.parse().ok()).unwrap_or(0);
        let path: Vec<usize> =
            field("path=").unwrap_or_default().split(',').filter_map(|s| s.parse().ok()).collect();
        for e in registry() {
            if let Job::Search(f) = &e.job {
                let sc = f();
                if sc.name == name {
                    let (t, bad) = follow(&sc, init, &path);
                    println!("{t}");
                    return bad.iter().any(|b| b.0 & mask != 0) as i32;
                }
            }
        }
    }
    if let Some(name) = field("enumeration=") {
        for e in registry() {
            if let Job::Enumerate(n, _, f) = &e.job {
                if *n == name {
                    let (_, found) = f(mask);
                    for x in found.iter().take(5) {
                        println!("{}", x.replay);
                    }
                    return !found.is_empty() as i32;
                }
            }
        }
    }
    eprintln!("nothing to replay in {file}");
    2
}

fn main() {
    vph::vm::init();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    match a[..] {
        ["dev", ..] => dev(&args[1..], false),
        ["deep", ..] => dev(&args[1..], true),
        ["first"] => std::process::exit(first()),
        ["replay", f] => std::process::exit(replay(f)),
        [prop, tier @ ("quick" | "thorough")] if mask_of(prop).is_some() => {
            std::process::exit(check(prop, tier))
        }
        _ => {
            eprintln!("usage: vp <P01..P27> <quick|thorough> | vp replay <file>");
            std::process::exit(2)
        }
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    let mask = mask_of(prop).unwrap();
    start_watchdog(prop, mask);
    let t = Instant::now();
    let known = report::known(prop);
    let mut rep = report::Report::new();
    let mut shown = vec![];
    for e in registry() {
        if !(if tier == "quick" { e.quick } else { e.thorough }) {
            continue;
        }
        let Some(o) = e.run(mask) else { continue };
        for f in o.found {
            match known.iter().find(|k| f.replay.contains(k.as_str())) {
                Some(k) => {
                    if !shown.contains(k) {
                        println!("KNOWN-FINDING: property={prop} {k}");
                        shown.push(k.clone());
                    }
                }
                None => rep.found.push(f),
            }
        }
        rep.parts.push(report::Part { name: o.name, stats: o.stats, bound: o.bound });
        if !rep.found.is_empty() {
            break;
        }
    }
    rep.write_evidence(prop, tier, t.elapsed().as_secs_f64(), &shown);
    let mut n = 0;
    let mut tr = 0;
    for p in &rep.parts {
        n += p.stats.states;
        tr += p.stats.transitions;
    }
    match rep.found.first() {
        None => {
            println!("{prop} {tier}: held on {n} states, {tr} transitions in {} parts, {:.1} s", rep.parts.len(), t.elapsed().as_secs_f64());
            0
        }
        Some(f) => {
            let path = report::save_replay(prop, &f.replay);
            println!("VIOLATION property={prop} replay={path}");
            println!("{}: {}", f.locator, f.message);
            1
        }
    }
}
