mod cli;
mod core;
mod corpus;
mod effort;
mod glr;
mod indep;
mod jobs;
mod kinds;
mod lexcheck;
mod lexref;
mod pda;
mod runimpl;
mod spaces;
mod utab;
mod work;
use core::*;
use std::collections::HashSet;
use std::time::{Duration, Instant};

/// The directory of the framework.
pub fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn ids() -> Vec<String> {
    (1..=26).chain(28..=31).map(|i| format!("C{:02}", i)).collect()
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c as u32 == 0x2028 || c as u32 == 0x2029 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The entries of the known-findings file: `known: property=<id> text=<escaped> -- <what>`.
fn known(id: &str) -> Vec<(String, String)> {
    let mut o = vec![];
    let f = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    for l in f.lines() {
        let p = format!("known: property={} text=", id);
        if let Some(r) = l.strip_prefix(&p) {
            let (t, w) = r.split_once(" -- ").unwrap_or((r, ""));
            o.push((t.replace("\\n", "\n").replace("\\r", "\r").replace("\\s", " "), w.to_string()));
        }
    }
    o
}

struct Outcome {
    tot: work::Totals,
    descs: Vec<(String, u64)>,
    wall: f64,
}

fn explore(id: &str, thorough: bool, all: bool, limit: Option<Duration>, known: &'static HashSet<String>) -> Outcome {
    let t0 = Instant::now();
    let k: &'static kinds::Kinds = Box::leak(Box::new(kinds::Kinds::new()));
    let mut cx = spaces::Ctx::new(k, thorough);
    let jobs = spaces::jobs(id, &mut cx).unwrap_or_else(|| panic!("unknown property {}", id));
    let only: Option<usize> = std::env::var("MC_JOB").ok().map(|s| s.parse().unwrap());
    let mut starts = vec![0u64];
    let mut descs = vec![];
    for (i, j) in jobs.iter().enumerate() {
        let n = if only.map_or(false, |o| o != i) { 0 } else { j.units() };
        starts.push(starts[i] + n);
        descs.push((j.desc(), n));
    }
    let n = *starts.last().unwrap();
    let nw: usize = std::env::var("MC_WORKERS").ok().map(|s| s.parse().unwrap()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).min(work::MAXW));
    let jobs = &jobs;
    let starts = &starts;
    let is_cli = id == "C26";
    let lexical = id[1..].parse::<u32>().unwrap() <= 11;
    let tot = work::run_workers(
        nw,
        n,
        all,
        limit.map(|l| t0 + l),
        known,
        &|u, ctl, st| {
            let i = starts.partition_point(|&s| s <= u) - 1;
            jobs[i].run(u - starts[i], ctl, st.downcast_mut::<jobs::St>().unwrap());
        },
        &|| Box::new(jobs::St { pw: PW::new(k) }),
        &|ctl, st| {
            let st = st.downcast_mut::<jobs::St>().unwrap();
            ctl.me().automaton.store(st.pw.s.auto.sizes().2 as u64, std::sync::atomic::Ordering::Relaxed);
        },
        &|text| {
            if jobs::deep_of(text).is_some() || text.starts_with("MANY ") {
                return Err("does not end".into());
            }
            if is_cli {
                return Err("does not end".into());
            }
            match indep::rerun(text) {
                Some(Ok(0)) => return Ok(0),
                Some(Ok(_)) => return Err("comes to another result".into()),
                Some(Err(e)) => return Err(e),
                None => {}
            }
            let t = text.to_string();
            work::isolated(Duration::from_secs(20), work::STACK, move || {
                if lexical {
                    for h in 0..4 {
                        lexcheck::drive_const(&t, h);
                    }
                } else {
                    runimpl::parse(&t);
                }
                0
            })
        },
    );
    Outcome { tot, descs, wall: t0.elapsed().as_secs_f64() }
}

fn check(id: &str, tier: &str) -> i32 {
    let thorough = tier == "thorough";
    let kn = known(id);
    let set: &'static HashSet<String> = Box::leak(Box::new(kn.iter().map(|x| x.0.clone()).collect()));
    let limit = Duration::from_secs(std::env::var("MC_LIMIT").ok().map(|s| s.parse().unwrap()).unwrap_or(if thorough { 3 * 3600 } else { 480 }));
    let mut o = explore(id, thorough, false, Some(limit), set);
    if let Some(e) = &o.tot.error {
        eprintln!("error: {}", e);
        if o.tot.viols.is_empty() {
            return 2;
        }
    }
    for (t, w) in &kn {
        println!("KNOWN-FINDING: property={} {:?} {}", id, t, w);
    }
    o.tot.viols.sort_by_key(|v| (v.1.len(), v.1.clone()));
    let dir = format!("{}/work/{}", root(), id);
    let _ = std::fs::remove_dir_all(&dir);
    let mut code = 0;
    if !o.tot.viols.is_empty() {
        code = 1;
        std::fs::create_dir_all(&dir).unwrap();
        for (i, (what, text)) in o.tot.viols.iter().take(5).enumerate() {
            let p = format!("{}/violation-{}.txt", dir, i);
            std::fs::write(&p, format!("property={}\n{}\n---\n{}", id, what, text)).unwrap();
            println!("VIOLATION property={} replay={}", id, p);
            println!("  {:?}: {}", text.chars().take(300).collect::<String>(), what.chars().take(400).collect::<String>());
        }
    }
    let t = &o.tot;
    let mut samples = t.samples.clone();
    samples.sort_by_key(|s| std::cmp::Reverse(s.len()));
    samples.dedup();
    samples.truncate(24);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"accepted_runs\": {},\n  \"rejected_runs\": {},\n  \"left_open\": {},\n  \"reference_automaton_states\": {},\n  \"units\": {},\n  \"exhaustive\": {},\n  \"spaces\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"the reference lexer and grammar in /verif/mc/src state the language\", \"bounds as listed in spaces\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        id, tier, seed, t.states, t.transitions, t.runs, t.accepted, t.rejected, t.open, t.automaton, t.units,
        !t.truncated && code == 0,
        o.descs.iter().map(|(d, n)| json_str(&format!("{} [{} units]", d, n))).collect::<Vec<_>>().join(", "),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        o.wall, t.nviols
    );
    std::fs::create_dir_all(format!("{}/evidence", root())).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", root(), id), ev).unwrap();
    println!(
        "{} {}: {} states, {} transitions, {} runs ({} accepted, {} rejected, {} open), {:.1} s{}",
        id, tier, t.states, t.transitions, t.runs, t.accepted, t.rejected, t.open, o.wall, if t.truncated { ", cut by the time limit" } else { "" }
    );
    code
}

fn main() {
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let a: Vec<String> = std::env::args().collect();
    let k: &'static kinds::Kinds = Box::leak(Box::new(kinds::Kinds::new()));
    match &a.get(1).map(|s| &s[..]).unwrap_or("")[..] {
        "check" => std::process::exit(check(&a[2], a.get(3).map(|s| &s[..]).unwrap_or("quick"))),
        // all discrepancies of some properties, for development
        "explore" => {
            let n: usize = std::env::var("MC_SHOW").ok().map(|s| s.parse().unwrap()).unwrap_or(30);
            let list: Vec<String> = if a[2] == "all" { ids() } else { a[2].split(',').map(|s| s.to_string()).collect() };
            let thorough = a.get(3).map_or(false, |s| s == "thorough");
            for id in list {
                let kn = known(&id);
                let set: &'static HashSet<String> = Box::leak(Box::new(kn.iter().map(|x| x.0.clone()).collect()));
                let mut o = explore(&id, thorough, true, None, set);
                o.tot.viols.sort_by_key(|v| (v.1.len(), v.1.clone()));
                println!("== {} {} violations, {} runs, {:.1} s, error {:?}", id, o.tot.nviols, o.tot.runs, o.wall, o.tot.error);
                for (i, (d, n)) in o.descs.iter().enumerate() {
                    println!("   job {} {} [{}]", i, d, n);
                }
                for (w, t) in o.tot.viols.iter().take(n) {
                    println!("  {:?}: {}", t, w.chars().take(260).collect::<String>());
                }
            }
        }
        "replay" => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let (head, text) = s.split_once("\n---\n").unwrap();
            println!("{}", head);
            if let Some(d) = jobs::deep_of(text) {
                println!("{:?}", jobs::deep_run(&d));
                return;
            }
            if let Some(r) = jobs::many_again(text) {
                println!("{:?}", r);
                return;
            }
            if let Some(r) = indep::rerun(text) {
                println!("{:?}", r);
                return;
            }
            std::panic::set_hook(Box::new(|_| {}));
            let mut p = PW::new(k);
            println!("text: {:?}", text);
            println!("reference (strict) {:?}, (lenient) {:?}", p.strict(text), p.lenient(text));
            println!("implementation {:?}", runimpl::parse(text));
            println!("tokens {:?}", runimpl::last().toks.iter().map(|&(a, b)| &text[a as usize..b as usize]).collect::<Vec<_>>());
        }
        "try" => {
            std::panic::set_hook(Box::new(|_| {}));
            let mut p = PW::new(k);
            for t in &a[2..] {
                let t = t.replace("\\n", "\n");
                let s = p.strict(&t);
                let l = p.lenient(&t);
                let v = runimpl::parse(&t);
                eprintln!("{:?}: S {:?} L {:?} impl {:?}", t, s, l, v);
            }
        }
        "corpus" => {
            let mut p = PW::new(k);
            let mut n = 0;
            for (name, list) in [("EXPR", corpus::EXPR), ("STMT", corpus::STMT), ("MODULE", corpus::MODULE)] {
                for s in list {
                    n += 1;
                    let t = k.seq(s);
                    let (i, ok) = p.s.run(&t);
                    if !ok {
                        println!("{}: not in the grammar after {}: {}", name, i, k.render(&t));
                    }
                }
            }
            println!("{} sentences", n);
        }
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | explore ID|all | replay FILE | try TEXT...");
            std::process::exit(2);
        }
    }
}
