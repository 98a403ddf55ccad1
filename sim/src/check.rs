//! The supervisor: spreads seeded runs over worker processes, minimises and records violations, writes evidence.
use crate::json::V;
use crate::rng::{hash_str, mix};
use crate::runner::{class, gen, run_plan, run_seed, PROPS};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::time::Instant;

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}
fn root() -> String {
    env("VERIF_DIR", "/verif")
}

/// runs per property: (quick, thorough cap)
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "S01" | "S02" | "S03" | "S04" | "S09" => 96_000,
        "S05" => 100_000,
        "S06" | "S08" => 120_000,
        "H06" => 30_000,
        "H08" => 20_000,
        "R01" | "R02" => 10_000,
        _ => 140_000,
    };
    let f: f64 = env("RN_SCALE", "1").parse().unwrap_or(1.0);
    if tier == "thorough" {
        (quick * 1000, 600)
    } else {
        ((quick as f64 * f) as u64, 240)
    }
}

struct Known {
    prop: String,
    needle: String,
    text: String,
}
/// lines of the form  finding: property=<id> match=<text up to |> | description
fn known() -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (prop, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("match=")?;
            let (needle, text) = rest.split_once('|')?;
            Some(Known { prop: prop.into(), needle: needle.trim().into(), text: text.trim().into() })
        })
        .collect()
}

// ---------------------------------------------------------------- worker

pub fn worker(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, k, step, count, wall) = (n(1), n(2), n(3), n(4), n(5));
    let kn = known();
    let t0 = Instant::now();
    let mut plans: BTreeSet<u64> = BTreeSet::new();
    let mut ways: BTreeSet<u64> = BTreeSet::new();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let (mut runs, mut us, mut steps, mut sw, mut pt, mut ev, mut same, mut differ, mut viols) =
        (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut i = k;
    while i < count {
        if t0.elapsed().as_secs() >= wall {
            break;
        }
        let plan = gen(prop, run_seed(seed, prop, i));
        let r = run_plan(&plan, false);
        runs += 1;
        if r.has("harness") {
            println!("H {} {}", i, r.s("harness"));
            return 3;
        }
        us += r.u("us");
        steps += r.u("steps");
        sw += r.u("sw");
        pt += r.u("pt");
        ev += r.u("ev");
        if let V::Obj(m) = r.get("st") {
            for (k, v) in m {
                *stats.entry(k.clone()).or_insert(0) += v.int() as u64;
            }
        }
        if r.b("nt") {
            let t = plan.text();
            plans.insert(hash_str(&t));
            ways.insert(mix(hash_str(r.s("dg")), 1));
            if samples.len() < 2 && t.len() < 3000 {
                samples.push(V::obj().set("index", i).set("plan", plan.clone()).set("digest", r.s("dg")));
            }
        }
        // determinism: a few runs are executed twice
        if runs <= 4 || runs % 500 == 0 {
            let q = run_plan(&plan, false);
            if q.s("dg") == r.s("dg") && q.s("viol") == r.s("viol") && q.u("steps") == r.u("steps") {
                same += 1;
            } else {
                differ += 1;
            }
        }
        if r.has("viol") {
            if let Some(x) = kn.iter().find(|x| x.prop == prop && r.s("viol").contains(&x.needle)) {
                *stats.entry(format!("known-finding: {}", x.text)).or_insert(0) += 1;
            } else if (0..3).all(|_| !run_plan(&plan, false).has("viol")) {
                // no replay could show it: the machine's doing (a stalled process), not the library's
                *stats.entry("not reproducible, not counted".into()).or_insert(0) += 1;
                eprintln!("note: run {} did not repeat: {}", i, r.s("viol"));
            } else {
                viols += 1;
                println!("V {} {}", i, V::Str(r.s("viol").to_string()).text());
                if viols >= 2 {
                    break;
                }
            }
        }
        i += step;
    }
    let mut st = V::obj();
    for (k, v) in &stats {
        st.put(k, *v);
    }
    let hex = |s: &BTreeSet<u64>| V::Arr(s.iter().map(|x| V::Int(*x as i64)).collect());
    println!(
        "R {}",
        V::obj()
            .set("runs", runs)
            .set("us", us)
            .set("steps", steps)
            .set("sw", sw)
            .set("pt", pt)
            .set("ev", ev)
            .set("same", same)
            .set("differ", differ)
            .set("st", st)
            .set("plans", hex(&plans))
            .set("ways", hex(&ways))
            .set("samples", V::Arr(samples))
            .set("cov", crate::cov::covered())
            .set("edges", crate::cov::edges())
            .text()
    );
    0
}

// ---------------------------------------------------------------- supervisor

pub fn check(a: &[String]) -> i32 {
    let prop = match a.first() {
        Some(p) if PROPS.contains(&p.as_str()) => p.clone(),
        _ => {
            eprintln!("unknown property");
            return 2;
        }
    };
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let tier = env("VERIF_TIER", "quick");
    let (count, wall) = budget(&prop, &tier);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 8) as u64;
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for k in 0..n {
        let c = Command::new(&exe)
            .args(["worker", &prop, &seed.to_string(), &k.to_string(), &n.to_string(), &count.to_string(), &wall.to_string()])
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        kids.push(c);
    }
    let outs: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = kids
            .iter_mut()
            .map(|c| {
                let o = c.stdout.take().unwrap();
                s.spawn(move || BufReader::new(o).lines().map_while(|l| l.ok()).collect::<Vec<_>>())
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for mut c in kids {
        let _ = c.wait();
    }
    let explored = t0.elapsed().as_secs_f64();
    let mut viols: Vec<(u64, String)> = vec![];
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut plans = BTreeSet::new();
    let mut ways = BTreeSet::new();
    let mut cov = BTreeSet::new();
    let mut samples = vec![];
    let mut sum: BTreeMap<&str, u64> = BTreeMap::new();
    let mut edges = 0;
    let mut finished = 0;
    for lines in &outs {
        for l in lines {
            if let Some(x) = l.strip_prefix("V ") {
                let (i, t) = x.split_once(' ').unwrap_or((x, ""));
                viols.push((i.parse().unwrap_or(0), V::parse(t).map(|v| v.str().to_string()).unwrap_or_default()));
            } else if let Some(x) = l.strip_prefix("H ") {
                eprintln!("harness failure in run {}", x);
                return 3;
            } else if let Some(x) = l.strip_prefix("R ") {
                let v = match V::parse(x) {
                    Ok(v) => v,
                    Err(e) => {
                        eprintln!("worker result: {}", e);
                        return 3;
                    }
                };
                finished += 1;
                for k in ["runs", "us", "steps", "sw", "pt", "ev", "same", "differ"] {
                    *sum.entry(k).or_insert(0) += v.u(k);
                }
                if let V::Obj(m) = v.get("st") {
                    for (k, x) in m {
                        *stats.entry(k.clone()).or_insert(0) += x.int() as u64;
                    }
                }
                plans.extend(v.get("plans").arr().iter().map(|x| x.int()));
                ways.extend(v.get("ways").arr().iter().map(|x| x.int()));
                cov.extend(v.get("cov").arr().iter().map(|x| x.int()));
                samples.extend(v.get("samples").arr().iter().cloned());
                edges = v.u("edges");
            }
        }
    }
    if finished != n {
        eprintln!("harness failure: {} of {} workers finished", finished, n);
        return 3;
    }
    viols.sort();
    let mut replay_path = String::new();
    let mut final_viol = String::new();
    if let Some((i, v)) = viols.first() {
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        replay_path = format!("{}/{}-{}-{}.json", dir, prop, seed, i);
        println!("run {} (seed {}): {}", i, seed, v);
        let secs = if tier == "thorough" { "90" } else { "45" };
        let st = Command::new(&exe)
            .args(["minimise", &prop, &seed.to_string(), &i.to_string(), &replay_path, secs])
            .status();
        if !st.map(|s| s.success()).unwrap_or(false) || !std::path::Path::new(&replay_path).exists() {
            let plan = gen(&prop, run_seed(seed, &prop, *i));
            let f = V::obj().set("plan", plan).set("violation", v.as_str()).set("minimised", false);
            let _ = std::fs::write(&replay_path, f.text());
        }
        final_viol = v.clone();
        // the replay file, in a process of its own
        let st = Command::new(&exe).args(["replay", &replay_path]).stdout(Stdio::null()).stderr(Stdio::null()).status();
        println!(
            "replay in a fresh process: {}",
            if st.ok().and_then(|s| s.code()) == Some(1) { "reproduces exactly" } else { "DIFFERS" }
        );
    }
    for x in known().iter().filter(|x| x.prop == prop) {
        println!("KNOWN-FINDING: property={} {}", prop, x.text);
    }
    let runs = sum["runs"];
    let mut faults = V::obj();
    let mut ops = V::obj();
    for (k, v) in &stats {
        if k.contains('@') || k == "power-loss" || k == "short-io" || k == "stored-bytes-damaged" || k.starts_with("layer-fail") {
            faults.put(k, *v);
        } else {
            ops.put(k, *v);
        }
    }
    let mut s3 = samples;
    s3.sort_by_key(|s| s.i("index"));
    s3.truncate(3);
    let ev = V::obj()
        .set("property", prop.as_str())
        .set("tier", tier.as_str())
        .set("seed", seed)
        .set("level", "exploration")
        .set("wall_s", (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0)
        .set("violations", viols.len())
        .set(
            "coverage",
            V::obj()
                .set("evaluations", runs)
                .set("distinct_nontrivial", plans.len())
                .set("rule", rule(&prop))
                .set("samples", V::Arr(s3))
                .set("simulated_runs", runs)
                .set("runs_per_hour", (runs as f64 / explored.max(0.01) * 3600.0).round() as u64)
                .set("simulated_time_s", sum["us"] as f64 / 1e6)
                .set("simulated_events", sum["ev"])
                .set("scheduling_points", sum["pt"])
                .set("task_switches", sum["sw"])
                .set("library_basic_block_steps", sum["steps"])
                .set("faults_injected", faults)
                .set("operations", ops)
                .set("distinct_interleavings", ways.len())
                .set("distinct_interleavings_measure", "different digests over the ordered events (task, call, outcome, fault) of the non-trivial runs")
                .set("library_basic_blocks_reached", cov.len())
                .set("library_basic_blocks_total", edges)
                .set("determinism_runs_repeated", sum["same"] + sum["differ"])
                .set("determinism_repeats_identical", sum["same"])
                .set("workers", n)
                .set("real_components", "the whole library built from /repo (tensor, layers, network, storage), std, serde, bincode, rand and their thread-local generators")
                .set("stubbed_components", "kernel: files, directories, page cache and disk, descriptors, entropy, clock, process ids, futexes and thread scheduling are simulated")
                .set("violation", final_viol.as_str())
                .set("replay", replay_path.as_str()),
        )
        .set(
            "assumptions",
            vec![
                "preemption happens at basic-block edges of the library and at its system calls; memory is sequentially consistent",
                "the simulated disk keeps exactly what fsync of the file and of its directory made durable, plus any torn or reordered part of the rest",
                "seeded search: what was not reached is not excluded",
            ],
        );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    if std::fs::write(format!("{}/evidence/{}.json", root(), prop), ev.text() + "\n").is_err() {
        eprintln!("cannot write evidence");
        return 3;
    }
    println!(
        "{} {}: {} runs in {:.1}s, {} distinct non-trivial, {} distinct interleavings, {} violation(s), determinism {}/{}",
        prop,
        tier,
        runs,
        explored,
        plans.len(),
        ways.len(),
        viols.len(),
        sum["same"],
        sum["same"] + sum["differ"]
    );
    if viols.is_empty() {
        0
    } else {
        println!("{}", final_viol);
        println!("VIOLATION property={} replay={}", prop, replay_path);
        1
    }
}

pub fn minimise(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (prop, seed, index, path, secs) = (&a[0], n(1), n(2), &a[3], n(4));
    let plan = gen(prop, run_seed(seed, prop, index));
    let r = run_plan(&plan, false);
    if !r.has("viol") {
        println!("the violation did not recur when the run was repeated");
        return 1;
    }
    let (small, tried) = crate::runner::minimise(&plan, r.s("viol"), secs);
    let t = run_plan(&small, true);
    let f = V::obj()
        .set("property", prop.as_str())
        .set("seed", seed)
        .set("index", index)
        .set("plan", small.clone())
        .set("violation", t.s("viol"))
        .set("digest", t.s("dg"))
        .set("minimisation_runs", tried)
        .set("plan_bytes_before", plan.text().len())
        .set("plan_bytes_after", small.text().len())
        .set("trace", t.get("trace").clone());
    if std::fs::write(path, f.text() + "\n").is_err() {
        return 1;
    }
    println!("minimised in {} runs: {}", tried, t.s("viol"));
    0
}

pub fn replay(a: &[String]) -> i32 {
    let s = match std::fs::read_to_string(&a[0]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let f = match V::parse(s.trim()) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let r = run_plan(f.get("plan"), true);
    for l in r.get("trace").arr() {
        println!("{}", l.str());
    }
    if !r.has("viol") {
        println!("no violation");
        return 0;
    }
    println!("{}", r.s("viol"));
    let exact = r.s("viol") == f.s("violation") && (r.s("dg") == f.s("digest") || !f.has("digest"));
    println!("{}", if exact { "exactly as recorded" } else { "NOT as recorded" });
    println!("VIOLATION property={} replay={}", f.get("plan").s("prop"), a[0]);
    if exact {
        1
    } else {
        4
    }
}

pub fn show(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let plan = gen(&a[0], run_seed(n(1), &a[0], n(2)));
    println!("{}", plan.text());
    let r = run_plan(&plan, true);
    for l in r.get("trace").arr() {
        println!("{}", l.str());
    }
    let mut r = r;
    r.put("trace", 0);
    println!("{}", r.text());
    println!("class {}", class(r.s("viol")));
    0
}

/// digest of every run, for comparing whole executions between processes
pub fn digests(a: &[String]) -> i32 {
    let count: u64 = a[1].parse().unwrap();
    for i in 0..count {
        let r = run_plan(&gen(&a[0], run_seed(1, &a[0], i)), false);
        println!("{} {} {} {}", i, r.s("dg"), r.u("steps"), r.s("viol"));
    }
    0
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "S01" => "seeded programs of saves, loads, restarts and interrupted saves over several paths with short and interrupted I/O; non-trivial: an acknowledged save was loaded and compared",
        "S02" => "seeded saves and loads with failing storage steps, full disks, exhausted handles, impossible paths; non-trivial: a fault fired",
        "S03" => "seeded saves over existing files killed or failed at a storage step, with or without power failure; non-trivial: a fault or kill hit a save over an existing file",
        "S04" => "seeded save sequences with faults and kills, then power failure; non-trivial: a file had to survive the power failure",
        "S05" => "seeded interleavings of concurrent saves and loads of one path, some savers killed; non-trivial: operations overlapped",
        "S06" => "seeded failing loads into networks with a history, compared with a twin that did not load; non-trivial: the load failed",
        "S07" => "stored bytes damaged by truncation, bit and field changes, splices; non-trivial: the bytes differ from the original",
        "S08" => "files written by the base release inside the simulation, loaded by the current tree; non-trivial: a file was loaded and compared",
        "S09" => "seeded saves and loads with and without faults; non-trivial: an operation returned and handles and directory were inspected",
        "H06" => "several tasks with their own networks, layers, tensors and files, preempted at basic blocks; each log compared with the same task run alone; non-trivial: at least one switch happened",
        "H07" => "seeded histories of tensor operations against an array model, with faulty storage, restarts and power failures; non-trivial: at least two accepted operations with a checked effect",
        "H08" => "seeded cycles of operations, storage faults included, repeated 160 times, and repeated lives; non-trivial: the cycle could be run to the end",
        "R01" | "R02" => "seeded tasks filling tensors under shortened, interrupted and constant entropy, preempted at basic blocks; non-trivial: enough draws for the distribution tests",
        _ => "seeded histories of operations on networks and layers against the f64 reference; non-trivial: the property's own comparison was made at least once on informative values",
    }
}
