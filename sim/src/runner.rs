//! One run = one forked child executing one plan in a fresh simulated world.
use crate::json::V;
use crate::rng::{hash_str, mix, Rng};
use crate::world::*;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, Ordering};

static PIPE: AtomicI32 = AtomicI32::new(-1);

pub const PROPS: &[&str] = &[
    "S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "H01", "H02", "H03", "H04", "H05", "H06", "H07", "H08",
    "R01", "R02",
];

pub fn gen(prop: &str, seed: u64) -> V {
    let mut r = Rng::new(seed);
    let p = match prop {
        "S01" | "S02" | "S03" | "S04" | "S09" => crate::storage::gen(prop, &mut r),
        "S05" => crate::register::gen(&mut r),
        "S06" => crate::loading::gen_s06(&mut r),
        "S07" => crate::loading::gen_s07(&mut r),
        "S08" => crate::loading::gen_s08(&mut r),
        "H06" => crate::side::gen(&mut r),
        "H07" => crate::tens::gen(&mut r),
        "H08" => crate::bounded::gen(&mut r),
        "R01" | "R02" => crate::fills::gen(prop, &mut r),
        _ => crate::session::gen(prop, &mut r),
    };
    p.set("prop", prop)
}

fn exec(plan: &V) {
    let prop = plan.s("prop");
    match prop {
        "S01" | "S02" | "S03" | "S04" | "S09" => crate::storage::run(prop, plan),
        "S05" => crate::register::run(plan),
        "S06" => crate::loading::run_s06(plan),
        "S07" => crate::loading::run_s07(plan),
        "S08" => crate::loading::run_s08(plan),
        "H06" => crate::side::run(plan),
        "H07" => crate::tens::run(plan),
        "H08" => crate::bounded::run(plan),
        "R01" | "R02" => crate::fills::run(prop, plan),
        _ => crate::session::run(prop, plan),
    }
}

/// the result of a run, sent to the parent
pub fn report(w: &mut World) {
    let mut st = V::obj();
    for (k, v) in &w.stats {
        st.put(k, *v);
    }
    let mut r = V::obj()
        .set("nt", w.nontrivial)
        .set("dg", format!("{:016x}", w.digest))
        .set("sw", w.switches)
        .set("pt", w.points)
        .set("ev", w.seq)
        .set("us", w.time_ns.wrapping_sub(1_700_000_000_000_000_000) / 1000)
        .set("steps", crate::cov::STEPS.load(Ordering::Relaxed))
        .set("st", st);
    if let Some(v) = &w.viol {
        r.put("viol", v.as_str());
        let t = w.taken.iter().map(|t| V::Arr(vec![V::from(t.0), V::from(t.1)])).collect();
        r.put("tk", V::Arr(t));
    }
    if let Some(t) = w.trace.take() {
        r.put("trace", t);
    }
    send(&r.text());
}
fn send(s: &str) {
    let fd = PIPE.load(Ordering::Relaxed);
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr() as *const libc::c_void, b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}

/// A run that takes long is given up when it waits for something outside the simulation, or has used much processor
/// time; on a busy machine a run may just be slow.
fn watch() {
    unsafe {
        libc::signal(libc::SIGALRM, late as *const () as usize);
        libc::alarm(30);
    }
}
extern "C" fn late(_: libc::c_int) {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID, &mut t as *mut libc::timespec);
        if t.tv_sec < 1 || t.tv_sec >= 40 {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::alarm(1);
        } else {
            libc::alarm(10);
        }
    }
}

/// the process is about to abort: say how far the run came
extern "C" fn aborting(_: libc::c_int) {
    unsafe {
        libc::signal(libc::SIGABRT, libc::SIG_DFL);
        crate::world::IN_LIB.with(|c| c.set(false));
        if crate::world::world_active() {
            let n = crate::alloc::REFUSED.load(Ordering::Relaxed);
            let m = if n > 0 {
                format!("crash: the process aborted; the last allocation refused was one of {} bytes", n)
            } else {
                "crash: the process aborted".to_string()
            };
            if w().viol.is_none() {
                w().viol = Some(m);
            }
            report(w());
        }
        libc::_exit(0);
    }
}

/// a panic outside library code: the run means nothing
pub fn harness_failed(m: &str) {
    if PIPE.load(Ordering::Relaxed) >= 0 {
        send(&V::obj().set("harness", m).text());
        unsafe { libc::_exit(0) }
    }
}

pub fn run_plan(plan: &V, trace: bool) -> V {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            PIPE.store(fds[1], Ordering::Relaxed);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            watch();
            libc::signal(libc::SIGABRT, aborting as *const () as usize);
            if !trace {
                // aborts inside the library must not clutter the output
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY, 0);
                libc::dup2(n, 2);
            }
            begin(World::new(trace));
            exec(plan);
            report(w());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        match V::parse(&s) {
            Ok(v) if !s.is_empty() => v,
            _ => {
                let sig = if libc::WIFSIGNALED(status) { libc::WTERMSIG(status) } else { 0 };
                let m = match sig {
                    libc::SIGABRT => "crash: the process aborted (allocation failure or panic in a destructor)".to_string(),
                    libc::SIGSEGV | libc::SIGBUS => format!("crash: the process died of signal {} (memory fault or stack overflow)", sig),
                    libc::SIGALRM => "hang: no result within 30 s".to_string(),
                    s => format!("crash: the process died of signal {} status {}", s, status),
                };
                V::obj().set("viol", m).set("dg", "dead").set("nt", true)
            }
        }
    }
}

/// Part of a run in a process of its own: fresh statics, an own copy of the world. Gives what `f` returns, or the
/// violation that ended it.
pub fn solo(f: impl FnOnce() -> V) -> Result<V, String> {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            PIPE.store(fds[1], Ordering::Relaxed);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            watch();
            w().trace = None;
            let v = f();
            let mut r = V::obj().set("solo", v);
            if let Some(m) = &w().viol {
                r.put("viol", m.as_str());
            }
            send(&r.text());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut p = std::fs::File::from_raw_fd(fds[0]);
        let mut s = String::new();
        let _ = p.read_to_string(&mut s);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        match V::parse(&s) {
            Ok(v) if v.has("harness") => {
                harness_failed(v.s("harness"));
                libc::_exit(0)
            }
            Ok(v) if v.has("viol") => Err(v.s("viol").to_string()),
            Ok(v) if v.has("solo") => Ok(v.get("solo").clone()),
            _ => Err(format!("crash: a process of its own ended with status {}", status)),
        }
    }
}

pub fn class(viol: &str) -> &str {
    viol.split(':').next().unwrap_or("")
}
pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), index)
}

// ---------------------------------------------------------------- minimisation

fn candidates(v: &V, path: &mut Vec<V>, out: &mut Vec<(Vec<V>, V)>) {
    match v {
        V::Arr(a) => {
            let n = a.len();
            let mut sz = n;
            while sz >= 1 {
                let mut i = 0;
                while i < n {
                    let mut b = a.clone();
                    b.drain(i..(i + sz).min(n));
                    out.push((path.clone(), V::Arr(b)));
                    i += sz;
                }
                sz /= 2;
            }
            for (i, x) in a.iter().enumerate() {
                path.push(V::Int(i as i64));
                candidates(x, path, out);
                path.pop();
            }
        }
        V::Obj(m) => {
            for (k, x) in m {
                if ["prop", "k", "t", "op"].contains(&k.as_str()) {
                    continue;
                }
                if path.len() > 0 {
                    let mut b = m.clone();
                    b.remove(k);
                    out.push((path.clone(), V::Obj(b)));
                }
                path.push(V::Str(k.clone()));
                candidates(x, path, out);
                path.pop();
            }
        }
        V::Int(i) => {
            for c in [0, 1, i / 2, i - i.signum()] {
                if c != *i && c.abs() <= i.abs() {
                    out.push((path.clone(), V::Int(c)));
                }
            }
        }
        V::Bool(true) => out.push((path.clone(), V::Bool(false))),
        V::Str(s) if !s.is_empty() => out.push((path.clone(), V::Str("".into()))),
        _ => {}
    }
}
fn replace(v: &V, path: &[V], x: &V) -> V {
    match (path.first(), v) {
        (None, _) => x.clone(),
        (Some(V::Int(i)), V::Arr(a)) => {
            let mut b = a.clone();
            if let Some(e) = b.get_mut(*i as usize) {
                *e = replace(e, &path[1..], x);
            }
            V::Arr(b)
        }
        (Some(V::Str(k)), V::Obj(m)) => {
            let mut b = m.clone();
            if let Some(e) = b.get_mut(k) {
                *e = replace(e, &path[1..], x);
            }
            V::Obj(b)
        }
        _ => v.clone(),
    }
}

pub fn minimise(plan: &V, viol: &str, secs: u64) -> (V, u64) {
    let t0 = std::time::Instant::now();
    let want = class(viol).to_string();
    let mut cur = plan.clone();
    let mut tried = 0;
    if plan.get("hot").arr().len() == 2 {
        // spell out the switches that the drawn places led to
        let r = run_plan(plan, false);
        let cand = plan.clone().set("hot", V::Null).set("sched", r.get("tk").clone());
        tried += 2;
        if class(run_plan(&cand, false).s("viol")) == want {
            cur = cand;
        }
    }
    loop {
        let mut cs = vec![];
        candidates(&cur, &mut vec![], &mut cs);
        let mut progress = false;
        for (p, x) in cs {
            if t0.elapsed().as_secs() >= secs || tried > 3000 {
                return (cur, tried);
            }
            let cand = replace(&cur, &p, &x);
            if cand == cur {
                continue;
            }
            tried += 1;
            let r = run_plan(&cand, false);
            if class(r.s("viol")) == want {
                cur = cand;
                progress = true;
                // the remaining candidates are positions in the old plan; only go on if still meaningful
                if matches!(x, V::Arr(_) | V::Obj(_)) {
                    break;
                }
            }
        }
        if !progress {
            return (cur, tried);
        }
    }
}
