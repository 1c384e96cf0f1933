//! symir: symbolic execution of a linked LLVM module, one harness entry per run.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn ins(v: &[(u32, u128)]) -> String {
    let x: Vec<String> = v.iter().map(|(w, k)| format!("[{},{}]", w, k)).collect();
    format!("[{}]", x.join(","))
}
fn nums(v: &[u128]) -> String {
    let x: Vec<String> = v.iter().map(|k| format!("{}", k)).collect();
    format!("[{}]", x.join(","))
}

fn report(en: &Engine, secs: f64) -> String {
    let o = &en.out;
    let s = &en.sv.st;
    let mut r = String::new();
    let _ = write!(
        r,
        "{{\"complete\":{},\"done\":{},\"infeasible\":{},\"violating\":{},\"branches\":{},\"forks\":{},\"steps\":{},\"max_steps\":{},\"checks\":{},\"symbolic_checks\":{},\"queries\":{},\"solved\":{},\"cache_hits\":{},\"model_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"seconds\":{:.3},",
        o.complete, o.done, o.infeasible, o.violating, o.branches, o.forks, o.steps, o.max_steps, o.checks, o.symchecks, s.queries, s.solved, s.cache_hits, s.model_hits, s.sat, s.unsat, s.unknown, s.time, s.max_time, secs
    );
    let w: Vec<String> = o.why_incomplete.iter().map(|(k, n)| format!("[{},{}]", esc(k), n)).collect();
    let _ = write!(r, "\"why\":[{}],", w.join(","));
    let v: Vec<String> = o
        .viols
        .values()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|x| esc(x)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"count\":{},\"stack\":[{}],\"inputs\":{},\"obs\":{}}}", esc(&v.kind), esc(&v.msg), v.count, st.join(","), ins(&v.inputs), nums(&v.obs))
        })
        .collect();
    let _ = write!(r, "\"violations\":[{}],", v.join(","));
    let c: Vec<String> = o.covers.iter().map(|(k, n)| format!("[{},{}]", k, n)).collect();
    let _ = write!(r, "\"covers\":[{}],", c.join(","));
    let sm: Vec<String> = o.samples.iter().map(|(i, ob)| format!("{{\"inputs\":{},\"obs\":{}}}", ins(i), nums(ob))).collect();
    let _ = write!(r, "\"samples\":[{}],", sm.join(","));
    let mut fs = vec![];
    for (i, f) in en.m.funcs.iter().enumerate() {
        if en.fcount[i] > 0 {
            let cov = en.bcov[i].iter().filter(|x| **x).count();
            fs.push(format!("[{},{},{},{}]", esc(&f.name), en.fcount[i], cov, f.blocks.len()));
        }
    }
    let _ = write!(r, "\"functions\":[{}]}}", fs.join(","));
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut jobs = 1;
    let mut secs = 600.0;
    let mut nofmt = false;
    let mut steps = 30_000_000u64;
    let mut out = String::new();
    let mut pos = vec![];
    let mut samples = 24;
    let mut grace = 20.0;
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--jobs" => {
                i += 1;
                jobs = a[i].parse().unwrap()
            }
            "--time" => {
                i += 1;
                secs = a[i].parse().unwrap()
            }
            "--steps" => {
                i += 1;
                steps = a[i].parse().unwrap()
            }
            "--samples" => {
                i += 1;
                samples = a[i].parse().unwrap()
            }
            "--grace" => {
                i += 1;
                grace = a[i].parse().unwrap()
            }
            "--out" => {
                i += 1;
                out = a[i].clone()
            }
            "--nofmt" => nofmt = true,
            x => pos.push(x.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&pos[0]).expect("read ll");
    let m = ir::Module::parse(&text);
    drop(text);
    let deadline = t0 + Duration::from_secs_f64(secs);
    let cfg = Cfg { nofmt, step_limit: steps, max_samples: samples, mux_limit: 1024, trace: false };
    let mut en = Engine::new(m, cfg, deadline);
    let st = en.init(&pos[1]);
    en.work.push(st);
    // Depth-first. While worker slots are free, a process forks and gives away every other pending path.
    use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    let cell = |k: usize| unsafe { &*(shared.add(64 * k) as *const AtomicI32) };
    let (slots, viol, fail, part) = (cell(0), cell(1), cell(2), cell(3));
    slots.store(jobs as i32 - 1, SeqCst);
    let dir = format!("{}.parts.{}", out, std::process::id());
    if jobs > 1 {
        let _ = std::fs::create_dir_all(&dir);
    }
    let mut me = 0; // 0: the root process
    let mut kids: Vec<i32> = vec![];
    let mut start = t0;
    let mut last_fork = Instant::now();
    let mut grace_end: Option<Instant> = None;
    while let Some(s) = en.work.pop() {
        en.run(s);
        if !en.out.viols.is_empty() {
            viol.store(1, SeqCst);
        }
        if viol.load(SeqCst) == 1 {
            let g = *grace_end.get_or_insert(Instant::now() + Duration::from_secs_f64(grace));
            if Instant::now() > g && !en.work.is_empty() {
                en.out.complete = false;
                *en.out.why_incomplete.entry("stopped after violation".into()).or_insert(0) += 1;
                break;
            }
        }
        if Instant::now() > deadline {
            if !en.work.is_empty() {
                en.out.complete = false;
                *en.out.why_incomplete.entry("time limit".into()).or_insert(0) += 1;
            }
            break;
        }
        if en.work.len() >= 2 && slots.load(SeqCst) > 0 && last_fork.elapsed() > Duration::from_millis(30) {
            if slots.fetch_sub(1, SeqCst) <= 0 {
                slots.fetch_add(1, SeqCst);
                continue;
            }
            let id = part.fetch_add(1, SeqCst) + 1;
            let all: Vec<State> = en.work.drain(..).collect();
            let (mut keep, mut give) = (vec![], vec![]);
            for (k, s) in all.into_iter().enumerate() {
                if k % 2 == 0 {
                    keep.push(s)
                } else {
                    give.push(s)
                }
            }
            let pid = unsafe { fork() };
            if pid == 0 {
                me = id;
                kids.clear();
                drop(keep);
                en.work = give;
                en.out = Out { complete: true, ..Default::default() };
                en.sv.st = Default::default();
                en.sv.fresh();
                for f in en.fcount.iter_mut() {
                    *f = 0;
                }
                start = Instant::now();
            } else if pid < 0 {
                slots.fetch_add(1, SeqCst);
                en.work = keep;
                en.work.extend(give);
            } else {
                kids.push(pid);
                drop(give);
                en.work = keep;
            }
            last_fork = Instant::now();
        }
    }
    let r = report(&en, start.elapsed().as_secs_f64());
    if me != 0 {
        if std::fs::write(format!("{}/{}.json", dir, me), r).is_err() {
            fail.store(1, SeqCst);
        }
        slots.fetch_add(1, SeqCst);
        for k in &kids {
            let mut st = 0;
            unsafe { waitpid(*k, &mut st, 0) };
            if st != 0 {
                fail.store(1, SeqCst);
            }
        }
        unsafe { _exit(0) }
    }
    slots.fetch_add(1, SeqCst);
    for k in &kids {
        let mut st = 0;
        unsafe { waitpid(*k, &mut st, 0) };
        if st != 0 {
            fail.store(1, SeqCst);
        }
    }
    let mut parts = vec![r];
    let mut ok = fail.load(SeqCst) == 0;
    for id in 1..=part.load(SeqCst) {
        match std::fs::read_to_string(format!("{}/{}.json", dir, id)) {
            Ok(s) => parts.push(s),
            // a fork that failed leaves no part
            _ => ok = false,
        }
    }
    if jobs > 1 {
        let _ = std::fs::remove_dir_all(&dir);
    }
    if !ok {
        eprintln!("symir: a worker died");
        std::process::exit(3);
    }
    emit(&out, &format!("[{}]", parts.join(",")));
}

fn emit(out: &str, s: &str) {
    if out.is_empty() {
        println!("{}", s);
    } else {
        std::fs::write(out, s).expect("write out");
    }
}
