//! Runs the check of one property.
//!
//! `run` starts a worker process, so that a case that kills the process (a
//! stack overflow, an abort) is found again, made small and reported.

use serde_json::{json, Value};
use std::{
    fs,
    io::Write as _,
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{exit, Child, Command, ExitStatus, Stdio},
    time::{Duration, Instant},
};
use verif_pbt::{engine::*, props::literal, with_prop};

struct Args {
    words: Vec<String>,
}
impl Args {
    fn get(&self, name: &str) -> Option<&str> {
        let i = self.words.iter().position(|w| w == name)?;
        self.words.get(i + 1).map(|s| &s[..])
    }
    fn num(&self, name: &str, default: u64) -> u64 {
        match self.get(name) {
            None => default,
            Some(v) => v.parse().unwrap_or_else(|_| fail(&format!("bad number for {}: {}", name, v))),
        }
    }
}

fn fail(msg: &str) -> ! {
    eprintln!("check error: {}", msg);
    exit(2)
}

fn main() {
    let words: Vec<String> = std::env::args().collect();
    let args = Args { words };
    let cmd = args.words.get(1).cloned().unwrap_or_default();
    let id = args.words.get(2).cloned().unwrap_or_default();
    match &cmd[..] {
        "run" => parent(&id, &args),
        "worker" => with_prop!(&id[..], worker(&args)),
        "probe" => with_prop!(&id[..], probe(&args)),
        "replay" => replay(&id, &args),
        "list" => (1..=25).for_each(|i| println!("C{:02}", i)),
        _ => fail("usage: verif-pbt run|replay <property> ..."),
    }
}

// -------------------------------------------------------------------- worker

fn corpus(dir: &str, id: &str) -> Vec<String> {
    let mut files: Vec<PathBuf> = match fs::read_dir(Path::new(dir).join(id)) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => vec![],
    };
    files.retain(|f| f.extension().map_or(false, |e| e == "json"));
    files.sort();
    files.iter().map(|f| fs::read_to_string(f).unwrap()).map(|t| case_of(&t).to_string()).collect()
}

/// The case in a replay file, or in a file with nothing but the case.
fn case_of(text: &str) -> Value {
    let v: Value = serde_json::from_str(text).unwrap_or_else(|e| fail(&format!("bad case: {}", e)));
    match v.get("case") {
        Some(c) if v.get("property").is_some() => c.clone(),
        _ => v,
    }
}

fn config(args: &Args, quick: u64, thorough: u64) -> RunCfg {
    let tier = (args.get("--tier") == Some("thorough")) as u8;
    let cases = args.num("--cases", if tier == 0 { quick } else { thorough });
    RunCfg {
        seed: args.num("--seed", 1),
        tier,
        threads: args.num("--threads", 8) as usize,
        cases,
        slots: args.get("--slots").map(|p| fs::File::create(p).unwrap()),
        first: args.get("--first").map(PathBuf::from),
        until: args.get("--soft").map(|_| Instant::now() + Duration::from_secs(args.num("--soft", 0))),
        regress: vec![],
    }
}

/// So that allocating without end ends in a failed allocation, not in the
/// sandbox running out of memory.
fn limit_memory(gib: u64) {
    let r = libc::rlimit { rlim_cur: gib << 30, rlim_max: gib << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
}

fn worker<P: Prop>(args: &Args) {
    install_panic_hook();
    if P::ID != "C17" {
        limit_memory(14);
    }
    let mut cfg = config(args, P::CASES.0, P::CASES.1);
    if let Some(dir) = args.get("--corpus") {
        cfg.regress = corpus(dir, P::ID);
    }
    let (st, f) = if P::ID == "C17" {
        match literal::run(&cfg) {
            Ok(r) => r,
            Err(literal::Unusable(e)) => fail(&e),
        }
    } else {
        run::<P>(&cfg)
    };
    let samples: Vec<Value> = st.samples.iter().map(|s| serde_json::from_str(&s.1).unwrap()).collect();
    let out = json!({
        "evaluations": st.evaluations,
        "discarded": st.discarded,
        "comparisons": st.comparisons,
        "enumerated": st.fixed,
        "regressions": st.regress,
        "distinct_nontrivial": st.nontrivial.len(),
        "labels": st.labels.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
        "samples": samples,
        "slowest_case_s": st.slowest.0,
        "slowest_case": st.slowest.1,
        "rule": P::RULE,
        "assumptions": P::assumptions(),
        "failure": f.map(|f| json!({
            "message": f.message,
            "case": serde_json::from_str::<Value>(&f.case_json).unwrap(),
            "choices": f.choices,
        })),
    });
    fs::write(args.get("--out").unwrap(), out.to_string()).unwrap();
}

// --------------------------------------------------------------------- probe

/// Runs one case: a number of a run, choices, or a case in a file. Prints the
/// verdict; exits with 0 if the check held and 1 if not.
fn probe<P: Prop>(args: &Args) {
    install_panic_hook();
    if P::ID != "C17" {
        limit_memory(6);
    }
    if args.get("--case").is_some() {
        // A schedule is not part of a case: try many.
        verif_pbt::props::threads::ROUNDS.store(500, std::sync::atomic::Ordering::Relaxed);
    }
    let tier = (args.get("--tier") == Some("thorough")) as u8;
    let (case, log): (P::Case, Vec<u64>) = if let Some(f) = args.get("--case") {
        let t = fs::read_to_string(f).unwrap_or_else(|e| fail(&format!("{}: {}", f, e)));
        (serde_json::from_value(case_of(&t)).unwrap_or_else(|e| fail(&format!("{}: {}", f, e))), vec![])
    } else if let Some(f) = args.get("--choices") {
        let c: Vec<u64> = serde_json::from_str(&fs::read_to_string(f).unwrap()).unwrap();
        let mut s = Source::replay(c, tier);
        (P::gen(&mut s), s.log)
    } else {
        let n = args.num("--number", 0);
        if n >= FIXED_BASE {
            let mut all: Vec<P::Case> = match args.get("--corpus") {
                Some(d) => corpus(d, P::ID).iter().map(|c| serde_json::from_str(c).unwrap()).collect(),
                None => vec![],
            };
            all.extend(P::fixed());
            (all.into_iter().nth((n - FIXED_BASE) as usize).unwrap_or_else(|| fail("no such case")), vec![])
        } else {
            let mut s = Source::random(case_seed(P::ID, args.num("--seed", 1), n), tier);
            (P::gen(&mut s), s.log)
        }
    };
    if let Some(o) = args.get("--dump") {
        let v = json!({ "case": serde_json::to_value(&case).unwrap(), "choices": log });
        fs::write(o, v.to_string()).unwrap();
    }
    // On a stack as large as that of a worker.
    let (v, _) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || run_check::<P>(&case))
            .unwrap()
            .join()
            .unwrap()
    });
    match v {
        Ok(()) => println!("held"),
        Err(m) => {
            println!("broken: {}", m);
            exit(1)
        }
    }
}

// -------------------------------------------------------------------- parent

/// Counts time by its own steps, so that neither a suspended sandbox nor a
/// clock that jumps takes time away from a child.
struct Ticker {
    last: Instant,
    passed: Duration,
}
impl Ticker {
    fn new() -> Ticker {
        Ticker { last: Instant::now(), passed: Duration::ZERO }
    }
    fn step(&mut self) -> Duration {
        std::thread::sleep(Duration::from_millis(15));
        let now = Instant::now();
        self.passed += (now - self.last).min(Duration::from_millis(200));
        self.last = now;
        self.passed
    }
}

/// Processor time of a thread of a child, or of all of it.
fn cpu_time(pid: u32, tid: Option<u64>) -> Option<Duration> {
    let path = match tid {
        Some(t) => format!("/proc/{}/task/{}/stat", pid, t),
        None => format!("/proc/{}/stat", pid),
    };
    let t = fs::read_to_string(path).ok()?;
    let rest: Vec<&str> = t[t.rfind(')')? + 1..].split_whitespace().collect();
    let ticks = rest.get(11)?.parse::<u64>().ok()? + rest.get(12)?.parse::<u64>().ok()?;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) }.max(1) as u64;
    Some(Duration::from_millis(ticks * 1000 / hz))
}

/// Waits until the child ends, or has used as much processor time as `limit`,
/// or has been there for five times as long.
fn wait(mut c: Child, limit: Duration) -> Option<ExitStatus> {
    let mut clock = Ticker::new();
    let mut looked = Duration::ZERO;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        let now = clock.step();
        if now - looked > Duration::from_millis(500) {
            looked = now;
            if now > limit * 5 || cpu_time(c.id(), None).unwrap_or(now) > limit {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
        }
    }
}

enum End {
    Exited(ExitStatus),
    OutOfTime,
    /// A thread has been busy with one case for too long.
    Stalled,
}

/// No case takes more than some twenty seconds of processor time.
const STALL: Duration = Duration::from_secs(120);
/// Nor does any case wait for anything.
const STALL_IDLE: Duration = Duration::from_secs(300);

fn watch(mut c: Child, limit: Duration, slots: &Path, threads: usize) -> End {
    let start = Instant::now();
    let mut clock = Ticker::new();
    // The case, since when, and the processor time then.
    let mut seen: Vec<(u64, Duration, Duration)> = vec![(IDLE, Duration::ZERO, Duration::ZERO); threads];
    let mut looked = Duration::ZERO;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return End::Exited(s);
        }
        let now = clock.step();
        let mut end = None;
        if start.elapsed() > limit {
            end = Some(End::OutOfTime);
        } else if now - looked > Duration::from_secs(1) {
            looked = now;
            let raw = fs::read(slots).unwrap_or_default();
            for (t, s) in seen.iter_mut().enumerate() {
                let Some((n, tid)) = slot_of(&raw, t) else { continue };
                let cpu = cpu_time(c.id(), Some(tid));
                if n != s.0 {
                    *s = (n, now, cpu.unwrap_or_default());
                } else if n != IDLE {
                    let used = cpu.map_or(Duration::ZERO, |c| c.saturating_sub(s.2));
                    if used > STALL || now - s.1 > STALL_IDLE {
                        end = Some(End::Stalled);
                    }
                }
            }
        }
        if let Some(e) = end {
            let _ = c.kill();
            let _ = c.wait();
            return e;
        }
    }
}

/// The case and the thread in a slot.
fn slot_of(raw: &[u8], t: usize) -> Option<(u64, u64)> {
    let b = raw.get(t * 16..t * 16 + 16)?;
    Some((u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap())))
}

fn spawn(exe: &Path, words: &[&str], quiet: bool) -> Child {
    let mut c = Command::new(exe);
    c.args(words).stdin(Stdio::null());
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    c.spawn().unwrap_or_else(|e| fail(&format!("{}: {}", exe.display(), e)))
}

/// Whether a process ended by itself because of what it ran.
fn crashed(s: &ExitStatus) -> bool {
    matches!(s.signal(), Some(libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE))
}

struct Found {
    message: String,
    case: Value,
}

/// Finds the case at which the worker ended (`status`), or came to a
/// standstill (`None`).
fn recover(
    exe: &Path,
    id: &str,
    common: &[&str],
    dir: &Path,
    slots: &Path,
    threads: usize,
    status: Option<&ExitStatus>,
) -> Option<Found> {
    let bad = |s: Option<ExitStatus>| match status {
        Some(_) => s.map_or(false, |s| crashed(&s)),
        // Going on without end may also end in a failed allocation.
        None => s.map_or(true, |s| crashed(&s)),
    };
    let message = match status {
        Some(s) => format!("the process was ended: {}", s),
        None => "this goes on without end".to_string(),
    };
    let raw = fs::read(slots).unwrap_or_default();
    let path = |n: &str| dir.join(n).to_string_lossy().into_owned();
    let (dump, cand) = (path("dump.json"), path("choices.json"));
    for t in 0..threads {
        let Some((n, _)) = slot_of(&raw, t) else { continue };
        if n == IDLE {
            continue;
        }
        let number = n.to_string();
        let mut words = vec!["probe", id, "--number", &number, "--dump", &dump];
        words.extend(common);
        let st = wait(spawn(exe, &words, true), Duration::from_secs(200));
        if !bad(st) {
            continue;
        }
        let v: Value = serde_json::from_str(&fs::read_to_string(&dump).unwrap()).unwrap();
        let mut best = v["case"].clone();
        let choices: Vec<u64> = serde_json::from_value(v["choices"].clone()).unwrap();
        if !choices.is_empty() {
            let deadline = Instant::now() + Duration::from_secs(60);
            let mut words = vec!["probe", id, "--choices", &cand, "--dump", &dump];
            words.extend(common);
            shrink(choices, 2000, deadline, |c| {
                fs::write(&cand, serde_json::to_string(c).unwrap()).unwrap();
                let t = if status.is_some() { 20 } else { 8 };
                if !bad(wait(spawn(exe, &words, true), Duration::from_secs(t))) {
                    return None;
                }
                let v: Value = serde_json::from_str(&fs::read_to_string(&dump).unwrap()).ok()?;
                if v["case"].to_string().len() <= best.to_string().len() {
                    best = v["case"].clone();
                }
                serde_json::from_value(v["choices"].clone()).ok()
            });
        }
        return Some(Found { message, case: best });
    }
    None
}

fn parent(id: &str, args: &Args) {
    let start = Instant::now();
    let tier = args.get("--tier").unwrap_or("quick").to_string();
    let seed = args.num("--seed", 1);
    let threads = args.num("--threads", 8) as usize;
    let limit = Duration::from_secs(args.num("--limit", 800));
    let dir = PathBuf::from(std::env::var("VERIF_RUN_DIR").unwrap_or_else(|_| fail("VERIF_RUN_DIR is not set")));
    fs::create_dir_all(&dir).unwrap();
    let replays = args.get("--replays").unwrap_or("replays").to_string();
    let me = std::env::current_exe().unwrap();
    // The same check by another build of the code, with other cases.
    let cases = args.get("--cases").map(str::to_string);
    let mut builds = vec![(me, seed, "debug", cases.clone())];
    if let Some(o) = args.get("--also") {
        builds.push((PathBuf::from(o), seed.wrapping_add(0x5eed), "release", cases.clone()));
    }
    if let Some(o) = args.get("--plain") {
        let n = if tier == "thorough" { "2000000" } else { "150000" };
        builds.push((PathBuf::from(o), seed.wrapping_add(0xb1a5), "plain", cases.or(Some(n.into()))));
    }
    let mut parts: Vec<Value> = Vec::new();
    let mut found: Option<Found> = None;
    'builds: for (k, (exe, seed, name, cases)) in builds.iter().enumerate() {
        let path = |n: &str| dir.join(n).to_string_lossy().into_owned();
        let (slots, out, first) = (path("slots"), path("out.json"), path("first.json"));
        let (seed_s, threads_s) = (seed.to_string(), threads.to_string());
        let mut common = vec!["--tier", &tier[..], "--seed", &seed_s];
        if let Some(c) = args.get("--corpus") {
            common.extend(["--corpus", c]);
        }
        let mut attempt = 0;
        loop {
            attempt += 1;
            for f in [&slots, &out, &first] {
                let _ = fs::remove_file(f);
            }
            let left = limit.checked_sub(start.elapsed()).unwrap_or_default();
            // On a slow machine, fewer cases rather than no answer.
            let soft = left.as_secs() * if k + 1 == builds.len() { 8 } else { 5 } / 10;
            let soft_s = soft.to_string();
            let mut words = vec!["worker", id, "--slots", &slots, "--first", &first, "--out", &out];
            words.extend(["--threads", &threads_s, "--soft", &soft_s]);
            words.extend(&common);
            if let Some(n) = cases {
                words.extend(["--cases", n]);
            }
            let end = watch(spawn(exe, &words, false), left, Path::new(&slots), threads);
            if !matches!(end, End::Exited(s) if s.success()) {
                if let Ok(t) = fs::read_to_string(&first) {
                    if let Ok(v) = serde_json::from_str::<Value>(&t) {
                        found = Some(Found { message: v["message"].as_str().unwrap_or("").into(), case: v["case"].clone() });
                        break 'builds;
                    }
                }
            }
            let status = match end {
                End::Exited(s) if s.success() => break,
                End::Exited(s) if crashed(&s) => Some(s),
                End::Exited(s) => fail(&format!("the worker failed: {}", s)),
                End::Stalled => None,
                End::OutOfTime => fail("out of time; nothing is known"),
            };
            found = recover(exe, id, &common, &dir, Path::new(&slots), threads, status.as_ref());
            if found.is_some() {
                break 'builds;
            }
            if attempt == 2 {
                let what = status.map_or("a standstill".into(), |s| s.to_string());
                fail(&format!("the worker ended twice with {}, but no case does that again", what));
            }
        }
        let mut v: Value = serde_json::from_str(&fs::read_to_string(&out).unwrap()).unwrap();
        v["build"] = json!(name);
        v["seed"] = json!(seed);
        let f = v["failure"].take();
        parts.push(v);
        if !f.is_null() {
            found = Some(Found { message: f["message"].as_str().unwrap_or("").into(), case: f["case"].clone() });
            break;
        }
    }
    // Evidence.
    let sum = |k: &str| parts.iter().map(|p| p[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut labels = serde_json::Map::new();
    for p in &parts {
        for (k, v) in p["labels"].as_object().unwrap() {
            let n = labels.get(k).and_then(|n| n.as_u64()).unwrap_or(0);
            labels.insert(k.clone(), json!(n + v.as_u64().unwrap()));
        }
    }
    let first = parts.first().cloned().unwrap_or(json!({}));
    let evidence = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations"),
            "distinct_nontrivial": sum("distinct_nontrivial"),
            "rule": first.get("rule").cloned().unwrap_or(json!("")),
            "samples": first.get("samples").cloned().unwrap_or(json!([])),
            "enumerated_cases": sum("enumerated"),
            "regression_cases": sum("regressions"),
            "discarded": sum("discarded"),
            "comparisons": sum("comparisons"),
            "labels": labels,
            "builds": parts.iter().map(|p| json!({
                "build": p["build"], "seed": p["seed"], "evaluations": p["evaluations"],
                "slowest_case_s": p["slowest_case_s"], "slowest_case": p["slowest_case"],
            })).collect::<Vec<_>>(),
        },
        "assumptions": first.get("assumptions").cloned().unwrap_or(json!([])),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": found.is_some() as u32,
    });
    if let Some(p) = args.get("--evidence") {
        fs::write(p, format!("{:#}\n", evidence)).unwrap_or_else(|e| fail(&format!("{}: {}", p, e)));
    }
    if let Some(f) = found {
        report(id, &f, &replays);
    }
    let (ev, di) = (sum("evaluations"), sum("discarded"));
    if di * 10 > ev * 9 {
        fail(&format!("{} of {} cases were discarded; nothing is known", di, ev));
    }
    println!(
        "{}: held on {} cases ({} distinct and non-trivial), {:.1} s",
        id,
        ev,
        sum("distinct_nontrivial"),
        start.elapsed().as_secs_f64()
    );
}

fn report(id: &str, f: &Found, replays: &str) -> ! {
    fs::create_dir_all(replays).unwrap_or_else(|e| fail(&format!("{}: {}", replays, e)));
    let h = str_hash(&f.case.to_string());
    let path = Path::new(replays).join(format!("{}-{:016x}.json", id, h));
    let v = json!({ "property": id, "message": f.message, "case": f.case });
    fs::write(&path, format!("{:#}\n", v)).unwrap_or_else(|e| fail(&format!("{}: {}", path.display(), e)));
    let short: String = f.message.chars().take(1500).collect();
    println!("{}", short);
    let case: String = f.case.to_string().chars().take(1500).collect();
    println!("case: {}", case);
    println!("VIOLATION property={} replay={}", id, path.display());
    let _ = std::io::stdout().flush();
    exit(1)
}

/// Runs the case of a replay file: exits with 1 if it still breaks the
/// property, 0 if not.
fn replay(id: &str, args: &Args) {
    let file = args.words.get(3).cloned().unwrap_or_else(|| fail("usage: replay <property> <file>"));
    let me = std::env::current_exe().unwrap();
    let st = wait(spawn(&me, &["probe", id, "--case", &file], false), Duration::from_secs(300));
    match st {
        None => fail("out of time"),
        Some(s) if s.success() => {}
        Some(s) if s.code() == Some(1) || crashed(&s) => {
            println!("VIOLATION property={} replay={}", id, file);
            exit(1)
        }
        Some(s) => fail(&format!("the probe ended with {}", s)),
    }
}
