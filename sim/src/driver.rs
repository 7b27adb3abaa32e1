//! Seeds in, verdicts out: workers, minimisation, replay files, evidence.
use crate::case::{shrink, Case, Item};
use crate::ctx::{Ctx, Verdict};
use crate::{props, Prop};
use simrt::rng::{hash128, mix, Rng};
use simrt::shm::{self, st, NEDGE, NSTAT};
use simrt::sys;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

/// Re-executes itself without address-space randomisation.
pub fn prepare() {
    pin_addresses();
    dictionary();
}
fn pin_addresses() {
    // Symbolising a backtrace for every simulated abort would cost more than the runs.
    std::env::set_var("RUST_BACKTRACE", "0");
    const NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        let p = sys::personality(0xffffffff);
        if p >= 0 && p as u64 & NO_RANDOMIZE == 0 && std::env::var_os("ALGEO_SIM_PINNED").is_none() {
            if sys::personality(p as u64 | NO_RANDOMIZE) >= 0 {
                use std::os::unix::process::CommandExt;
                let me = std::env::current_exe().unwrap();
                let e = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("ALGEO_SIM_PINNED", "1").exec();
                eprintln!("note: {}", e);
            }
        }
    }
}
fn find(id: &str) -> Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("HARNESS ERROR: no property {:?}", id);
            std::process::exit(2)
        }
    }
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn home() -> String {
    std::env::var("VERIF_HOME").unwrap_or_else(|_| "/verif".into())
}
fn case_rng(id: &str, seed: u64, index: u64) -> Rng {
    let h = hash128(id.as_bytes()).0;
    Rng::sub(mix(seed ^ h), index)
}
fn map_edges() -> *mut u8 {
    sys::map_shared(NEDGE)
}

#[repr(C)]
struct Board {
    next_violation: AtomicU64,
    harness_errors: AtomicU64,
}
/// What a worker hands back, as text.
#[derive(Default)]
struct Report {
    runs: u64,
    discarded: u64,
    nontrivial: u64,
    stats: Vec<u64>,
    children: u64,
    baselines: u64,
    crashed: u64,
    logs: Vec<u64>,
    samples: Vec<String>,
    viol: Option<(u64, String, String, String)>,
    stopped_early: bool,
}

fn worker(p: &Prop, seed: u64, w: u64, workers: u64, total: u64, limit_s: f64, board: &Board, out: &str) {
    let mut ctx = Ctx::default();
    let mut rep = Report::default();
    let start = Instant::now();
    let mut i = w;
    let mut seen = HashSet::new();
    while i < total {
        if i >= board.next_violation.load(SeqCst) {
            break;
        }
        if start.elapsed().as_secs_f64() > limit_s {
            rep.stopped_early = true;
            break;
        }
        let mut r = case_rng(p.id, seed, i);
        let case = (p.gen)(&mut ctx, &mut r);
        let mut v = (p.run)(&mut ctx, &case);
        // The one verdict that real time has a part in: the machine may just have been slow.
        if matches!(&v.viol, Some((c, m)) if c == "hang" || m.contains("made no progress")) {
            v = (p.run)(&mut ctx, &case);
        }
        rep.runs += 1;
        if v.discarded {
            rep.discarded += 1;
        } else {
            if v.nontrivial && seen.insert(v.log) {
                rep.nontrivial += 1;
                rep.logs.push(v.log);
            }
            if rep.samples.len() < 2 && v.nontrivial {
                rep.samples.push(case.encode());
            }
        }
        if let Some((class, msg)) = v.viol {
            rep.viol = Some((i, class, msg, case.encode()));
            board.next_violation.fetch_min(i, SeqCst);
            break;
        }
        i += workers;
    }
    rep.stats = ctx.totals.stats.to_vec();
    rep.children = ctx.totals.children;
    rep.baselines = ctx.totals.baselines;
    rep.crashed = ctx.totals.crashed_children;
    write_report(out, &rep);
}
fn write_report(path: &str, r: &Report) {
    let mut s = format!(
        "{} {} {} {} {} {} {}\n",
        r.runs, r.discarded, r.nontrivial, r.children, r.baselines, r.crashed, r.stopped_early as u8
    );
    s += &r.stats.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    s.push('\n');
    s += &r.logs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    s.push('\n');
    for x in &r.samples {
        s += &format!("\x1eS\x1f{}", x);
    }
    if let Some((i, c, m, t)) = &r.viol {
        s += &format!("\x1eV\x1f{}\x1f{}\x1f{}\x1f{}", i, c, m, t);
    }
    std::fs::write(path, s).expect("write report");
}
fn read_report(path: &str) -> Option<Report> {
    let s = std::fs::read_to_string(path).ok()?;
    let mut parts = s.split('\x1e');
    let mut head = parts.next()?.lines();
    let a: Vec<u64> = head.next()?.split(' ').map(|x| x.parse().unwrap()).collect();
    let mut r = Report {
        runs: a[0],
        discarded: a[1],
        nontrivial: a[2],
        children: a[3],
        baselines: a[4],
        crashed: a[5],
        stopped_early: a[6] != 0,
        ..Report::default()
    };
    r.stats = head.next()?.split(' ').map(|x| x.parse().unwrap()).collect();
    r.logs = head.next().unwrap_or("").split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    for p in parts {
        let f: Vec<&str> = p.split('\x1f').collect();
        if f[0] == "S" {
            r.samples.push(f[1].into());
        } else {
            r.viol = Some((f[1].parse().unwrap(), f[2].into(), f[3].into(), f[4].into()));
        }
    }
    Some(r)
}
fn fork_process(f: impl FnOnce()) -> i32 {
    let _ = std::io::stdout().flush();
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        unsafe { sys::prctl(1, 9, 0, 0, 0) };
        f();
        let _ = std::io::stdout().flush();
        unsafe { sys::_exit(0) }
    }
    pid
}
fn wait(pid: i32) -> bool {
    let mut s = 0;
    loop {
        let r = unsafe { sys::waitpid(pid, &mut s, 0) };
        if r == pid {
            return s == 0;
        }
    }
}

/// The short string literals of the library's source: values that an environment variable may be
/// compared with. They only ever steer what is tried.
fn dictionary() {
    fn walk(dir: &std::path::Path, out: &mut std::collections::BTreeSet<String>) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                walk(&e.path(), out);
            } else if e.path().extension().map_or(false, |x| x == "rs") {
                for line in std::fs::read_to_string(e.path()).unwrap_or_default().lines() {
                    let parts: Vec<&str> = line.split('"').collect();
                    for w in parts.iter().skip(1).step_by(2) {
                        if (1..=24).contains(&w.len()) && !w.contains(|c: char| c.is_control() || "{}\\".contains(c)) {
                            out.insert(w.to_string());
                        }
                    }
                }
            }
        }
    }
    let mut words = std::collections::BTreeSet::new();
    walk(std::path::Path::new("/repo/src"), &mut words);
    let words = words.into_iter().filter_map(|w| std::ffi::CString::new(w).ok()).collect();
    let _ = simrt::hooks::DICTIONARY.set(words);
}

pub fn check(id: &str) -> i32 {
    let p = find(id);
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let total = env_u64("VERIF_RUNS", if thorough { p.thorough } else { p.quick });
    let limit = env_u64("VERIF_LIMIT_S", if thorough { 780 } else { 90 }) as f64;
    let workers = env_u64("VERIF_WORKERS", 8).max(1);
    let dir = format!("{}/.build/run-{}-{}", home(), id, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch");
    println!("{}: seed {} tier {} runs {} workers {}", id, seed, tier, total, workers);
    let edges = map_edges();
    let board = unsafe { &*(sys::map_shared(64) as *const Board) };
    board.next_violation.store(u64::MAX, SeqCst);
    let mut pids = vec![];
    for w in 0..workers {
        let out = format!("{}/w{}", dir, w);
        let p = &p;
        pids.push(fork_process(move || {
            shm::init(edges);
            worker(p, seed, w, workers, total, limit, board, &out)
        }));
    }
    let mut broken = false;
    for pid in pids {
        broken |= !wait(pid);
    }
    let mut all = Report { stats: vec![0; NSTAT], ..Report::default() };
    let mut logs = HashSet::new();
    for w in 0..workers {
        let Some(r) = read_report(&format!("{}/w{}", dir, w)) else {
            broken = true;
            continue;
        };
        all.runs += r.runs;
        all.discarded += r.discarded;
        all.children += r.children;
        all.baselines += r.baselines;
        all.crashed += r.crashed;
        all.stopped_early |= r.stopped_early;
        for i in 0..NSTAT {
            all.stats[i] += r.stats[i];
        }
        logs.extend(r.logs);
        if all.samples.len() < 3 {
            all.samples.extend(r.samples.into_iter().take(1));
        }
        if let Some(v) = r.viol {
            if all.viol.as_ref().map_or(true, |b| v.0 < b.0) {
                all.viol = Some(v);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let search_s = t0.elapsed().as_secs_f64();
    if broken && all.viol.is_none() {
        println!("HARNESS ERROR: a worker failed");
        return 2;
    }
    let mut code = 0;
    if let Some((i, class, msg, text)) = all.viol.clone() {
        println!("seed index {}: {}: {}", i, class, msg);
        let path = minimise(&p, seed, i, &class, &msg, &text, edges);
        println!("VIOLATION property={} replay={}", id, path);
        code = 1;
    } else if all.discarded * 10 > all.runs * 9 {
        println!("HARNESS ERROR: {} of {} cases had to be discarded", all.discarded, all.runs);
        return 2;
    }
    // The client in ../sendsync, which shares every kind of value between threads, was rejected.
    if let Ok(why) = std::env::var("ALGEO_UNSENDABLE") {
        let dir = format!("{}/replays", home());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-sendsync.txt", dir, id);
        let first = why.lines().find(|l| l.contains("between threads safely")).unwrap_or("").to_string();
        std::fs::write(&path, format!("# {}\nproperty {}\nparam sendsync 1\n", first, id)).expect("replay file");
        println!("unsendable: {}", first);
        println!("VIOLATION property={} replay={}", id, path);
        code = 1;
    }
    let hit = unsafe { std::slice::from_raw_parts(edges, NEDGE) }.iter().filter(|x| **x != 0).count();
    write_evidence(&p, seed, &tier, &all, logs.len() as u64, hit, search_s, t0.elapsed().as_secs_f64(), code);
    println!(
        "{}: {} runs ({} discarded), {} child processes, {} distinct nontrivial, {} edges reached, {:.1} s",
        id,
        all.runs,
        all.discarded,
        all.children,
        logs.len(),
        hit,
        t0.elapsed().as_secs_f64()
    );
    code
}

/// Shrinks in a worker of its own and checks the result in a fresh process.
fn minimise(p: &Prop, seed: u64, index: u64, class: &str, msg: &str, text: &str, edges: *mut u8) -> String {
    let dir = format!("{}/replays", home());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.txt", dir, p.id, seed, index);
    let full = format!("{}/{}-{}-{}.full.txt", dir, p.id, seed, index);
    let header = |c: &str, m: &str| format!("# seed {} index {}\n# {}: {}\n", seed, index, c, m.replace('\n', " "));
    std::fs::write(&full, header(class, msg) + text).expect("replay file");
    let tmp = format!("{}.tmp", path);
    let _ = std::fs::remove_file(&tmp);
    let pid = fork_process(|| {
        shm::init(edges);
        let mut ctx = Ctx::default();
        let start = Instant::now();
        let orig = Case::decode(text).expect("case");
        let same = |v: &Verdict| matches!(&v.viol, Some((cl, _)) if cl == class);
        let mut c = orig.clone();
        let v = (p.run)(&mut ctx, &c);
        if same(&v) {
            // A schedule drawn during the run becomes an explicit one.
            if c.p("hot_pct") != 0 || c.p("spurious_pct") != 0 {
                let mut e = c.clone();
                e.items.retain(|i| i.tag != "switch");
                e.set("hot_pct", 0);
                e.set("hot_seed", 0);
                for (s, t) in &v.switches {
                    e.items.push(Item { tag: "switch".into(), v: vec![*s as i64, *t as i64] });
                }
                if same(&(p.run)(&mut ctx, &e)) {
                    c = e;
                }
            }
            let mut best = (class.to_string(), msg.to_string());
            let mut fails = |c: &Case| -> bool {
                if start.elapsed().as_secs() > 60 {
                    return false;
                }
                match (p.run)(&mut ctx, c).viol {
                    Some((cl, m)) if cl == class => {
                        std::fs::write(&tmp, header(&cl, &m) + &c.encode()).expect("replay file");
                        best = (cl, m);
                        true
                    }
                    _ => false,
                }
            };
            let small = shrink(c, 1500, &mut fails);
            std::fs::write(&tmp, header(&best.0, &best.1) + &small.encode()).expect("replay file");
        }
    });
    wait(pid);
    let again = |file: &str| {
        std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", file])
            .stdout(std::process::Stdio::null())
            .status()
            .map(|s| s.code() == Some(1))
            .unwrap_or(false)
    };
    if std::path::Path::new(&tmp).exists() && again(&tmp) {
        std::fs::rename(&tmp, &path).expect("rename");
        if let Ok(s) = std::fs::read_to_string(&path) {
            for l in s.lines().take(40) {
                println!("  {}", l);
            }
        }
        return path;
    }
    let _ = std::fs::remove_file(&tmp);
    println!("(minimised case not reproduced in a fresh process; keeping the case as found{})", if again(&full) { "" } else { ", which a fresh process does not reproduce either" });
    full
}

pub fn replay(file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        println!("HARNESS ERROR: cannot read {}", file);
        return 2;
    };
    let Some(c) = Case::decode(&s) else {
        println!("HARNESS ERROR: not a replay file");
        return 2;
    };
    let p = find(&c.prop);
    shm::init(map_edges());
    let v = (p.run)(&mut Ctx::default(), &c);
    match v.viol {
        Some((class, msg)) => {
            println!("{}: {}", class, msg);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        None => {
            println!("{}: held (log {:016x}{})", p.id, v.log, if v.discarded { ", case discarded" } else { "" });
            0
        }
    }
}
pub fn show(id: &str, index: u64) -> i32 {
    let p = find(id);
    shm::init(map_edges());
    let mut r = case_rng(p.id, env_u64("VERIF_SEED", 1), index);
    let mut ctx = Ctx::default();
    let c = (p.gen)(&mut ctx, &mut r);
    print!("{}", c.encode());
    0
}
/// Log hashes of seeds 0, step, 2 step, ...: compared between invocations to establish determinism.
pub fn selftest(id: &str, n: u64, step: u64) -> i32 {
    let p = find(id);
    shm::init(map_edges());
    let mut ctx = Ctx::default();
    let seed = env_u64("VERIF_SEED", 1);
    let rev = std::env::var_os("SELFTEST_REVERSE").is_some();
    let mut out: HashMap<u64, String> = HashMap::new();
    let mut idx: Vec<u64> = (0..n).map(|i| i * step).collect();
    if rev {
        idx.reverse();
    }
    for i in &idx {
        let mut r = case_rng(p.id, seed, *i);
        let c = (p.gen)(&mut ctx, &mut r);
        let v = (p.run)(&mut ctx, &c);
        let ch = hash128(c.encode().as_bytes()).0;
        out.insert(*i, format!("{} {:016x} {:016x} {}", i, ch, v.log, v.viol.map_or("".into(), |x| x.0)));
    }
    idx.sort();
    for i in idx {
        println!("{}", out[&i]);
    }
    0
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn write_evidence(p: &Prop, seed: u64, tier: &str, r: &Report, distinct: u64, edges: usize, search_s: f64, wall: f64, code: i32) {
    let fired: Vec<String> = (0..st::NAMES.len()).filter(|i| r.stats[*i] > 0).map(|i| format!("{}: {}", js(st::NAMES[i]), r.stats[i])).collect();
    let s = format!(
        r#"{{
 "property": {},
 "tier": {},
 "seed": {},
 "level": "exploration",
 "coverage": {{
  "evaluations": {},
  "distinct_nontrivial": {},
  "rule": {},
  "samples": [{}],
  "discarded_cases": {},
  "simulated_processes": {},
  "fault_free_reference_processes": {},
  "processes_that_died_or_exited_early": {},
  "seeds_per_hour": {},
  "simulated_steps": {},
  "simulated_seconds": {:.6},
  "happened": {{ {} }},
  "distinct_measure": "hash of the whole event log: every outcome, every context switch with its step",
{}  "stopped_by_time_limit": {},
  "real_components": {},
  "stubbed_components": {}
 }},
 "assumptions": [{}],
 "wall_s": {:.2},
 "violations": {}
}}
"#,
        js(p.id),
        js(if tier == "thorough" { "thorough" } else { "quick" }),
        seed,
        r.runs,
        distinct,
        js(p.rule),
        r.samples.iter().map(|x| js(&if x.len() > 1500 { let mut e = 1500; while !x.is_char_boundary(e) { e -= 1; } format!("{}... ({} bytes)", &x[..e], x.len()) } else { x.clone() })).collect::<Vec<_>>().join(", "),
        r.discarded,
        r.children,
        r.baselines,
        r.crashed,
        (r.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        r.stats[st::STEPS],
        r.stats[st::SIM_NS] as f64 / 1e9,
        fired.join(", "),
        if edges > 0 { format!("  \"library_and_generic_edges_reached\": {},\n  \"edges_instrumented\": {},\n", edges, simrt::hooks::guards()) } else { String::new() },
        r.stopped_early,
        js(p.real),
        js(p.stub),
        if edges > 0 { "\"one thread runs at a time, so memory is sequentially consistent\", \"the simulator's coefficient types, orders and reference models are right\"" } else { "\"the program writes through libc\"" },
        wall,
        if code == 1 { 1 } else { 0 }
    );
    let dir = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, p.id), s).expect("evidence");
}
