//! What a worker process knows: fault-free outcomes of single calls, each established in a
//! pristine child process, and running totals of what was simulated.
use simops::{AnyWorld, Op};
use simrt::calls::{Plan, Status};
use simrt::sched::{self, Config};
use simrt::shm::{self, st, End, RunOut, NSTAT};
use simrt::sites;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Base {
    pub status: Status,
    pub value: String,
    pub msg: String,
    pub callbacks: u64,
    pub steps: u64,
    pub allocs: u64,
    /// Accesses to static or thread-local memory; readings of the clock or the environment.
    pub hot: u64,
    pub env: u64,
    pub entropy: u64,
    pub requests: u64,
    /// Those for anything but entropy.
    pub rare_requests: u64,
    /// Occurrences of its callbacks and allocations, by place in the code.
    pub cb_sites: Vec<[u32; 3]>,
    pub al_sites: Vec<[u32; 3]>,
}
pub type Key = (usize, u64, u64, Op);

pub struct Ctx {
    /// Seed of the search, and how many worlds are used again and again.
    pub seed: u64,
    pub pool: u64,
    cache: HashMap<Key, Option<Arc<Base>>>,
    pub totals: Totals,
    pub suspects: Option<Arc<Vec<Key>>>,
}
impl Default for Ctx {
    fn default() -> Ctx {
        let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Ctx { seed, pool: if thorough { 1200 } else { 120 }, cache: HashMap::new(), totals: Totals::default(), suspects: None }
    }
}
pub struct Totals {
    pub stats: [u64; NSTAT],
    pub children: u64,
    pub baselines: u64,
    pub crashed_children: u64,
}
impl Default for Totals {
    fn default() -> Self {
        Totals { stats: [0; NSTAT], children: 0, baselines: 0, crashed_children: 0 }
    }
}

pub struct Verdict {
    /// (class, message) of the first violation seen.
    pub viol: Option<(String, String)>,
    pub discarded: bool,
    pub nontrivial: bool,
    /// Hash of the whole event log of the run.
    pub log: u64,
    pub switches: Vec<(u64, usize)>,
}
impl Verdict {
    pub fn ok(log: u64) -> Verdict {
        Verdict { viol: None, discarded: false, nontrivial: true, log, switches: vec![] }
    }
    pub fn discard() -> Verdict {
        Verdict { viol: None, discarded: true, nontrivial: false, log: 0, switches: vec![] }
    }
    pub fn bad(class: &str, msg: String) -> Verdict {
        Verdict { viol: Some((class.into(), msg)), discarded: false, nontrivial: true, log: 1, switches: vec![] }
    }
}
pub const BASE_CAP: u64 = 500_000;

/// The environment every baseline runs in.
pub fn plain_env() -> Config {
    Config { threads: 1, step_cap: BASE_CAP, entropy: 1, ..Config::default() }
}

impl Ctx {
    pub fn child(&mut self, f: impl FnOnce()) -> RunOut {
        let r = shm::run_child(f);
        self.totals.children += 1;
        for i in 0..NSTAT {
            self.totals.stats[i] += r.stats[i];
        }
        if !matches!(r.end, End::Exit(0)) {
            self.totals.crashed_children += 1;
        }
        if let End::Exit(c @ (98 | 99)) = r.end {
            let why = r.recs.iter().find(|x| x.starts_with(b"PANIC")).map(|x| String::from_utf8_lossy(x).into_owned());
            harness_error(&format!("panic inside the harness (child exit {}): {}", c, why.unwrap_or_default()));
        }
        r
    }
    pub fn base(&mut self, field: usize, size: u64, wseed: u64, op: Op) -> Option<Arc<Base>> {
        let op = op.norm();
        let key = (field, size, wseed, op);
        if let Some(b) = self.cache.get(&key) {
            return b.clone();
        }
        if self.cache.len() > 20_000 {
            self.cache.clear();
        }
        // Nothing of the kind is repeated, and results may be long.
        let large = size >= simops::world::LARGE;
        self.totals.baselines += 1;
        let keep = self.totals.stats;
        let r = self.child(|| {
            simrt::alloc::arena(0);
            let mut env = plain_env();
            if large {
                env.step_cap *= 80;
            }
            sched::setup(env);
            sched::run(move |_| {
                sched::masked(|| {
                    let w = AnyWorld::new(field, size, wseed);
                    let a = sched::steps();
                    sites::start();
                    let o = w.exec(op, &Plan::default(), None, (0, 0));
                    sites::stop();
                    let b = sched::steps();
                    let n = simrt::alloc::count();
                    let code = match o.status {
                        Status::Done => 0,
                        Status::Injected => 1,
                        Status::Panicked => 2,
                    };
                    shm::emit(format!("{}\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}", code, o.callbacks, b - a, n, sites::summary(sites::CALLBACK), sites::summary(sites::ALLOCATION), o.msg, o.value.unwrap_or_default()).as_bytes());
                })
            });
        });
        // Baselines are not part of the exploration.
        self.totals.stats = keep;
        let b = match (&r.end, r.recs.last()) {
            (End::Exit(0), Some(rec)) => {
                let s = String::from_utf8_lossy(rec).into_owned();
                let f: Vec<&str> = s.splitn(8, '\x1f').collect();
                if f.len() == 8 && f[0] != "1" {
                    Some(Arc::new(Base {
                        status: if f[0] == "0" { Status::Done } else { Status::Panicked },
                        callbacks: f[1].parse().unwrap(),
                        steps: f[2].parse().unwrap(),
                        allocs: f[3].parse().unwrap(),
                        msg: f[6].to_string(),
                        value: f[7].to_string(),
                        cb_sites: sites::parse(f[4]),
                        al_sites: sites::parse(f[5]),
                        hot: r.stats[st::HOT],
                        entropy: r.stats[st::ENTROPY_READS],
                        env: r.stats[st::ENV_READS] + r.stats[st::CLOCK_READS] + r.stats[st::LIB_THREADS],
                        requests: r.stats[st::REQUESTS],
                        rare_requests: r.stats[st::OTHER_REQUESTS],
                    }))
                } else {
                    None
                }
            }
            _ => None,
        };
        if !large {
            self.cache.insert(key, b.clone());
        }
        b
    }
}
impl Ctx {
    /// Calls, out of a fixed sample, that touch static or thread-local memory, the clock or the
    /// environment: the search spends half of its runs on them. (In the library as it is only the
    /// keys of hash tables do; those are left out. Then this changes nothing.)
    pub fn suspects(&mut self) -> Arc<Vec<Key>> {
        if self.suspects.is_none() {
            let mut v = vec![];
            let mut r = simrt::rng::Rng::sub(0x5eed, 1);
            let kinds = simops::catalogue::NAMES.len();
            let mut found = std::collections::BTreeSet::new();
            let mut probe = |ctx: &mut Ctx, r: &mut simrt::rng::Rng, w: (usize, u64, u64), k: usize| {
                let op = Op { k, a: r.us(12), b: r.us(12), c: r.us(12) }.norm();
                match ctx.base(w.0, w.1, w.2, op) {
                    Some(b) if (b.hot > 0 && b.entropy == 0 || b.env + b.rare_requests > 0) && b.steps <= if b.rare_requests > 0 { 150_000 } else { 30_000 } => {
                        v.push((w.0, w.1, w.2, op));
                        true
                    }
                    _ => false,
                }
            };
            for _ in 0..12 {
                let w = (r.us(5), r.below(3), r.below(1 << 30));
                for k in 0..kinds {
                    if probe(self, &mut r, w, k) {
                        found.insert(k);
                    }
                }
            }
            // More of the kinds found, among other operands.
            for _ in 0..if found.is_empty() { 0 } else { 24 } {
                let w = (r.us(5), r.below(3), r.below(1 << 30));
                for _ in 0..12 {
                    let k = *r.pick(&found.iter().copied().collect::<Vec<_>>());
                    probe(self, &mut r, w, k);
                }
            }
            self.suspects = Some(Arc::new(v));
        }
        self.suspects.clone().unwrap()
    }
}
pub fn harness_error(m: &str) -> ! {
    println!("HARNESS ERROR: {}", m);
    std::process::exit(2)
}
pub fn clip(s: &str) -> String {
    if s.len() <= 400 {
        s.to_string()
    } else {
        let mut e = 400;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}
/// What the way a child ended says by itself: nothing the harness does ends these ways.
pub fn bad_end(r: &RunOut) -> Option<(String, String)> {
    use simrt::shm::fl;
    if r.flags & fl::HEAP != 0 {
        return Some(("heap-damaged".into(), "memory outside of any live allocation was written to".into()));
    }
    match r.end {
        End::Exit(0) => {}
        End::Signal(14) => return Some(("hang".into(), "the run made no progress: blocked outside every simulated primitive".into())),
        End::Signal(s) => return Some(("crash".into(), format!("the process died of signal {}", s))),
        End::Exit(76) => return Some(("deadlock".into(), "every thread is blocked".into())),
        End::Exit(77) => return Some(("no-progress".into(), "a call did not finish within its step budget".into())),
        End::Exit(c) => return Some(("crash".into(), format!("the process exited with status {}", c))),
    }
    if r.flags & fl::BLOCKED_BY_STALL != 0 {
        return Some(("blocked".into(), "a call waits for a call of a stalled thread".into()));
    }
    None
}
