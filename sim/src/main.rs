//! algeo_sim check <id>            seeded search; evidence; VIOLATION line and replay file
//! algeo_sim replay <file>         re-executes one recorded case
//! algeo_sim selftest <id> <n>     event-log hash of the first n seeds (determinism)
//! algeo_sim survey                the calls that touch static memory or the environment
//! algeo_sim case <id> <index>     prints the case a seed index generates
mod case;
mod cli;
mod ctx;
mod driver;
mod edits;
mod elim;
mod engine;
mod enums;
mod gbsim;
mod life;
mod print;
mod process;
mod refgb;
mod stack;

use simrt::rng::Rng;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut ctx::Ctx, &mut Rng) -> case::Case,
    pub run: fn(&mut ctx::Ctx, &case::Case) -> ctx::Verdict,
    /// Simulated runs per quick and thorough check.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}
const REAL: &str = "the whole algeo library (compiled from /repo, instrumented at every edge, load and store), std, the Rust allocator interface, OS threads";
const STUB: &str = "the processor (one thread runs at a time, as scheduled), futexes, sleeps, clocks, entropy, environment variables, heap placement; caller-supplied coefficient types, monomial orders, sinks and iterators are the simulator's";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            gen: |c, r| gbsim::gen(c, "C01", r),
            run: gbsim::run,
            quick: 42_000,
            thorough: 300_000,
            rule: "a case is 1-2 lists of polynomials, a field, an order, and 1-5 computations each cut short at a chosen callback, with edits by the caller in between; nontrivial if a computation was unwound",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C02",
            gen: |c, r| gbsim::gen(c, "C02", r),
            run: gbsim::run,
            quick: 40_000,
            thorough: 300_000,
            rule: "a case is as for C01, followed by an uninterrupted computation on every list; nontrivial if an earlier one was unwound",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C03",
            gen: |c, r| engine::gen(c, "C03", r),
            run: engine::run,
            quick: 28_000,
            thorough: 200_000,
            rule: "a case is a set of operands, 3-14 distinct calls, and an environment (entropy, clock, heap layout, environment variables, stack depth, thread); every one counts",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C04",
            gen: |c, r| engine::gen(c, "C04", r),
            run: engine::run,
            quick: 45_000,
            thorough: 400_000,
            rule: "a case is 2-4 threads of 1-5 calls on shared or private operands and a schedule; nontrivial if at least one thread was preempted inside a call",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C05",
            gen: |c, r| engine::gen(c, "C05", r),
            run: engine::run,
            quick: 9_000,
            thorough: 200_000,
            rule: "a case is a history of 8-650 calls, some unwound at a chosen callback, operands being dropped and rebuilt in between; nontrivial if more than 10 calls were made or one was unwound",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C06",
            gen: |c, r| engine::gen(c, "C06", r),
            run: engine::run,
            quick: 60_000,
            thorough: 300_000,
            rule: "a case is 1-6 calls with points at which all operands are re-read mid-call and points at which calls are unwound; nontrivial if operands were audited mid-call or a call was unwound",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C07",
            gen: edits::gen,
            run: edits::run,
            quick: 100_000,
            thorough: 1_000_000,
            rule: "a case is a history of 1-14 in-place edits of a matrix of up to 5x5 entries per thread, each possibly cut short; nontrivial if an edit was unwound or panicked",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C08",
            gen: print::gen,
            run: print::run,
            quick: 40_000,
            thorough: 600_000,
            rule: "a case is 1-5 renderings by 1-3 threads, into sinks that fail or are unwound at a chosen call or byte, each rendered once more afterwards, some with other renderings nested inside; nontrivial if a sink failed, was interrupted or took part of a write, or a rendering was unwound or preempted",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C09",
            gen: |c, r| engine::gen(c, "C09", r),
            run: engine::run,
            quick: 36_000,
            thorough: 400_000,
            rule: "a case is 2-4 threads of 1-3 calls of which 1-3 stop for good at chosen points; nontrivial if a thread did stop mid-call",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C10",
            gen: |c, r| engine::gen(c, "C10", r),
            run: engine::run,
            quick: 36_000,
            thorough: 300_000,
            rule: "a case is 1-5 calls with 1-6 nested calls at chosen callbacks, nesting up to 6 deep, some unwound; nontrivial if a nested call was made",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C11",
            gen: engine::gen_memory,
            run: engine::run_memory,
            quick: 28_000,
            thorough: 100_000,
            rule: "a case is a history of 1-8 calls, some unwound, repeated 64 times (1024 if the heap grows), in one thread or a fresh one each time; every one counts",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C12",
            gen: engine::gen_alloc,
            run: engine::run_alloc,
            quick: 45_000,
            thorough: 150_000,
            rule: "a case is 1-3 calls and for each 1-4 allocations that fail, once or from then on, each in a process of its own; nontrivial if an allocation did fail",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C13",
            gen: cli::gen,
            run: cli::run,
            quick: 40_000,
            thorough: 1_000_000,
            rule: "a case is one execution of the program with a plan for its first 0-220 writes to standard output (accepted, short, interrupted, failing once or for good, taking nothing), perhaps failing allocations and a failing standard error; nontrivial if a fault was injected",
            real: "the shipped binary as cargo builds it, std, pipes, process exit",
            stub: "the results of write calls on standard output and standard error, entropy, terminal queries, malloc failures",
        },
        Prop {
            id: "C14",
            gen: elim::gen,
            run: elim::run,
            quick: 90_000,
            thorough: 500_000,
            rule: "a case is 1-2 matrices over an exact field eliminated 2-7 times by 1-3 threads, each time under another seeded pivot preference, some cut short; nontrivial if the preference decided a comparison",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C15",
            gen: enums::gen,
            run: enums::run,
            quick: 24_000,
            thorough: 600_000,
            rule: "a case is 1-4 enumerations stepped 4-44 times in various ways by 1-4 threads with other calls, finished or unwound, in between; nontrivial if more than two steps were made and there was a preemption, an abandonment or a second enumeration",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C16",
            gen: |c, r| engine::gen(c, "C16", r),
            run: engine::run,
            quick: 44_000,
            thorough: 400_000,
            rule: "a case is 1-6 calls each of which user-supplied code makes panic at a chosen callback, in one of four manners, once or from then on, perhaps inside a nested call and on through the call around it; nontrivial if user-supplied code did panic",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C18",
            gen: |c, r| engine::gen(c, "C18", r),
            run: engine::run,
            quick: 30_000,
            thorough: 400_000,
            rule: "a case is 2-10 calls of which some are given wrong answers by user-supplied code from a chosen callback on, alone, nested or beside other calls; nontrivial if a wrong answer was given",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C19",
            gen: stack::gen,
            run: stack::run,
            quick: 2_000,
            thorough: 40_000,
            rule: "a case is 1-4 calls on very large operands, each on a thread with a small stack, some unwound at a chosen callback; every one counts",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C32",
            gen: |c, r| engine::gen(c, "C32", r),
            run: engine::run,
            quick: 40_000,
            thorough: 400_000,
            rule: "a case is 1-5 calls during which the operating system refuses a run of requests (entropy, threads, files, sleeping); nontrivial if it did refuse one",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C33",
            gen: process::gen,
            run: process::run,
            quick: 40_000,
            thorough: 400_000,
            rule: "a case is 1-8 calls, some unwound, with instants at which the process is looked at from outside and from user-supplied code; every one counts in which it was",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C17",
            gen: life::gen,
            run: life::run,
            quick: 50_000,
            thorough: 400_000,
            rule: "a case is 0-3 calls, then 1-4 calls while the thread unwinds, while or after its values are dropped at its end, or in a forked child with another thread under way, then the first calls again; every one counts",
            real: REAL,
            stub: STUB,
        },
    ]
}

fn main() {
    driver::prepare();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => driver::check(arg(2)),
        "replay" => driver::replay(arg(2)),
        "selftest" => driver::selftest(arg(2), arg(3).parse().unwrap_or(50), arg(4).parse().unwrap_or(1)),
        "case" => driver::show(arg(2), arg(3).parse().unwrap_or(0)),
        "survey" => {
            simrt::shm::init(simrt::sys::map_shared(simrt::shm::NEDGE));
            let words: Vec<_> = simrt::hooks::DICTIONARY.get().into_iter().flatten().collect();
            println!("string constants: {:?}", words);
            for s in ctx::Ctx::default().suspects().iter() {
                println!("touches static memory or the environment: field {} size {} world {} {:?}", s.0, s.1, s.2, s.3);
            }
            // How large calls of each kind are, over sampled operands.
            for (k, n) in simops::catalogue::NAMES.iter().enumerate() {
                let mut c = ctx::Ctx::default();
                let mut r = simrt::rng::Rng::sub(k as u64, 3);
                let (mut steps, mut cbs, mut none, mut panics, mut len) = (vec![], vec![], 0, 0, 0);
                let (mut cs, mut als) = (vec![], vec![]);
                let large: u64 = arg(2).parse().unwrap_or(0);
                for _ in 0..60 {
                    let op = simops::Op { k, a: r.us(12), b: r.us(12), c: r.us(12) };
                    match c.base(r.us(5), if large > 0 { large + r.below(8) } else { r.below(4) }, r.below(1 << 30), op) {
                        Some(b) => {
                            steps.push(b.steps);
                            cbs.push(b.callbacks);
                            cs.push(b.cb_sites.len() as u64);
                            als.push(b.al_sites.len() as u64);
                            len = len.max(b.value.len());
                            panics += (b.status == simrt::calls::Status::Panicked) as u32;
                        }
                        None => none += 1,
                    }
                }
                steps.sort();
                cbs.sort();
                cs.sort();
                als.sort();
                let q = |v: &Vec<u64>, x: usize| v.get(v.len() * x / 100).copied().unwrap_or(0);
                println!("{:26} steps {:6} {:6} {:6}  callbacks {:5} {:5} {:5}  places {:4} {:4}  longest result {:5}  panics {:2}  too long {:2}", n, q(&steps, 50), q(&steps, 90), q(&steps, 99), q(&cbs, 50), q(&cbs, 90), q(&cbs, 99), q(&cs, 90), q(&als, 90), len, panics, none);
            }
            0
        }
        "list" => {
            for p in props() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: algeo_sim check|replay|selftest|case ...");
            2
        }
    };
    std::process::exit(code)
}
