//! Renderings of every printable value into sinks that misbehave.
use crate::enc::text;
use crate::fields::SF;
use crate::world::World;
use crate::AnyWorld;
use simrt::calls::{call, callback, CallOut, Plan};
use simrt::shm::{bump, st};
use std::fmt::{self, Debug, Display};
use std::io;
use std::rc::Rc;

pub const KINDS: [&str; 7] = ["Integer", "Rational", "MultiDegree", "Term", "Polynomial", "Mat", "scalar"];
pub const SPECS: [&str; 14] = ["{}", "{:?}", "{:#?}", "{:>14}", "{:<9}|", "{:^11.2}", "{:+}", "{:08.3}", "{:#}", "{:+.1}", "{:7?}", "{:+#?}", "{:.0?}", "{} {}"];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Show {
    pub kind: usize,
    pub idx: usize,
    pub spec: usize,
}
impl Show {
    pub fn norm(self) -> Show {
        Show { kind: self.kind % KINDS.len(), idx: self.idx % 12, spec: self.spec % SPECS.len() }
    }
    pub fn name(&self) -> String {
        format!("{} {} as {:?}", KINDS[self.kind % KINDS.len()], self.idx, SPECS[self.spec % SPECS.len()])
    }
}
/// What the sink does. `mode`: 0 never fails; 1 fails at its n-th call; 2 fails once it would
/// exceed n bytes, accepting those before; both then go on failing `count` times (0 = for good).
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub mode: u64,
    pub n: u64,
    pub count: u64,
    /// 0: a `fmt::Write`; otherwise an `io::Write` taking at most `io` bytes a call.
    pub io: u64,
    /// Every so many calls an `io::Write` is interrupted.
    pub eintr: u64,
    pub errno: u64,
}
pub struct Sink {
    pub got: Vec<u8>,
    pub reported: u64,
    calls: u64,
    left: Option<u64>,
    f: Fault,
}
impl Sink {
    pub fn new(f: Fault) -> Sink {
        Sink { got: vec![], reported: 0, calls: 0, left: None, f }
    }
    /// How many bytes to take, and whether to fail.
    fn decide(&mut self, len: usize) -> (usize, bool) {
        self.calls += 1;
        let hit = match self.left {
            Some(0) => self.f.count == 0,
            Some(_) => true,
            None => match self.f.mode {
                1 => self.calls >= self.f.n.max(1),
                2 => (self.got.len() + len) as u64 > self.f.n,
                _ => false,
            },
        };
        if !hit {
            return (len, false);
        }
        let first = self.left.is_none();
        self.left = Some(match self.left {
            None => self.f.count.saturating_sub(1),
            Some(k) => k.saturating_sub(1),
        });
        self.reported += 1;
        bump(st::SINK_ERRORS, 1);
        let take = if first && self.f.mode == 2 { (self.f.n as usize).saturating_sub(self.got.len()).min(len) } else { 0 };
        (take, true)
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        callback();
        let (n, fail) = self.decide(s.len());
        self.got.extend_from_slice(&s.as_bytes()[..n]);
        if fail {
            Err(fmt::Error)
        } else {
            Ok(())
        }
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        callback();
        if self.f.eintr > 0 {
            self.calls += 1;
            if self.calls % (self.f.eintr + 1) == 0 {
                bump(st::EINTRS, 1);
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.calls -= 1;
        }
        let b = &b[..b.len().min(self.f.io as usize)];
        let (n, fail) = self.decide(b.len());
        if n < b.len() || (self.f.io < 100 && !fail) {
            bump(st::SHORT_WRITES, 1);
        }
        self.got.extend_from_slice(&b[..n]);
        if fail {
            if n > 0 {
                // The bytes were taken; the failure comes with the next call.
                self.reported -= 1;
                self.left = None;
                self.f.mode = 1;
                self.f.n = 0;
                return Ok(n);
            }
            return match self.f.errno % 4 {
                0 => Ok(0),
                1 => Err(io::ErrorKind::BrokenPipe.into()),
                2 => Err(io::ErrorKind::WouldBlock.into()),
                _ => Err(io::Error::from_raw_os_error(28)),
            };
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn spec(out: &mut Sink, k: usize, d: &dyn Display, g: &dyn Debug) -> bool {
    macro_rules! all {
        ($($n:literal => $f:literal $x:expr),*) => {
            if out.f.io == 0 {
                match k { $( $n => fmt::Write::write_fmt(out, format_args!($f, $x)).is_ok(), )* _ => fmt::Write::write_fmt(out, format_args!("{} {}", d, d)).is_ok() }
            } else {
                match k { $( $n => io::Write::write_fmt(out, format_args!($f, $x)).is_ok(), )* _ => io::Write::write_fmt(out, format_args!("{} {}", d, d)).is_ok() }
            }
        };
    }
    all!(0 => "{}" d, 1 => "{:?}" g, 2 => "{:#?}" g, 3 => "{:>14}" d, 4 => "{:<9}|" d, 5 => "{:^11.2}" d, 6 => "{:+}" d,
         7 => "{:08.3}" d, 8 => "{:#}" d, 9 => "{:+.1}" d, 10 => "{:7?}" g, 11 => "{:+#?}" g, 12 => "{:.0?}" g)
}
/// Display of a polynomial where there is none.
struct Dbg<'a>(&'a dyn Debug);
impl Display for Dbg<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
fn render<F: SF>(w: &World<F>, s: Show, out: &mut Sink) -> bool {
    fn at<T>(v: &[T], i: usize) -> &T {
        &v[i % v.len()]
    }
    match s.kind % KINDS.len() {
        0 => { let x = at(&w.ints, s.idx); spec(out, s.spec, x, x) }
        1 => { let x = at(&w.rats, s.idx); spec(out, s.spec, x, x) }
        2 => { let x = at(&w.mdegs, s.idx); spec(out, s.spec, x, x) }
        3 => { let x = at(&w.terms, s.idx); spec(out, s.spec, x, x) }
        4 => {
            let x = at(&w.polys, s.idx);
            match F::show_poly(x) {
                Some(d) => spec(out, s.spec, d, x),
                None => spec(out, s.spec, &Dbg(x), x),
            }
        }
        5 => { let x = at(&w.mats, s.idx); spec(out, s.spec, x, x) }
        _ => { let x = at(&w.scal, s.idx); spec(out, s.spec, x, x) }
    }
}
pub struct Printed {
    pub call: CallOut<bool>,
    pub sink: Sink,
}
pub fn print(w: &AnyWorld, s: Show, f: Fault, plan: &Plan, nest: Option<Rc<dyn Fn(usize)>>) -> Printed {
    let mut sink = Sink::new(f);
    let out = &mut sink;
    let call = match w {
        AnyWorld::A(w) => call(plan, nest, || render(w, s, out)),
        AnyWorld::B(w) => call(plan, nest, || render(w, s, out)),
        AnyWorld::C(w) => call(plan, nest, || render(w, s, out)),
        AnyWorld::D(w) => call(plan, nest, || render(w, s, out)),
        AnyWorld::E(w) => call(plan, nest, || render(w, s, out)),
    };
    Printed { call, sink }
}
pub fn quote(b: &[u8]) -> String {
    text(&String::from_utf8_lossy(b).into_owned())
}
