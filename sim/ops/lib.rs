//! The instrumented side of the harness: everything that is generic over the library's types is
//! instantiated here, so that the compiler-inserted yield points reach into it.
pub mod catalogue;
pub mod edits;
pub mod elim;
pub mod enc;
pub mod enums;
pub mod fields;
pub mod gb;
pub mod print;
pub mod world;

use fields::{Gf, Pq, SF};
use simrt::calls::{call, CallOut, Plan};
use std::rc::Rc;
use std::sync::Arc;
use world::World;

pub type Gf7 = Gf<7>;
pub type GfBig = Gf<32003>;
pub type Gf2 = Gf<2>;
pub const FIELDS: [&str; 5] = ["GF(7)", "GF(32003)", "Rational", "f64", "probed Rational"];

/// One library call: operation and operand selectors.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Op {
    pub k: usize,
    pub a: usize,
    pub b: usize,
    pub c: usize,
}
impl Op {
    pub fn name(&self) -> &'static str {
        catalogue::NAMES[self.k % catalogue::NAMES.len()]
    }
    /// The same call, selectors reduced to the ranges that matter.
    pub fn norm(self) -> Op {
        Op { k: self.k % catalogue::NAMES.len(), ..self }
    }
}

#[derive(Clone)]
pub enum AnyWorld {
    A(Arc<World<Gf7>>),
    B(Arc<World<GfBig>>),
    C(Arc<World<algeo::core::num::Rational>>),
    D(Arc<World<f64>>),
    E(Arc<World<Pq>>),
}
// Whether the library's types may cross threads is decided by a separate compile-time check; here
// they always do, one thread running at a time.
unsafe impl Send for AnyWorld {}
unsafe impl Sync for AnyWorld {}

macro_rules! each {
    ($x:expr, $w:ident => $e:expr) => {
        match $x {
            AnyWorld::A($w) => $e,
            AnyWorld::B($w) => $e,
            AnyWorld::C($w) => $e,
            AnyWorld::D($w) => $e,
            AnyWorld::E($w) => $e,
        }
    };
}
impl AnyWorld {
    pub fn new(field: usize, size: u64, seed: u64) -> AnyWorld {
        match field % 5 {
            0 => AnyWorld::A(Arc::new(World::new(size, seed))),
            1 => AnyWorld::B(Arc::new(World::new(size, seed))),
            2 => AnyWorld::C(Arc::new(World::new(size, seed))),
            3 => AnyWorld::D(Arc::new(World::new(size, seed))),
            _ => AnyWorld::E(Arc::new(World::new(size, seed))),
        }
    }
    pub fn snapshot(&self) -> String {
        simrt::calls::suspended(|| simrt::sched::masked(|| each!(self, w => w.snapshot())))
    }
    pub fn describe(&self) -> String {
        each!(self, w => w.describe())
    }
    /// Makes the call; `fail` is the allocation plan (first failing allocation, how many fail).
    pub fn exec(&self, op: Op, plan: &Plan, nest: Option<Rc<dyn Fn(usize)>>, fail: (u64, u64)) -> CallOut<String> {
        fn go<F: SF>(w: &World<F>, op: Op, plan: &Plan, nest: Option<Rc<dyn Fn(usize)>>, fail: (u64, u64)) -> CallOut<String> {
            let k = op.k % catalogue::NAMES.len();
            let r = call(plan, nest, || {
                simrt::alloc::window(true, fail.0, fail.1);
                catalogue::run_op(w, k, op.a, op.b, op.c)
            });
            simrt::alloc::window(false, 0, 0);
            r
        }
        each!(self, w => go(w, op, plan, nest, fail))
    }
}
