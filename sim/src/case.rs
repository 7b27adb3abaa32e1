//! A case is one complete description of a simulated execution: inputs, schedule and faults.
//! It is what is generated from a seed, minimised, written to a replay file and replayed.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Item {
    pub tag: String,
    pub v: Vec<i64>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Case {
    pub prop: String,
    pub params: BTreeMap<String, i64>,
    pub items: Vec<Item>,
}
impl Case {
    pub fn new(prop: &str) -> Case {
        Case { prop: prop.into(), ..Case::default() }
    }
    pub fn p(&self, k: &str) -> i64 {
        self.params.get(k).copied().unwrap_or(0)
    }
    pub fn u(&self, k: &str) -> u64 {
        self.p(k) as u64
    }
    pub fn n(&self, k: &str) -> usize {
        self.p(k).max(0) as usize
    }
    pub fn set(&mut self, k: &str, v: i64) {
        if v == 0 {
            self.params.remove(k);
        } else {
            self.params.insert(k.into(), v);
        }
    }
    pub fn push(&mut self, tag: &str, v: Vec<i64>) {
        self.items.push(Item { tag: tag.into(), v });
    }
    pub fn of<'a>(&'a self, tag: &'a str) -> impl Iterator<Item = &'a Item> + 'a {
        self.items.iter().filter(move |i| i.tag == tag)
    }
    pub fn encode(&self) -> String {
        let mut s = format!("property {}\n", self.prop);
        for (k, v) in &self.params {
            s += &format!("param {} {}\n", k, v);
        }
        for i in &self.items {
            s += &format!("item {}", i.tag);
            for x in &i.v {
                s += &format!(" {}", x);
            }
            s.push('\n');
        }
        s
    }
    pub fn decode(s: &str) -> Option<Case> {
        let mut c = Case::default();
        for l in s.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("property") => c.prop = w.next()?.into(),
                Some("param") => {
                    let k = w.next()?.to_string();
                    c.params.insert(k, w.next()?.parse().ok()?);
                }
                Some("item") => {
                    let tag = w.next()?.to_string();
                    let v = w.map(|x| x.parse().ok()).collect::<Option<Vec<i64>>>()?;
                    c.items.push(Item { tag, v });
                }
                _ => {}
            }
        }
        if c.prop.is_empty() {
            None
        } else {
            Some(c)
        }
    }
}
impl Item {
    pub fn g(&self, i: usize) -> i64 {
        self.v.get(i).copied().unwrap_or(0)
    }
    pub fn u(&self, i: usize) -> usize {
        self.g(i).max(0) as usize
    }
}

/// Minimises `case` while `fails` (same violation class) holds; `budget` bounds the attempts.
pub fn shrink(case: Case, budget: usize, fails: &mut dyn FnMut(&Case) -> bool) -> Case {
    let mut best = case;
    let mut left = budget;
    let mut try_ = |c: &Case, left: &mut usize| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        fails(c)
    };
    loop {
        let before = best.clone();
        // Drop runs of items.
        let mut size = (best.items.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.items.len() {
                let mut c = best.clone();
                let end = (i + size).min(c.items.len());
                c.items.drain(i..end);
                if try_(&c, &mut left) {
                    best = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Drop the tails and shrink the numbers of the remaining items.
        for i in 0..best.items.len() {
            loop {
                let n = best.items[i].v.len();
                let mut done = true;
                for cut in [7usize, 6, 5, 4, 3, 2, 1] {
                    if n > cut {
                        let mut c = best.clone();
                        c.items[i].v.truncate(n - cut);
                        if try_(&c, &mut left) {
                            best = c;
                            done = false;
                            break;
                        }
                    }
                }
                if done {
                    break;
                }
            }
            for j in 0..best.items[i].v.len() {
                let x = best.items[i].v[j];
                for y in [0, 1, x / 2, x - x.signum()] {
                    if y != best.items[i].v[j] && y.unsigned_abs() < best.items[i].v[j].unsigned_abs() {
                        let mut c = best.clone();
                        c.items[i].v[j] = y;
                        if try_(&c, &mut left) {
                            best = c;
                        }
                    }
                }
            }
        }
        let keys: Vec<String> = best.params.keys().cloned().collect();
        for k in keys {
            let x = best.p(&k);
            for y in [0, 1, x / 2, x - x.signum()] {
                if y.unsigned_abs() < best.p(&k).unsigned_abs() {
                    let mut c = best.clone();
                    c.set(&k, y);
                    if try_(&c, &mut left) {
                        best = c;
                    }
                }
            }
        }
        if best == before || left == 0 {
            return best;
        }
    }
}
