//! The bridge to proptest: a strategy whose values are cases (choice lists) and whose value tree shrinks the list.

use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::prelude::RngExt;
use proptest::test_runner::TestRunner;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::{Duration, Instant};

/// Shrinking stops by itself after this long.
const SHRINK: Duration = Duration::from_secs(15);
const SHRINK_ITERS: u32 = 60_000;

#[derive(Clone, Debug)]
pub enum Spec {
    Seed(u64),
    Choices(Vec<u32>),
}

/// A case handed to the test closure, which stores the choices it consumed in `used`.
#[derive(Clone, Debug)]
pub struct Case {
    pub spec: Spec,
    pub used: Rc<RefCell<Vec<u32>>>,
}

#[derive(Debug, Clone)]
pub struct CaseStrategy;

impl Strategy for CaseStrategy {
    type Tree = CaseTree;
    type Value = Case;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let seed = runner.rng().random_range(0..=u64::MAX);
        Ok(CaseTree {
            cur: Spec::Seed(seed),
            used: Rc::new(RefCell::new(vec![])),
            best: None,
            shrinker: None,
            started: None,
            iters: 0,
        })
    }
}

pub struct CaseTree {
    cur: Spec,
    used: Rc<RefCell<Vec<u32>>>,
    best: Option<Vec<u32>>,
    shrinker: Option<Shrinker>,
    started: Option<Instant>,
    iters: u32,
}

impl ValueTree for CaseTree {
    type Value = Case;
    fn current(&self) -> Case {
        Case { spec: self.cur.clone(), used: self.used.clone() }
    }
    fn simplify(&mut self) -> bool {
        // the current case failed; what it consumed is the new best
        let used = self.used.borrow().clone();
        match &mut self.shrinker {
            None => {
                self.best = Some(used.clone());
                self.shrinker = Some(Shrinker::new(used));
            }
            Some(s) => {
                s.accept(used.clone());
                self.best = Some(s.best.clone());
            }
        }
        self.advance()
    }
    fn complicate(&mut self) -> bool {
        // the current candidate passed
        match &mut self.shrinker {
            None => return false,
            Some(s) => s.reject(),
        }
        self.advance()
    }
}
impl CaseTree {
    fn advance(&mut self) -> bool {
        let s = self.shrinker.as_mut().unwrap();
        let t = *self.started.get_or_insert_with(Instant::now);
        self.iters += 1;
        let more = if self.iters > SHRINK_ITERS || t.elapsed() > SHRINK { None } else { s.next() };
        match more {
            Some(c) => {
                self.cur = Spec::Choices(c);
                true
            }
            None => {
                self.cur = Spec::Choices(s.best.clone());
                false
            }
        }
    }
}

/// Choice-list shrinker, also used by the supervisor for crashing cases.
pub struct Shrinker {
    pub best: Vec<u32>,
    pass: usize,
    pos: usize,
    size: usize,
    improved: bool,
    cand: Vec<u32>,
    lo: u32,
}

impl Shrinker {
    pub fn new(best: Vec<u32>) -> Self {
        let n = best.len();
        Self { best, pass: 0, pos: 0, size: (n / 2).max(1), improved: false, cand: vec![], lo: 0 }
    }
    pub fn accept(&mut self, used: Vec<u32>) {
        let cand = if used.len() <= self.cand.len() { used } else { self.cand.clone() };
        if less(&cand, &self.best) {
            self.best = cand;
            self.improved = true;
            // stay at the same position: the same move may work again
        } else {
            self.bump();
        }
    }
    pub fn reject(&mut self) {
        if self.pass == 2 {
            // binary search upwards
            self.lo = self.cand.get(self.pos).copied().unwrap_or(0) + 1;
            if self.pos < self.best.len() && self.lo < self.best[self.pos] {
                return;
            }
        }
        self.bump();
    }
    fn bump(&mut self) {
        self.pos += if self.pass == 2 { 1 } else { self.size.max(1) };
        self.lo = 0;
    }
    pub fn next(&mut self) -> Option<Vec<u32>> {
        loop {
            let n = self.best.len();
            match self.pass {
                0 | 1 => {
                    if self.pos >= n {
                        self.pos = 0;
                        if self.size > 1 {
                            self.size /= 2;
                            continue;
                        }
                        self.pass += 1;
                        self.size = (n / 2).max(1).min(64);
                        continue;
                    }
                    let mut c = self.best.clone();
                    // deletions work from the end, where choices matter least
                    if self.pass == 0 {
                        let end = n - self.pos;
                        let start = end.saturating_sub(self.size);
                        c.drain(start..end);
                    } else {
                        let end = (self.pos + self.size).min(n);
                        if c[self.pos..end].iter().all(|x| *x == 0) {
                            self.pos += self.size;
                            continue;
                        }
                        c[self.pos..end].fill(0);
                    }
                    self.cand = c.clone();
                    return Some(c);
                }
                2 => {
                    if self.pos >= n {
                        self.pass = 3;
                        continue;
                    }
                    let hi = self.best[self.pos];
                    if self.lo >= hi {
                        self.pos += 1;
                        self.lo = 0;
                        continue;
                    }
                    let mid = self.lo + (hi - self.lo) / 2;
                    let mut c = self.best.clone();
                    c[self.pos] = mid;
                    self.cand = c.clone();
                    return Some(c);
                }
                _ => {
                    if self.improved {
                        self.improved = false;
                        self.pass = 0;
                        self.pos = 0;
                        self.lo = 0;
                        self.size = (self.best.len() / 2).max(1);
                        continue;
                    }
                    return None;
                }
            }
        }
    }
}

fn less(a: &[u32], b: &[u32]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}
