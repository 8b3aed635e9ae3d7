//! Deviation-bounded depth-first exploration of every schedule. The default schedule runs the current thread until it
//! blocks and then the next runnable one in order; every other choice is a deviation. All schedules with up to `bound`
//! deviations are executed, exactly once each.
use shuttle_engine::scheduler::{Schedule, Scheduler, Task, TaskId};
use std::sync::{Arc, Mutex};

thread_local! { static SETUP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// while setting up, the default schedule is followed
pub fn setup(on: bool) {
    SETUP.with(|s| s.set(on && std::env::var_os("HMC_NOSETUP").is_none()));
}

#[derive(Default, Clone)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_threads: usize,
    pub complete: bool,
    pub nondet: u64,
}

#[derive(Clone, Copy)]
struct Level {
    n: usize,
    at: usize,
    cost: usize, // deviations before this level
}

pub struct Pb {
    pub bound: usize,
    pub worker: usize,
    pub workers: usize,
    pub deadline: std::time::Instant,
    levels: Vec<Level>,
    depth: usize,
    cost: usize,
    fixed: Option<Vec<usize>>,
    pub cur: Arc<Mutex<(Vec<u8>, Stats)>>,
}

impl Pb {
    pub fn new(bound: usize, worker: usize, workers: usize, deadline: std::time::Instant, cur: Arc<Mutex<(Vec<u8>, Stats)>>) -> Pb {
        Pb { bound, worker, workers, deadline, levels: vec![], depth: 0, cost: 0, fixed: None, cur }
    }
    pub fn replay(choices: Vec<usize>, cur: Arc<Mutex<(Vec<u8>, Stats)>>) -> Pb {
        Pb { bound: 0, worker: 0, workers: 1, deadline: std::time::Instant::now(), levels: vec![], depth: 0, cost: 0, fixed: Some(choices), cur }
    }
    fn advance(&mut self) -> bool {
        while let Some(l) = self.levels.pop() {
            if l.cost >= self.bound || l.at + 1 >= l.n {
                continue;
            }
            let mut at = l.at + 1;
            if l.cost == 0 && self.workers > 1 {
                // the first deviation decides which worker runs it
                while at < l.n && (self.levels.len() + at) % self.workers != self.worker {
                    at += 1;
                }
                if at >= l.n {
                    continue;
                }
            }
            self.levels.push(Level { at, ..l });
            return true;
        }
        false
    }
}

impl Scheduler for Pb {
    fn new_execution(&mut self) -> Option<Schedule> {
        let mut c = self.cur.lock().unwrap();
        if c.1.execs > 0 {
            c.1.max_steps = c.1.max_steps.max(self.depth as u64);
            if self.fixed.is_some() {
                return None;
            }
            if self.depth < self.levels.len() {
                c.1.nondet += 1;
                self.levels.truncate(self.depth);
            }
            drop(c);
            if !self.advance() {
                self.cur.lock().unwrap().1.complete = true;
                return None;
            }
            if std::time::Instant::now() > self.deadline {
                return None;
            }
            c = self.cur.lock().unwrap();
        }
        setup(false);
        c.0.clear();
        c.1.execs += 1;
        self.depth = 0;
        self.cost = 0;
        Some(Schedule::new(0))
    }

    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, yielding: bool) -> Option<TaskId> {
        // options in order: the current thread when it can go on, then the others, cyclically after it
        let me = current.map(usize::from).unwrap_or(0);
        let mut ids: Vec<TaskId> = runnable.iter().map(|t| t.id()).collect();
        ids.sort_by_key(|t| {
            let i = usize::from(*t);
            if i == me {
                if yielding { usize::MAX } else { 0 }
            } else if i > me {
                i - me
            } else {
                i + 100_000 - me
            }
        });
        let n = if SETUP.with(|s| s.get()) { 1 } else { ids.len() };
        let mut at = 0;
        if let Some(f) = &self.fixed {
            at = f.get(self.depth).copied().unwrap_or(0).min(n - 1);
        } else if self.depth < self.levels.len() {
            let l = self.levels[self.depth];
            at = l.at;
            if l.n != n {
                self.cur.lock().unwrap().1.nondet += 1;
                self.levels[self.depth].n = n;
                at = at.min(n - 1);
                self.levels[self.depth].at = at;
            }
        } else {
            self.levels.push(Level { n, at: 0, cost: self.cost });
        }
        if at > 0 {
            self.cost += 1;
        }
        self.depth += 1;
        let mut c = self.cur.lock().unwrap();
        c.0.push(at as u8);
        c.1.steps += 1;
        c.1.max_threads = c.1.max_threads.max(n);
        Some(ids[at])
    }

    fn next_u64(&mut self) -> u64 {
        7
    }
}
