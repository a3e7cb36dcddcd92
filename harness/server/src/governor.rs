//! C06: the process-wide indexing resource budget, with symbolic claims.
use crate::jobs::Job;
use crate::sx;
use ruby_fast_lsp::indexing_resources::*;
use std::cell::RefCell;
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::rc::Rc;
use std::task::*;
use tokio_util::sync::CancellationToken;

#[derive(Default)]
struct GateState {
    started: bool,
    open: bool,
    waker: Option<Waker>,
}
struct Gate(Rc<RefCell<GateState>>);
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.borrow_mut();
        g.started = true;
        if g.open {
            return Poll::Ready(());
        }
        g.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
#[derive(Clone, Copy, PartialEq)]
enum St {
    Queued,
    Active,
    Gone,
}
struct Entry {
    project: Option<usize>,
    parallel: bool,
    requested: u8,
    cpu: usize,
    mem: usize,
    io: usize,
    cancelled: bool,
    st: St,
    gate: Rc<RefCell<GateState>>,
    token: CancellationToken,
    job: Job<bool>,
}
const P: [&str; 2] = ["/w/a", "/w/b"];
fn prio(v: u8) -> IndexingResourcePriority {
    match v {
        0 => IndexingResourcePriority::ActiveDocument,
        1 => IndexingResourcePriority::OpenDocument,
        _ => IndexingResourcePriority::Background,
    }
}
struct World {
    g: IndexingResourceGovernor,
    cpu: usize,
    tasks: usize,
    mem: usize,
    io: usize,
    es: Vec<Entry>,
    last_first: bool,
    focus: Option<usize>,
    nav: bool,
    lo: usize,
    hi: usize,
    done: u64,
    cancelled: u64,
    dropped: u64,
}
impl World {
    fn sum(&self, f: impl Fn(&Entry) -> usize) -> usize {
        self.es.iter().filter(|e| e.st == St::Active).map(f).sum()
    }
    fn fits(&self, i: usize) -> bool {
        let e = &self.es[i];
        let blocked = e.parallel && self.nav && self.focus != e.project;
        !blocked
            && self.es.iter().filter(|e| e.st == St::Active).count() < self.tasks
            && self.sum(|e| e.cpu) + e.cpu <= self.cpu
            && self.sum(|e| e.mem) + e.mem <= self.mem
            && self.sum(|e| e.io) + e.io <= self.io
    }
    fn eff(&self, i: usize) -> u8 {
        if self.focus.is_some() && self.focus == self.es[i].project { 0 } else { self.es[i].requested }
    }
    fn add(&mut self, vary: u64) {
        // vary 16: no projects; vary 32: this item takes the whole memory
        let full = vary & 32 != 0;
        let project = match sx::choice(if vary & 16 != 0 { 1 } else if vary & 8 != 0 { 3 } else { 2 }) {
            0 => None,
            k => Some(k as usize - 1),
        };
        let parallel = project.is_some() && vary & 8 != 0 && sx::flag();
        let requested = if full { 1 } else { sx::range(0, 2) as u8 };
        let cpu = if vary & 1 != 0 { sx::range(1, self.cpu as u64) as usize } else { 1 };
        let mem = if full { self.mem } else if vary & 2 != 0 { sx::range(1, self.mem as u64) as usize } else { 1 };
        let io = if vary & 4 != 0 { sx::range(0, self.io as u64) as usize } else { 0 };
        let mut spec = IndexingWorkSpec::new(project.map(|p| PathBuf::from(P[p])), prio(requested), cpu, mem, io);
        if parallel {
            spec = spec.as_project_parallel();
        }
        let gate = Rc::new(RefCell::new(GateState::default()));
        let token = CancellationToken::new();
        let (g, gt, tk) = (self.g.clone(), Gate(gate.clone()), token.clone());
        let job = Job::new(async move { g.run_async_with_resources("job", spec, Some(tk), gt).await.is_ok() });
        self.es.push(Entry { project, parallel, requested, cpu, mem, io, cancelled: false, st: St::Queued, gate, token, job });
        // the claim enters the queue when its owner first runs
        let i = self.es.len() - 1;
        self.poll(i);
    }
    fn poll(&mut self, i: usize) {
        let before = self.es[i].gate.borrow().started;
        // what could be admitted before this poll
        let cand: Vec<usize> = (0..self.es.len()).filter(|&j| self.es[j].st == St::Queued && self.fits(j)).collect();
        let r = self.es[i].job.poll();
        let started = self.es[i].gate.borrow().started;
        if !before && started {
            sx::check(!self.es[i].cancelled, "cancelled work is not started");
            sx::check(self.fits(i), "admitted work fits the remaining budget");
            let live: Vec<usize> = cand.iter().copied().filter(|&j| !self.es[j].cancelled).collect();
            let mine = self.eff(i);
            let best = live.iter().all(|&j| j == i || (mine, i) < (self.eff(j), j));
            let oldest_bg = mine == 2 && live.iter().all(|&j| j >= i || self.eff(j) != 2);
            let bg = live.iter().any(|&j| self.eff(j) == 2);
            if self.lo >= 1 && bg {
                sx::check(oldest_bg, "after a priority admission, waiting background work goes next");
                sx::cover("fairness used");
            } else if self.hi >= 1 {
                sx::check(best || oldest_bg, "the most urgent, oldest work that fits is admitted first");
            } else {
                sx::check(best, "the most urgent, oldest work that fits is admitted first");
            }
            let bg_any = cand.iter().any(|&j| j != i && self.eff(j) == 2);
            let bg_live = live.iter().any(|&j| j != i && self.eff(j) == 2);
            self.lo = if mine == 2 || !bg_live { 0 } else { self.lo + 1 };
            self.hi = if mine == 2 || !bg_any { 0 } else { self.hi + 1 };
            self.es[i].st = St::Active;
            sx::cover("admitted");
        }
        match r {
            Some(true) => {
                sx::check(self.es[i].gate.borrow().open, "work ends when it is done");
                self.es[i].st = St::Gone;
                self.done += 1;
            }
            Some(false) => {
                sx::check(self.es[i].cancelled && !started, "only work cancelled while waiting fails");
                self.es[i].st = St::Gone;
                self.cancelled += 1;
                sx::cover("cancelled while queued");
            }
            None => sx::check(started || !self.es[i].cancelled, "cancelled work stops waiting"),
        }
        self.account();
    }
    fn account(&mut self) {
        let s = self.g.snapshot();
        sx::check(s.active_cpu_lanes <= self.cpu && s.active_transient_memory_bytes <= self.mem && s.active_io_slots <= self.io && s.active_tasks <= self.tasks, "the budget is never exceeded");
        sx::check(s.active_cpu_lanes == self.sum(|e| e.cpu), "CPU accounting is exact");
        sx::check(s.active_transient_memory_bytes == self.sum(|e| e.mem), "memory accounting is exact");
        sx::check(s.active_io_slots == self.sum(|e| e.io), "I/O accounting is exact");
        sx::check(s.active_tasks == self.es.iter().filter(|e| e.st == St::Active).count(), "task accounting is exact");
        sx::check(s.completed_tasks == self.done && s.cancelled_before_start == self.cancelled && s.cancelled_after_start == self.dropped, "outcomes are counted once");
    }
    fn finish(&mut self, i: usize) {
        let w = {
            let mut g = self.es[i].gate.borrow_mut();
            g.open = true;
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        self.poll(i);
        sx::check(self.es[i].st == St::Gone, "finished work releases its claim");
    }
    fn settle(&mut self) {
        for _ in 0..32 {
            let n = self.es.len();
            let Some(i) = (0..n).map(|i| if self.last_first { n - 1 - i } else { i }).find(|&i| self.es[i].job.woken()) else {
                for i in 0..self.es.len() {
                    if self.es[i].st == St::Queued {
                        sx::check(!self.fits(i), "work that fits is not left waiting");
                    }
                }
                sx::check(self.g.snapshot().queued_tasks == self.es.iter().filter(|e| e.st == St::Queued).count(), "the queue holds exactly the waiting work");
                return;
            };
            self.poll(i);
        }
        sx::fail("waiters wake each other for ever");
    }
}

/// p0 work items, p1 steps, p2 claim variety (1 cpu, 2 memory, 4 I/O, 8 project-parallel work), p3 task limit, p4 1: the first item fills the memory and ends once all others wait, p5 memory budget
#[no_mangle]
pub extern "C" fn h_governor() {
    let n = sx::param(0, 3);
    let steps = sx::param(1, 2);
    let vary = sx::param(2, 1);
    let tasks = sx::param(3, 2) as usize;
    let (cpu, mem, io) = (4usize, sx::param(5, 1000) as usize, 2usize);
    let mut w = World {
        g: IndexingResourceGovernor::new(IndexingResourcePolicy::with_limits(cpu, tasks, mem, io)),
        cpu, tasks, mem, io, es: Vec::new(), last_first: sx::flag(), focus: None, nav: false, lo: 0, hi: 0, done: 0, cancelled: 0, dropped: 0,
    };
    for i in 0..n {
        w.add(if i == 0 && sx::param(4, 0) == 1 { vary | 32 } else { vary & !32 });
    }
    if sx::param(4, 0) == 1 {
        // everything else waited for the first item
        w.finish(0);
    }
    for _ in 0..steps {
        match sx::choice(if vary & 8 != 0 { 7 } else { 5 }) {
            0 => {
                let i = sx::choice(w.es.len() as u64) as usize;
                sx::assume(w.es[i].st == St::Queued);
                w.poll(i);
            }
            1 => {
                let i = sx::choice(w.es.len() as u64) as usize;
                sx::assume(w.es[i].st == St::Active);
                w.finish(i);
                sx::cover("finished");
            }
            2 => {
                let i = sx::choice(w.es.len() as u64) as usize;
                sx::assume(w.es[i].st != St::Gone && !w.es[i].cancelled);
                w.es[i].cancelled = true;
                w.es[i].token.cancel();
            }
            3 => {
                let i = sx::choice(w.es.len() as u64) as usize;
                sx::assume(w.es[i].st != St::Gone);
                if w.es[i].st == St::Active {
                    w.dropped += 1;
                    sx::cover("abandoned while running");
                }
                w.es[i].st = St::Gone;
                w.es[i].job.abandon();
                w.account();
            }
            4 => {
                let p = sx::choice(2) as usize;
                let nav = vary & 8 != 0 && sx::flag();
                w.g.prioritize_active_project_with_navigation_pending(Path::new(P[p]), nav);
                w.focus = Some(p);
                w.nav = nav;
                sx::cover("focus moved");
            }
            5 => {
                let p = sx::choice(2) as usize;
                w.g.mark_project_navigation_complete_if_active(Path::new(P[p]));
                if w.focus == Some(p) {
                    w.nav = false;
                }
            }
            _ => {
                let p = sx::choice(2) as usize;
                w.g.mark_project_navigation_pending_if_active(Path::new(P[p]));
                if w.focus == Some(p) {
                    w.nav = true;
                }
            }
        }
    }
    w.settle();
    if w.nav {
        // the focused project's navigation ends
        let p = w.focus.unwrap();
        drop(w.g.project_navigation_reservation(PathBuf::from(P[p])));
        w.nav = false;
        w.settle();
        sx::cover("navigation ended");
    }
    for _ in 0..w.es.len() {
        let Some(i) = (0..w.es.len()).find(|&i| w.es[i].st == St::Active) else { break };
        w.finish(i);
        w.settle();
    }
    sx::check(w.es.iter().all(|e| e.st == St::Gone), "all work gets its turn");
    let s = w.g.snapshot();
    sx::check(s.active_tasks == 0 && s.queued_tasks == 0 && s.active_cpu_lanes == 0 && s.active_transient_memory_bytes == 0 && s.active_io_slots == 0, "every claim is returned");
    sx::check(s.peak_active_cpu_lanes <= cpu && s.peak_active_transient_memory_bytes <= mem && s.peak_active_io_slots <= io && s.peak_active_tasks <= tasks, "peaks stay within the budget");
    sx::cover("drained");
    std::mem::forget(w);
}
