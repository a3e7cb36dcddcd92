//! C05: admission of project indexing runs. Every schedule of registrations,
//! polls, completions, cancellations, abandonments and editor focus changes
//! within the bounds, with symbolic priorities.
use crate::jobs::Job;
use crate::sx;
use ruby_fast_lsp::indexing_scheduler::*;
use std::path::PathBuf;
use tokio_util::sync::CancellationToken;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Queued,
    Active,
    Gone,
}
struct Entry {
    project: usize,
    requested: u8,
    cancelled: bool,
    st: St,
    job: Job<Option<IndexingPermit>>,
    permit: Option<IndexingPermit>,
    token: CancellationToken,
}
fn prio(v: u8) -> IndexingPriority {
    match v {
        0 => IndexingPriority::ActiveDocument,
        1 => IndexingPriority::OpenDocument,
        _ => IndexingPriority::Background,
    }
}
const P: [&str; 3] = ["/w/a", "/w/b", "/w/c"];

struct World {
    s: IndexingScheduler,
    limit: usize,
    es: Vec<Entry>,
    last_first: bool,
    focus: Option<usize>,
    burst_lo: usize,
    burst_hi: usize,
}
impl World {
    fn eff(&self, i: usize) -> u8 {
        if self.focus == Some(self.es[i].project) { 0 } else { self.es[i].requested }
    }
    fn project_active(&self, p: usize) -> bool {
        self.es.iter().any(|e| e.st == St::Active && e.project == p)
    }
    fn active(&self) -> usize {
        self.es.iter().filter(|e| e.st == St::Active).count()
    }
    fn register(&mut self, project: usize, requested: u8) {
        let token = CancellationToken::new();
        let adm = self.s.register_cancellable(PathBuf::from(P[project]), prio(requested), token.clone());
        self.es.push(Entry { project, requested, cancelled: false, st: St::Queued, job: Job::new(adm.wait()), permit: None, token });
    }
    fn poll(&mut self, i: usize) {
        let Some(r) = self.es[i].job.poll() else {
            sx::check(!self.es[i].cancelled, "cancelled work stops waiting");
            return;
        };
        match r {
            None => {
                sx::check(self.es[i].cancelled, "only cancelled work gives up");
                self.es[i].st = St::Gone;
                sx::cover("cancelled while queued");
            }
            Some(permit) => {
                sx::check(!self.es[i].cancelled, "cancelled work is never admitted");
                sx::check(self.active() < self.limit, "no more runs are active than the limit");
                sx::check(!self.project_active(self.es[i].project), "a project has one active run at most");
                // candidates before this admission
                let cand: Vec<usize> = (0..self.es.len())
                    .filter(|&j| self.es[j].st == St::Queued && !self.project_active(self.es[j].project))
                    .collect();
                let live: Vec<usize> = cand.iter().copied().filter(|&j| !self.es[j].cancelled).collect();
                let mine = self.eff(i);
                // registration order is index order
                let best = live.iter().all(|&j| j == i || (mine, i) < (self.eff(j), j));
                let oldest_bg = mine == 2 && live.iter().all(|&j| j >= i || self.eff(j) != 2);
                let bg_waits = live.iter().any(|&j| self.eff(j) == 2);
                if self.burst_lo >= 1 && bg_waits {
                    sx::check(oldest_bg, "after a priority admission, the oldest waiting background run goes next");
                    sx::cover("fairness used");
                } else if self.burst_hi >= 1 {
                    sx::check(best || oldest_bg, "the most urgent, oldest run is admitted first");
                } else {
                    sx::check(best, "the most urgent, oldest run is admitted first");
                }
                let bg_any = cand.iter().any(|&j| j != i && self.eff(j) == 2);
                let bg_live = live.iter().any(|&j| j != i && self.eff(j) == 2);
                self.burst_lo = if mine == 2 || !bg_live { 0 } else { self.burst_lo + 1 };
                self.burst_hi = if mine == 2 || !bg_any { 0 } else { self.burst_hi + 1 };
                self.es[i].st = St::Active;
                self.es[i].permit = Some(permit);
                sx::cover("admitted");
            }
        }
    }
    fn settle(&mut self) {
        for _ in 0..32 {
            let n = self.es.len();
            let Some(i) = (0..n).map(|i| if self.last_first { n - 1 - i } else { i }).find(|&i| self.es[i].job.woken()) else {
                let waiting = (0..self.es.len()).any(|i| self.es[i].st == St::Queued && !self.project_active(self.es[i].project));
                sx::check(!(waiting && self.active() < self.limit), "work that may run is not left waiting");
                let snap = self.s.snapshot();
                sx::check(snap.active == self.active(), "the reported number of active runs is right");
                sx::check(snap.queued == self.es.iter().filter(|e| e.st == St::Queued).count(), "the queue holds exactly the waiting runs");
                sx::check(snap.active_project == self.focus.map(|p| PathBuf::from(P[p])), "the focused project is remembered");
                return;
            };
            self.poll(i);
        }
        sx::fail("waiters wake each other for ever");
    }
}

/// p0 limit, p1 initial runs, p2 later runs, p3 steps, p4 projects
#[no_mangle]
pub extern "C" fn h_scheduler() {
    let limit = sx::param(0, 1) as usize;
    let n = sx::param(1, 3);
    let mut later = sx::param(2, 0);
    let steps = sx::param(3, 3);
    let projects = sx::param(4, 2);
    let mut w = World { s: IndexingScheduler::new(limit), limit, es: Vec::new(), last_first: sx::flag(), focus: None, burst_lo: 0, burst_hi: 0 };
    for _ in 0..n {
        let p = sx::choice(projects) as usize;
        w.register(p, sx::range(0, 2) as u8);
    }
    for _ in 0..steps {
        match sx::choice(6) {
            0 => {
                let i = sx::choice(w.es.len() as u64) as usize;
                sx::assume(w.es[i].job.pending());
                w.poll(i);
            }
            1 => {
                let i = sx::choice(w.es.len() as u64) as usize;
                sx::assume(w.es[i].st == St::Active);
                w.es[i].st = St::Gone;
                w.es[i].permit = None;
                sx::cover("released");
            }
            2 => {
                let i = sx::choice(w.es.len() as u64) as usize;
                sx::assume(w.es[i].st == St::Queued && !w.es[i].cancelled);
                w.es[i].cancelled = true;
                w.es[i].token.cancel();
            }
            3 => {
                let i = sx::choice(w.es.len() as u64) as usize;
                sx::assume(w.es[i].st == St::Queued);
                w.es[i].st = St::Gone;
                w.es[i].job.abandon();
                sx::cover("abandoned");
            }
            4 => {
                let p = sx::choice(projects) as usize;
                w.s.prioritize_active_project(std::path::Path::new(P[p]));
                w.focus = Some(p);
                sx::cover("focus moved");
            }
            _ => {
                sx::assume(later > 0);
                later -= 1;
                let p = sx::choice(projects) as usize;
                w.register(p, sx::range(0, 2) as u8);
            }
        }
    }
    w.settle();
    // run everything to the end: nothing may be stuck
    for _ in 0..w.es.len() {
        let Some(i) = (0..w.es.len()).find(|&i| w.es[i].st == St::Active) else { break };
        w.es[i].st = St::Gone;
        w.es[i].permit = None;
        w.settle();
    }
    sx::check(w.es.iter().all(|e| e.st == St::Gone), "every run gets its turn");
    sx::check(w.s.snapshot().active == 0 && w.s.snapshot().queued == 0, "nothing is left behind");
    sx::cover("drained");
}
