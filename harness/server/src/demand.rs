//! C17: navigation waits and indexing status, over every history of operations.
use crate::sx;
use ruby_fast_lsp::indexing_status::*;
use ruby_fast_lsp::rsx_demand_hooks::*;
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::task::*;

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Relaxed);
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Key {
    Unknown,
    Pending,
    InFlight,
    Processed,
}

struct Waiter {
    future: Pin<Box<dyn Future<Output = DemandOutcome>>>,
    woken: Arc<Count>,
    polls: usize,
    generation: u64,
    stage: usize,
    key: usize,
    refused: bool,
    done: bool,
}

/// what the project has been asked and told
struct Model {
    generation: u64,
    cancelled: bool,
    complete: [bool; 2],
    keys: [[Key; 3]; 2],
    extra: [usize; 2],
}

impl Model {
    fn outcome(&self, w: &Waiter) -> Option<DemandOutcome> {
        if w.refused {
            return Some(DemandOutcome::Saturated);
        }
        if w.generation != self.generation {
            return Some(DemandOutcome::Superseded);
        }
        if self.cancelled {
            return Some(DemandOutcome::Cancelled);
        }
        if self.keys[w.stage][w.key] == Key::Processed {
            return Some(DemandOutcome::TargetProcessed);
        }
        if self.complete[w.stage] {
            return Some(DemandOutcome::StageComplete);
        }
        None
    }
    fn live(&self, g: u64) -> bool {
        g == self.generation && !self.cancelled
    }
    fn outstanding(&self, s: usize) -> usize {
        self.extra[s] + self.keys[s].iter().filter(|k| matches!(k, Key::Pending | Key::InFlight)).count()
    }
}

const NAMES: [&str; 3] = ["a", "b", "c"];

fn poll(w: &mut Waiter, m: &Model) {
    if w.done {
        return;
    }
    let due = m.outcome(w);
    if w.polls > 0 && due.is_some() {
        sx::check(w.woken.0.load(Relaxed) > 0, "a waiting request is woken when its outcome is known");
    }
    let waker = Waker::from(w.woken.clone());
    w.woken.0.store(0, Relaxed);
    let got = w.future.as_mut().poll(&mut Context::from_waker(&waker));
    w.polls += 1;
    match (got, due) {
        (Poll::Pending, None) => sx::cover("waits"),
        (Poll::Ready(g), Some(d)) => {
            sx::check(g == d, "a request ends with what became of it");
            w.done = true;
            match d {
                DemandOutcome::TargetProcessed => sx::cover("target processed"),
                DemandOutcome::StageComplete => sx::cover("stage complete"),
                DemandOutcome::Superseded => sx::cover("superseded"),
                DemandOutcome::Cancelled => sx::cover("cancelled"),
                DemandOutcome::Saturated => sx::cover("saturated"),
            }
        }
        (Poll::Ready(_), None) => sx::fail("a request does not end before anything became of it"),
        (Poll::Pending, Some(_)) => sx::fail("a request whose outcome is known does not wait"),
    }
}

/// p0 operations; p1: keys already outstanding; p2: 0 all waiters are polled after
/// each operation, 1 only when woken
#[no_mangle]
pub extern "C" fn h_demand() {
    let n = sx::param(0, 4);
    let full = sx::param(1, 0) as usize;
    let lazily = sx::param(2, 0) == 1;
    let d = Demand::default();
    d.begin_generation(1);
    let mut m = Model { generation: 1, cancelled: false, complete: [false; 2], keys: [[Key::Unknown; 3]; 2], extra: [full, full] };
    for i in 0..full {
        for s in 0..2 {
            drop(d.request(1, s == 1, &format!("x{i}")));
        }
    }
    let mut waiters: Vec<Waiter> = Vec::new();
    // how many operations may come from a generation that was replaced
    let mut late = sx::param(3, 1);
    for i in 0..n {
        // every history of interest starts with a request
        let op = if i == 0 { 1 } else { sx::choice(7) };
        let g = if op == 0 {
            0
        } else if late > 0 && i > 0 && sx::flag() {
            late -= 1;
            // any number but the present one
            let g = sx::u64();
            sx::assume(g != m.generation);
            sx::cover("late");
            g
        } else {
            m.generation
        };
        let s = if op == 0 || op == 6 { 0 } else { sx::choice(2) as usize };
        match op {
            0 => {
                m.generation += 1;
                m.cancelled = false;
                m.complete = [false; 2];
                m.keys = [[Key::Unknown; 3]; 2];
                m.extra = [0; 2];
                d.begin_generation(m.generation);
            }
            1 => {
                let k = sx::choice(2) as usize;
                let future = Box::pin(d.request(g, s == 1, NAMES[k]));
                let mut refused = false;
                if m.live(g) && !m.complete[s] && m.keys[s][k] == Key::Unknown {
                    if m.outstanding(s) >= MAX_DEMAND_KEYS {
                        refused = true;
                    } else {
                        m.keys[s][k] = Key::Pending;
                    }
                }
                waiters.push(Waiter { future, woken: Arc::new(Count(AtomicUsize::new(0))), polls: 0, generation: g, stage: s, key: k, refused, done: false });
            }
            2 => {
                let got = d.drain(g, s == 1);
                let mut want: Vec<&str> = Vec::new();
                if m.live(g) && !m.complete[s] {
                    for k in 0..3 {
                        if m.keys[s][k] == Key::Pending {
                            m.keys[s][k] = Key::InFlight;
                            want.push(NAMES[k]);
                        }
                    }
                }
                sx::check(
                    got.iter().filter(|k| !k.starts_with('x')).map(|k| k.as_str()).collect::<Vec<_>>() == want,
                    "the indexer is handed each pending request of its own generation once",
                );
                if !want.is_empty() {
                    sx::cover("drained");
                }
            }
            3 => {
                let k = sx::choice(3) as usize;
                let got = d.claim_if_requested(g, s == 1, NAMES[k]);
                let want = m.live(g) && !m.complete[s] && matches!(m.keys[s][k], Key::Pending | Key::InFlight);
                if want {
                    m.keys[s][k] = Key::InFlight;
                }
                sx::check(got == want, "a key is claimed if and only if someone waits for it");
            }
            4 => {
                // the indexer reports what it was handed
                let live = m.live(g);
                let mut keys = Vec::new();
                for k in 0..3 {
                    if m.keys[s][k] == Key::InFlight {
                        keys.push(NAMES[k].to_string());
                        if live {
                            m.keys[s][k] = Key::Processed;
                        }
                    }
                }
                if m.complete[s] {
                    keys.clear();
                }
                d.complete_keys(g, s == 1, &keys);
            }
            5 => {
                d.complete_stage(g, s == 1);
                if m.live(g) && !m.complete[s] {
                    m.complete[s] = true;
                    m.extra[s] = 0;
                    for k in 0..3 {
                        if m.keys[s][k] != Key::Processed {
                            m.keys[s][k] = Key::Unknown;
                        }
                    }
                }
            }
            _ => {
                d.cancel_generation(g);
                if m.live(g) {
                    m.cancelled = true;
                }
            }
        }
        for w in waiters.iter_mut() {
            if lazily && w.polls > 0 && w.woken.0.load(Relaxed) == 0 {
                continue;
            }
            poll(w, &m);
        }
    }
    // nobody waits for what is known already
    for w in waiters.iter() {
        sx::check(w.done || m.outcome(w).is_none(), "no request is left waiting for what is already known");
    }
}

/// p0 symbolic bytes: a name is looked for under the letters and digits in it
#[no_mangle]
pub extern "C" fn h_demand_key() {
    let n = sx::param(0, 2) as usize;
    let mut name = String::from(sx::pick(&["", "É", "_:"]));
    let bytes = sx::vec(n);
    let mut want = String::from(if name == "É" { "é" } else { "" });
    for b in &bytes {
        sx::assume(*b < 0x80);
    }
    name.push_str(unsafe { std::str::from_utf8_unchecked(&bytes) });
    for b in &bytes {
        let b = *b;
        if b >= b'A' && b <= b'Z' {
            want.push((b + 32) as char);
        } else if (b >= b'a' && b <= b'z') || (b >= b'0' && b <= b'9') {
            want.push(b as char);
        }
    }
    let got = normalize_key(&name);
    sx::check(got == want, "a name is looked for by its letters and digits, whatever their case");
    sx::check(normalize_key(&got) == got, "a normalized key stays as it is");
    sx::cover("key");
}

fn phase(i: u64) -> IndexingPhase {
    use IndexingPhase::*;
    match i {
        0 => ResolvingRuntime,
        1 => DiscoveringInputs,
        2 => IndexingCore,
        3 => IndexingProject,
        4 => ProjectNavigationReady,
        5 => IndexingDependencies,
        6 => ResolvingSemantics,
        7 => DependencyNavigationReady,
        8 => PublishingDiagnostics,
        _ => Ready,
    }
}

/// p0 operations on a project's status: what clients see only moves forward, and
/// only the newest run moves it
#[no_mangle]
pub extern "C" fn h_status() {
    let n = sx::param(0, 4);
    let status = ProjectIndexingStatus::new(PathBuf::from("/p"));
    let mut runs: Vec<IndexingRun> = vec![status.begin_run()];
    sx::check(!runs[0].is_cancelled(), "a new run is not cancelled");
    // (progress through the phases, finished, how)
    let mut at: Option<u64> = None;
    let mut end: Option<IndexingPhase> = None;
    let mut counts: Option<(u64, u64)> = None;
    let mut cancelled = false;
    let mut before = status.snapshot();
    sx::check(before.phase == IndexingPhase::Queued, "a new run is queued");
    for _ in 0..n {
        let cur = runs.len() as u64;
        let op = sx::choice(5);
        let g = if op == 0 || op == 4 { cur } else { sx::range(0, cur + 1) };
        let live = g == cur && end.is_none();
        let result = match op {
            0 => {
                let r = status.begin_run();
                sx::check(r.generation() == cur + 1, "runs are numbered in order");
                sx::check(runs.iter().all(|r| r.is_cancelled()), "a replaced run is cancelled");
                sx::check(!r.is_cancelled(), "a new run is not cancelled");
                runs.push(r);
                at = None;
                end = None;
                counts = None;
                cancelled = false;
                sx::cover("replaced");
                None
            }
            1 => {
                let to = sx::range(0, 9);
                let known = sx::flag();
                let (done, total) = (sx::u64(), sx::u64());
                sx::assume(!known || done <= total);
                if live {
                    // the caller's own obligations
                    sx::assume(at.is_none_or(|p| to >= p));
                    if let (Some(p), Some((d, t)), true) = (at, counts, known) {
                        sx::assume(p != to || (done >= d && total == t));
                    }
                }
                let (d, t) = if known { (Some(done), Some(total)) } else { (None, None) };
                let r = status.transition(g, phase(to), d, t);
                if live {
                    at = Some(to);
                    counts = if known { Some((done, total)) } else { None };
                    if to == 9 {
                        end = Some(IndexingPhase::Ready);
                        sx::cover("ready");
                    }
                }
                r
            }
            2 => {
                let r = status.fail(g, "broken".to_string());
                if live {
                    end = Some(IndexingPhase::Failed);
                    counts = None;
                    sx::cover("failed");
                }
                r
            }
            3 => {
                let r = status.cancel(g);
                if live {
                    end = Some(IndexingPhase::Cancelled);
                    counts = None;
                    cancelled = true;
                    sx::cover("cancelled");
                }
                r
            }
            _ => {
                let r = status.cancel_current();
                if live {
                    end = Some(IndexingPhase::Cancelled);
                    counts = None;
                    cancelled = true;
                }
                r
            }
        };
        let now = status.snapshot();
        let phase_now = end.unwrap_or_else(|| at.map_or(IndexingPhase::Queued, phase));
        sx::check(now.phase == phase_now, "the status is the last one its newest run reported, and a finished run stays finished");
        sx::check(
            now.completed == counts.map(|c| c.0) && now.total == counts.map(|c| c.1),
            "progress is what the newest run last reported",
        );
        sx::check(now.failure.is_some() == (end == Some(IndexingPhase::Failed)), "a failure is told as long as it stands");
        if op != 0 {
            sx::check(result.is_some() == live, "only the newest run, unfinished, changes the status");
            if !live {
                sx::check(now == before || now.elapsed_ms != before.elapsed_ms, "stale reports change nothing");
                sx::check(now.sequence == before.sequence, "stale reports change nothing");
                sx::cover("stale");
            }
            if let Some(r) = &result {
                sx::check(r.phase == now.phase && r.sequence == now.sequence && r.generation == now.generation, "a report returns the status it made");
            }
        }
        if op == 0 || live {
            sx::check(now.sequence > before.sequence, "each change has a later sequence number");
        }
        sx::check(now.generation == runs.len() as u64, "the status names the newest run");
        let last = runs.len() - 1;
        sx::check(runs[last].is_cancelled() == cancelled, "a run is told it was cancelled if and only if it was");
        for (i, r) in runs.iter().enumerate() {
            sx::check(status.is_current_run(r) == (i == last && end.is_none()), "only the newest run, unfinished, is current");
        }
        let ready = |p: u64| at.is_some_and(|a| a >= p) || end == Some(IndexingPhase::Ready);
        if end.is_none() || end == Some(IndexingPhase::Ready) {
            sx::check(now.phase.project_navigation_pending() == !ready(4), "navigation waits for the project until it is indexed");
            sx::check(now.phase.dependency_navigation_pending() == !ready(7), "navigation waits for dependencies until they are indexed");
        } else {
            sx::check(
                !now.phase.project_navigation_pending() && !now.phase.dependency_navigation_pending(),
                "navigation does not wait for a run that is over",
            );
        }
        before = now;
    }
}
