//! C07: single-flight product caches, with symbolic weights, outcomes and schedules.
use crate::sx;
use ruby_fast_lsp::single_flight::*;
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::task::*;

/// p0 requests, p1 keys: the synchronous cache against a list of what must be retained
#[no_mangle]
pub extern "C" fn h_flight_blocking() {
    let n = sx::param(0, 4);
    let keys = sx::param(1, 3);
    let max_entries = sx::choice(2) as usize + 1;
    let max_weight = sx::range(1, 1000);
    let cache: BlockingBoundedSingleFlightCache<u64, u64, u32> = BlockingBoundedSingleFlightCache::new(max_entries, max_weight, |v| *v >> 8);
    // retained products, oldest first: (key, value)
    let mut kept: Vec<(u64, u64)> = Vec::new();
    let (mut produced, mut failed, mut evicted, mut hits) = (0u64, 0u64, 0u64, 0u64);
    for i in 0..n {
        let key = sx::choice(keys);
        let ok = sx::bool();
        let value = sx::range(0, 1200) << 8 | i;
        let called = Cell::new(0);
        let r = cache.get_or_try_init(key, || {
            called.set(called.get() + 1);
            if ok { Ok(value) } else { Err(i as u32) }
        });
        match kept.iter().find(|(k, _)| *k == key) {
            Some((_, v)) => {
                sx::check(called.get() == 0, "a retained product is not built again");
                match r {
                    Ok(x) => sx::check(*x == *v, "a hit returns the product built for that key"),
                    Err(_) => sx::fail("a hit returns the product built for that key"),
                }
                hits += 1;
                sx::cover("hit");
            }
            None => {
                sx::check(called.get() == 1, "a missing product is built exactly once");
                produced += 1;
                if ok {
                    match r {
                        Ok(x) => sx::check(*x == value, "a miss returns the product just built"),
                        Err(_) => sx::fail("a miss returns the product just built"),
                    }
                    kept.push((key, value));
                    while !kept.is_empty() && (kept.len() > max_entries || kept.iter().map(|(_, v)| v >> 8).sum::<u64>() > max_weight) {
                        kept.remove(0);
                        evicted += 1;
                        sx::cover("evicted");
                    }
                } else {
                    match r {
                        Err(e) => sx::check(e == i as u32, "a failure is reported to its caller"),
                        Ok(_) => sx::fail("a failure is reported to its caller"),
                    }
                    failed += 1;
                    sx::cover("failed");
                }
            }
        }
        sx::check(cache.len() == kept.len(), "exactly the newest products within the limits are retained");
        for k in 0..keys {
            sx::check(cache.contains_key(&k) == kept.iter().any(|(x, _)| *x == k), "exactly the newest products within the limits are retained");
        }
        let w = kept.iter().map(|(_, v)| v >> 8).sum::<u64>();
        sx::check(cache.retained_weight() == w && w <= max_weight, "retained weight is exact and within its limit");
        let s = cache.snapshot();
        sx::check(s.entries == kept.len() && s.producers == produced && s.failures == failed && s.evictions == evicted && s.hits == hits && s.lookups == i + 1 && s.misses == produced, "counters are exact");
    }
}

struct Yields(u64);
impl Future for Yields {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Default)]
struct Log {
    running: [AtomicUsize; 2],
    overlap: AtomicUsize,
    produced: [AtomicU64; 2],
    ok: [AtomicU64; 2],
    wrong: AtomicUsize,
    done: AtomicUsize,
}

async fn one(cache: Arc<Cache>, log: Arc<Log>, key: u64, delay: u64, work: u64, ok: bool) {
    Yields(delay).await;
    let k = key as usize;
    let lg = log.clone();
    let p = move || async move {
        if lg.running[k].fetch_add(1, Relaxed) != 0 {
            lg.overlap.fetch_add(1, Relaxed);
        }
        let id = lg.produced[k].fetch_add(1, Relaxed);
        Yields(work).await;
        lg.running[k].fetch_sub(1, Relaxed);
        if ok {
            lg.ok[k].fetch_add(1, Relaxed);
            Ok(key * 100 + id)
        } else {
            Err("failed".to_string())
        }
    };
    let r = match &*cache {
        Cache::Plain(c) => c.get_or_try_init(key, p).await,
        Cache::Bounded(c) => c.get_or_try_init(key, p).await,
    };
    match r {
        Ok(v) => {
            if *v / 100 != key || *v % 100 >= log.produced[k].load(Relaxed) {
                log.wrong.fetch_add(1, Relaxed);
            }
        }
        Err(e) => {
            if e != "failed" {
                log.wrong.fetch_add(1, Relaxed);
            }
        }
    }
    log.done.fetch_add(1, Relaxed);
}
enum Cache {
    Plain(SingleFlightCache<u64, u64>),
    Bounded(BoundedSingleFlightCache<u64, u64>),
}

/// p0 consumers, p1 cache kind (0 plain, 1 bounded, 2 ephemeral), p2 longest delay
#[no_mangle]
pub extern "C" fn h_flight_async() {
    let n = sx::param(0, 2) as usize;
    let kind = sx::param(1, 0);
    let most = sx::param(2, 2);
    let cache = Arc::new(match kind {
        0 => Cache::Plain(SingleFlightCache::default()),
        1 => Cache::Bounded(BoundedSingleFlightCache::new(1, 1000, |_| 1)),
        _ => Cache::Bounded(BoundedSingleFlightCache::ephemeral(|_| 1)),
    });
    let log = Arc::new(Log::default());
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let mut outcomes = Vec::new();
    let abandon = sx::choice(n as u64 + 1) as usize;
    rt.block_on(async {
        let mut hs = Vec::new();
        for _ in 0..n {
            let key = sx::choice(2);
            let ok = sx::bool();
            let delay = sx::range(0, most);
            let work = sx::range(0, most);
            outcomes.push((key, ok));
            hs.push(tokio::spawn(one(cache.clone(), log.clone(), key, delay, work, ok)));
        }
        if abandon < n {
            Yields(1).await;
            hs[abandon].abort();
        }
        for (i, h) in hs.into_iter().enumerate() {
            let r = h.await;
            if i != abandon {
                sx::check(r.is_ok(), "every consumer is answered");
            }
        }
        // let detached producers finish
        Yields(8).await;
    });
    sx::check(log.overlap.load(Relaxed) == 0, "one producer at a time builds a product");
    sx::check(log.wrong.load(Relaxed) == 0, "a consumer receives the product built for its key, or that build's failure");
    let present = |k: usize| match &*cache {
        Cache::Plain(_) => false,
        Cache::Bounded(c) => c.contains_key(&(k as u64)),
    };
    for k in 0..2 {
        let ok = log.ok[k].load(Relaxed);
        let produced = log.produced[k].load(Relaxed);
        if kind == 0 {
            sx::check(ok <= 1, "a product that was built is never built again");
        }
        if kind == 1 && outcomes.iter().all(|(key, _)| *key as usize == k) {
            sx::check(ok <= 1, "a retained product is not built again");
            sx::check(present(k) == (ok == 1), "a built product is retained, a failure is not");
        }
        if ok == 0 {
            sx::check(!present(k), "failures are not retained");
        }
        if produced > 1 {
            sx::cover("retried");
        }
    }
    let (len, s) = match &*cache {
        Cache::Plain(c) => (c.len(), c.snapshot()),
        Cache::Bounded(c) => (c.len(), c.snapshot()),
    };
    let oks = (0..2).filter(|&k| log.ok[k].load(Relaxed) > 0).count();
    match kind {
        0 => sx::check(len == oks, "every built product, and nothing else, is kept"),
        1 => sx::check(len == oks.min(1), "no more products are kept than the limit"),
        _ => sx::check(len == 0, "an ephemeral flight keeps nothing"),
    }
    sx::check(s.producers == log.produced[0].load(Relaxed) + log.produced[1].load(Relaxed), "producers are counted");
    if s.joined_flights > 0 {
        sx::cover("joined");
    }
    sx::cover("finished");
    std::mem::forget(rt);
}

/// p0 steps of any kind, p1 keys, p2 cache kind (0 plain, 1 bounded, 2 ephemeral): requests, ends of
/// builds and abandoned requests in every order, against a list of what must be built and retained
#[no_mangle]
pub extern "C" fn h_flight_history() {
    use std::sync::Mutex;
    let steps = sx::param(0, 5);
    let keys = sx::param(1, 2);
    let kind = sx::param(2, 1);
    let max_entries = sx::param(3, 1) as usize;
    let max_weight = 100u64;
    let cache = Arc::new(match kind {
        0 => Cache::Plain(SingleFlightCache::default()),
        1 => Cache::Bounded(BoundedSingleFlightCache::new(max_entries, max_weight, |v| *v >> 8)),
        _ => Cache::Bounded(BoundedSingleFlightCache::ephemeral(|v| *v >> 8)),
    });
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    type End = tokio::sync::oneshot::Sender<Result<u64, String>>;
    type Answer = Arc<Mutex<Option<Result<u64, String>>>>;
    struct Flight {
        key: u64,
        born: u64,
        end: End,
        waiting: Vec<usize>,
    }
    let mut flights: Vec<Flight> = Vec::new();
    // retained: (when its build was requested, key, value)
    let mut kept: Vec<(u64, u64, u64)> = Vec::new();
    let mut answers: Vec<Answer> = Vec::new();
    let mut handles = Vec::new();
    let (mut lookups, mut hits, mut joined, mut misses, mut failures, mut evictions) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    rt.block_on(async {
        for step in 0..steps {
            match sx::choice(3) {
                0 => {
                    let key = sx::choice(keys);
                    let (tx, rx) = tokio::sync::oneshot::channel();
                    let started = Arc::new(AtomicUsize::new(0));
                    let a: Answer = Arc::default();
                    let (c, st, an) = (cache.clone(), started.clone(), a.clone());
                    handles.push(tokio::spawn(async move {
                        let p = move || async move {
                            st.fetch_add(1, Relaxed);
                            rx.await.unwrap_or(Err("lost".into()))
                        };
                        let r = match &*c {
                            Cache::Plain(c) => c.get_or_try_init(key, p).await,
                            Cache::Bounded(c) => c.get_or_try_init(key, p).await,
                        };
                        *an.lock().unwrap() = Some(r.map(|v| *v));
                    }));
                    answers.push(a.clone());
                    Yields(8).await;
                    lookups += 1;
                    if let Some((_, _, v)) = kept.iter().find(|(_, k, _)| *k == key) {
                        hits += 1;
                        sx::check(started.load(Relaxed) == 0, "a retained product is not built again");
                        sx::check(*a.lock().unwrap() == Some(Ok(*v)), "a hit returns the product built for that key");
                        sx::cover("hit");
                    } else if let Some(f) = flights.iter_mut().find(|f| f.key == key) {
                        joined += 1;
                        sx::check(started.load(Relaxed) == 0, "one producer at a time builds a product");
                        sx::check(a.lock().unwrap().is_none(), "a request waits for the build it joined");
                        f.waiting.push(answers.len() - 1);
                        sx::cover("joined");
                    } else {
                        misses += 1;
                        sx::check(started.load(Relaxed) == 1, "a missing product is built exactly once");
                        flights.push(Flight { key, born: step, end: tx, waiting: vec![answers.len() - 1] });
                    }
                }
                1 => {
                    sx::assume(!flights.is_empty());
                    let f = flights.remove(sx::choice(flights.len() as u64) as usize);
                    let r = if sx::flag() { Ok(sx::range(0, 120) << 8 | step) } else { Err("failed".to_string()) };
                    let _ = f.end.send(r.clone());
                    Yields(8).await;
                    for w in &f.waiting {
                        sx::check(*answers[*w].lock().unwrap() == Some(r.clone()), "every request that waited receives that build's outcome");
                    }
                    match r {
                        Ok(v) => {
                            kept.push((f.born, f.key, v));
                            kept.sort();
                            while kind != 0 && !kept.is_empty() && (kind == 2 || kept.len() > max_entries || kept.iter().map(|x| x.2 >> 8).sum::<u64>() > max_weight) {
                                kept.remove(0);
                                evictions += 1;
                                sx::cover("evicted");
                            }
                        }
                        Err(_) => {
                            failures += 1;
                            sx::cover("failed");
                        }
                    }
                }
                _ => {
                    // a waiting request is abandoned; its build goes on for the others
                    sx::assume(!flights.is_empty());
                    let f = sx::choice(flights.len() as u64) as usize;
                    sx::assume(!flights[f].waiting.is_empty());
                    let w = flights[f].waiting.remove(0);
                    handles[w].abort();
                    Yields(4).await;
                    sx::cover("abandoned");
                }
            }
            let (len, s) = match &*cache {
                Cache::Plain(c) => (c.len(), c.snapshot()),
                Cache::Bounded(c) => (c.len(), c.snapshot()),
            };
            sx::check(len == kept.len() + flights.len(), "exactly the newest products within the limits are retained");
            if let Cache::Bounded(c) = &*cache {
                for k in 0..keys {
                    let here = kept.iter().any(|x| x.1 == k) || flights.iter().any(|f| f.key == k);
                    sx::check(c.contains_key(&k) == here, "exactly the newest products within the limits are retained");
                }
                sx::check(c.retained_weight() == kept.iter().map(|x| x.2 >> 8).sum::<u64>(), "retained weight is exact");
            }
            sx::check(
                s.lookups == lookups && s.hits == hits && s.joined_flights == joined && s.misses == misses && s.producers == misses && s.failures == failures && s.evictions == evictions,
                "counters are exact",
            );
        }
    });
    sx::cover("finished");
    std::mem::forget(rt);
}
