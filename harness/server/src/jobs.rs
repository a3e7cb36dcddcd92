//! Futures polled by hand: which waiter runs next is the harness's (symbolic) choice.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::*;

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
}
pub struct Job<T> {
    fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    flag: Arc<Flag>,
}
impl<T> Job<T> {
    pub fn new(f: impl Future<Output = T> + 'static) -> Self {
        Job { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))) }
    }
    pub fn pending(&self) -> bool {
        self.fut.is_some()
    }
    pub fn woken(&self) -> bool {
        self.fut.is_some() && self.flag.0.load(Ordering::Relaxed)
    }
    pub fn poll(&mut self) -> Option<T> {
        let f = self.fut.as_mut()?;
        self.flag.0.store(false, Ordering::Relaxed);
        let w = Waker::from(self.flag.clone());
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(v) => {
                self.fut = None;
                Some(v)
            }
            Poll::Pending => None,
        }
    }
    pub fn abandon(&mut self) {
        self.fut = None;
    }
}
