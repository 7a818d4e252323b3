//! Deterministic single-threaded executor on virtual time.
use crate::choices::*;
use crate::world::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag {
    woken: AtomicBool,
    pub wakes: AtomicU64,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        self.wakes.fetch_add(1, Ordering::SeqCst);
    }
}
fn flag() -> Arc<Flag> {
    Arc::new(Flag { woken: AtomicBool::new(true), wakes: AtomicU64::new(0) })
}

/// Drives one future to completion. Err: it is suspended and nothing will ever wake it.
pub fn block_on<T>(f: impl Future<Output = T>) -> R<T> {
    match drive(f, u64::MAX)? {
        Some(x) => Ok(x),
        None => unreachable!(),
    }
}

/// Drives a future; drops it right after its `limit`-th suspension (None).
pub fn drive<T>(f: impl Future<Output = T>, limit: u64) -> R<Option<T>> {
    let mut f = Box::pin(f);
    let fl = flag();
    let waker: Waker = fl.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut pend = 0;
    loop {
        let woken = fl.woken.swap(false, Ordering::SeqCst);
        let sp = with(|w| w.io.spurious);
        if woken || (sp > 0 && chance(SCHED, sp, 256)) {
            if !woken {
                count_fault("spurious_poll");
                ev(8, 0, 0, 0);
            } else {
                ev(6, 0, 0, 0);
            }
            with(|w| w.polls += 1);
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(x) => {
                    clear_timers();
                    return Ok(Some(x));
                }
                Poll::Pending => {
                    pend += 1;
                    if pend >= limit {
                        ev(7, pend, 0, 0);
                        drop(f);
                        clear_timers();
                        return Ok(None);
                    }
                }
            }
        } else if !advance() {
            return Err("lost-wakeup: the future is suspended but no wake-up is outstanding".into());
        }
    }
}

pub type Task<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

/// Runs tasks to completion in an order drawn from the schedule stream.
/// `cancel[i] = n`: task i is dropped right after its n-th suspension.
pub fn run_tasks<'a>(tasks: Vec<Task<'a>>, cancel: &[Option<u64>]) -> R<Vec<bool>> {
    let n = tasks.len();
    let mut tasks: Vec<Option<Task<'a>>> = tasks.into_iter().map(Some).collect();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| flag()).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| f.clone().into()).collect();
    let mut done = vec![false; n];
    let mut pend = vec![0u64; n];
    loop {
        let live: Vec<usize> = (0..n).filter(|i| tasks[*i].is_some()).collect();
        if live.is_empty() {
            clear_timers();
            return Ok(done);
        }
        let ready: Vec<usize> = live.iter().copied().filter(|i| flags[*i].woken.load(Ordering::SeqCst)).collect();
        let sp = with(|w| w.io.spurious);
        let i = if ready.is_empty() {
            if sp > 0 && chance(SCHED, sp, 256) {
                let i = one_of(SCHED, &live);
                count_fault("spurious_poll");
                ev(8, i as u64, 0, 0);
                i
            } else if advance() {
                continue;
            } else {
                return Err("lost-wakeup: all tasks are suspended and no wake-up is outstanding".into());
            }
        } else {
            // virtual time may also pass while tasks are ready (a stalled executor)
            if chance(SCHED, 1, 8) && advance() {
                continue;
            }
            let i = one_of(SCHED, &ready);
            ev(6, i as u64, ready.len() as u64, 0);
            i
        };
        flags[i].woken.store(false, Ordering::SeqCst);
        with(|w| w.polls += 1);
        let mut cx = Context::from_waker(&wakers[i]);
        match tasks[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            Poll::Ready(()) => {
                tasks[i] = None;
                done[i] = true;
            }
            Poll::Pending => {
                pend[i] += 1;
                if let Some(Some(c)) = cancel.get(i) {
                    if pend[i] >= *c {
                        ev(7, pend[i], i as u64, 0);
                        count_fault("cancelled_future");
                        tasks[i] = None;
                    }
                }
            }
        }
    }
}

/// Polls a stream to its next item.
pub fn next_item<S: futures::Stream + Unpin>(s: &mut S) -> R<Option<S::Item>> {
    use futures::StreamExt;
    block_on(s.next())
}
