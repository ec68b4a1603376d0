//! Stand-in for the `futures-timer` crate with a virtual, per-thread clock that
//! the harness advances. Same public API for what the code under test uses.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

#[derive(Default)]
struct Clock {
    now: u128,
    next_id: u64,
    waiting: BTreeMap<(u128, u64), Waker>,
    created: u64,
}

thread_local! {
    static CLOCK: RefCell<Clock> = RefCell::new(Clock::default());
}

/// Harness side of the clock.
pub mod control {
    use super::*;
    /// Forget all timers and set the time to zero.
    pub fn reset() {
        let old = CLOCK.with(|c| std::mem::take(&mut *c.borrow_mut()));
        drop(old);
    }
    pub fn now() -> Duration {
        to_dur(CLOCK.with(|c| c.borrow().now))
    }
    /// Deadline of the earliest timer somebody waits for.
    pub fn next_deadline() -> Option<Duration> {
        CLOCK.with(|c| c.borrow().waiting.keys().next().map(|k| to_dur(k.0)))
    }
    pub fn created() -> u64 {
        CLOCK.with(|c| c.borrow().created)
    }
    /// Set the clock to `t` (never backwards) and wake every timer that is due.
    pub fn advance_to(t: Duration) {
        let due: Vec<Waker> = CLOCK.with(|c| {
            let mut c = c.borrow_mut();
            c.now = c.now.max(t.as_nanos());
            let now = c.now;
            let keys: Vec<_> = c.waiting.range(..=(now, u64::MAX)).map(|(k, _)| *k).collect();
            keys.iter().map(|k| c.waiting.remove(k).unwrap()).collect()
        });
        for w in due {
            w.wake();
        }
    }
    fn to_dur(n: u128) -> Duration {
        Duration::from_nanos(n.min(u64::MAX as u128) as u64)
    }
}

#[derive(Debug)]
pub struct Delay {
    deadline: u128,
    id: u64,
}

impl Delay {
    pub fn new(dur: Duration) -> Delay {
        CLOCK.with(|c| {
            let mut c = c.borrow_mut();
            c.next_id += 1;
            c.created += 1;
            Delay { deadline: c.now.saturating_add(dur.as_nanos()), id: c.next_id }
        })
    }
    pub fn reset(&mut self, dur: Duration) {
        CLOCK.with(|c| {
            let mut c = c.borrow_mut();
            c.waiting.remove(&(self.deadline, self.id));
            self.deadline = c.now.saturating_add(dur.as_nanos());
        })
    }
}

impl Future for Delay {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        CLOCK.with(|c| {
            let mut c = c.borrow_mut();
            if c.now >= self.deadline {
                c.waiting.remove(&(self.deadline, self.id));
                Poll::Ready(())
            } else {
                c.waiting.insert((self.deadline, self.id), cx.waker().clone());
                Poll::Pending
            }
        })
    }
}

impl Drop for Delay {
    fn drop(&mut self) {
        let w = CLOCK.try_with(|c| match c.try_borrow_mut() {
            Ok(mut c) => c.waiting.remove(&(self.deadline, self.id)),
            Err(_) => None,
        });
        drop(w);
    }
}
