//! Scheduling hooks added for verification: every lock operation is announced to an optional,
//! process-wide hook, which may delay the calling thread before an acquisition.
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;

/// How a lock is acquired.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// shared, blocked by waiting writers
    Shared,
    /// shared, recursive: not blocked by waiting writers
    Recursive,
    /// exclusive
    Exclusive,
    /// upgradable
    Upgradable,
}

/// Receives lock operations.
pub trait Hook: Sync + Send {
    /// Called before a blocking acquisition of the lock at `addr`.
    fn acquire(&self, addr: usize, kind: Kind);
    /// Called after a successful try-acquisition.
    fn acquired(&self, addr: usize, kind: Kind);
    /// Called after a release (`shared` tells which side).
    fn released(&self, addr: usize, kind: Kind);
    /// Called after a write lock has been downgraded to a read lock.
    fn downgraded(&self, addr: usize);
}

static ON: AtomicBool = AtomicBool::new(false);
static HOOK: OnceLock<Box<dyn Hook>> = OnceLock::new();

/// Installs the hook (once).
pub fn install(hook: Box<dyn Hook>) {
    let _ = HOOK.set(hook);
    ON.store(true, Ordering::SeqCst);
}

#[inline(always)]
fn hook() -> Option<&'static dyn Hook> {
    if ON.load(Ordering::Relaxed) {
        HOOK.get().map(|h| &**h)
    } else {
        None
    }
}

#[inline(always)]
pub(crate) fn acquire(addr: usize, kind: Kind) {
    if let Some(h) = hook() {
        h.acquire(addr, kind)
    }
}
#[inline(always)]
pub(crate) fn acquired(addr: usize, kind: Kind) {
    if let Some(h) = hook() {
        h.acquired(addr, kind)
    }
}
#[inline(always)]
pub(crate) fn released(addr: usize, kind: Kind) {
    if let Some(h) = hook() {
        h.released(addr, kind)
    }
}
#[inline(always)]
pub(crate) fn downgraded(addr: usize) {
    if let Some(h) = hook() {
        h.downgraded(addr)
    }
}
