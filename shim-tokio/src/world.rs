//! The scripted environment behind `tokio::net` and `tokio::time` in harness builds.
//! Single-threaded; the harness owns the script, the code under test only sees sockets and timers.
use std::collections::VecDeque;
use std::task::Waker;

pub enum Seg {
    /// bytes delivered by one read (split further if the reader's buffer is smaller)
    Data(Vec<u8>),
    /// the socket has nothing to read for one poll
    Pending,
    Err(std::io::ErrorKind),
    Eof,
}
pub enum Wr {
    /// the peer accepts nothing until the harness removes this entry and calls `writable`
    Block,
    /// accept at most this many bytes in one write
    Part(usize),
    Pending,
    Err(std::io::ErrorKind),
    /// the peer accepts nothing (write returns 0)
    Zero,
}

pub struct World {
    pub connect_err: Option<std::io::ErrorKind>,
    pub connect_pending: u32,
    pub connects: u32,
    pub rx: VecDeque<Seg>,
    pub tx: Vec<u8>,
    pub wr: VecDeque<Wr>,
    pub flush_err: Option<std::io::ErrorKind>,
    pub now: u64, // milliseconds
    pub reads: u32,
    pub writes: u32,
    pub dropped: u32,
    /// who waits for the socket to become readable, writable, and for timers
    pub rd_waker: Option<Waker>,
    pub wr_waker: Option<Waker>,
    pub timers: Vec<(u64, Waker)>,
}

static mut WORLD: Option<World> = None;

#[allow(static_mut_refs)]
pub fn get() -> &'static mut World {
    unsafe {
        WORLD.get_or_insert_with(|| World {
            connect_err: None,
            connect_pending: 0,
            connects: 0,
            rx: VecDeque::new(),
            tx: Vec::new(),
            wr: VecDeque::new(),
            flush_err: None,
            now: 0,
            reads: 0,
            writes: 0,
            dropped: 0,
            rd_waker: None,
            wr_waker: None,
            timers: Vec::new(),
        })
    }
}
#[allow(static_mut_refs)]
pub fn reset() {
    unsafe { WORLD = None }
}

/// the peer does something; wakes the reader if it waits
pub fn push(s: Seg) {
    let w = get();
    w.rx.push_back(s);
    if let Some(k) = w.rd_waker.take() {
        k.wake();
    }
}
/// the peer makes room; wakes the writer if it waits
pub fn writable() {
    if let Some(k) = get().wr_waker.take() {
        k.wake();
    }
}
/// time passes; wakes whoever waits for a timer that has expired
pub fn advance(ms: u64) {
    let w = get();
    w.now += ms;
    let mut i = 0;
    while i < w.timers.len() {
        if w.timers[i].0 <= w.now {
            let (_, k) = w.timers.swap_remove(i);
            k.wake();
        } else {
            i += 1;
        }
    }
}
pub fn timer(at: u64, k: &Waker) {
    let w = get();
    let mut i = 0;
    while i < w.timers.len() {
        if w.timers[i].0 == at && w.timers[i].1.will_wake(k) {
            return;
        }
        i += 1;
    }
    w.timers.push((at, k.clone()));
}
