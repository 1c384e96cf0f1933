//! The whole client: `Client`, the event loop, codec and channels, against a scripted socket, clock and executor.
use crate::codec::frame;
use crate::refm::{self, Req};
use crate::sym::*;
use crate::{ck, cover};
use futures::channel::mpsc::Receiver;
use futures::Stream;
use ruq::{Client, Notification, Property, PublishBuilder, QoS};
use std::future::Future;
use std::io::ErrorKind;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::world::{self, Seg, Wr};

#[path = "session.rs"]
mod session;
pub use session::*;
#[path = "sched.rs"]
mod sched;
pub use sched::*;

static mut WOKEN: bool = false;
/// the waker of the latest poll, the only one that counts
static mut GEN: usize = 1;
static mut SELECT: u32 = 0;
/// `select!` starts with an arbitrary branch each time it is polled
const ANY: u32 = 99;

pub fn select_start(n: u32) -> u32 {
    unsafe {
        if SELECT == ANY {
            choice(n)
        } else {
            SELECT % n
        }
    }
}

fn waker() -> Waker {
    fn clone(p: *const ()) -> RawWaker {
        RawWaker::new(p, &VT)
    }
    fn wake(p: *const ()) {
        unsafe {
            if p as usize == GEN {
                WOKEN = true
            }
        }
    }
    fn drop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, drop);
    unsafe { Waker::from_raw(clone(GEN as *const ())) }
}
/// a waker nobody listens to, for the harness' own polling
fn idle() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(clone(std::ptr::null())) }
}

pub type End = Result<(), Option<ErrorKind>>;

pub struct Sim {
    pub client: Option<Client>,
    ev: Option<Pin<Box<dyn Future<Output = Result<(), anyhow::Error>>>>>,
    pub notif: Option<Receiver<Notification>>,
    pub done: Option<End>,
    pub polls: u32,
    /// how much of the sent bytes has been looked at
    seen: usize,
}

impl Sim {
    /// not polled yet
    pub fn new(select: u32) -> Sim {
        unsafe {
            WOKEN = true;
            GEN = 1;
            SELECT = select;
        }
        ruq::verif::limit_pktids(0);
        world::reset();
        let (client, ev, notif) = Client::new("broker:1883");
        Sim { client: Some(client), ev: Some(Box::pin(ev)), notif: Some(notif), done: None, polls: 0, seen: 0 }
    }
    /// connected, CONNACK received, its notification taken
    pub fn up(select: u32) -> Sim {
        let mut s = Sim::new(select);
        s.run();
        match s.sent() {
            Some(Req::Connect { .. }) => {}
            _ => ck!(false),
        }
        s.data(&[0x20, 3, 0, 0, 0]);
        ck!(s.done.is_none());
        ck!(matches!(s.note(), Some(Notification::ConnAck(_))));
        ck!(s.quiet());
        s
    }
    /// the executor: polls the event loop for as long as something has woken it
    pub fn run(&mut self) {
        let w = waker();
        let mut cx = Context::from_waker(&w);
        let mut n = 0;
        while unsafe { WOKEN } && self.done.is_none() {
            unsafe { WOKEN = false };
            self.polls += 1;
            n += 1;
            // nothing here needs that many: it would spin
            ck!(n < 300);
            if let Some(ev) = self.ev.as_mut() {
                if let Poll::Ready(r) = ev.as_mut().poll(&mut cx) {
                    self.done = Some(r.map_err(|e| e.downcast_ref::<std::io::Error>().map(|e| e.kind())));
                }
            }
        }
        if self.done.is_some() {
            // a finished future is dropped by whoever spawned it
            self.ev = None;
        }
    }
    pub fn recv(&mut self, s: Seg) {
        world::push(s);
        self.run();
    }
    pub fn data(&mut self, d: &[u8]) {
        self.recv(Seg::Data(d.to_vec()));
    }
    pub fn pass(&mut self, ms: u64) {
        world::advance(ms);
        self.run();
    }
    /// the next packet the client has sent; None if there is none
    pub fn sent(&mut self) -> Option<Req<'static>> {
        let tx: &'static Vec<u8> = &world::get().tx;
        if self.seen == tx.len() {
            return None;
        }
        // packets are compared before more is sent; the bytes do not move meanwhile
        let rest: &'static [u8] = unsafe { std::slice::from_raw_parts(tx.as_ptr().add(self.seen), tx.len() - self.seen) };
        match refm::request(rest) {
            Ok((r, n)) => {
                self.seen += n;
                Some(r)
            }
            Err(_) => {
                ck!(false);
                None
            }
        }
    }
    pub fn quiet(&self) -> bool {
        self.seen == world::get().tx.len()
    }
    /// the next notification, if there is one
    pub fn note(&mut self) -> Option<Notification> {
        let w = idle();
        let mut cx = Context::from_waker(&w);
        match Pin::new(self.notif.as_mut().unwrap()).poll_next(&mut cx) {
            Poll::Ready(x) => x,
            Poll::Pending => None,
        }
    }
    pub fn c(&mut self) -> &mut Client {
        self.client.as_mut().unwrap()
    }
    pub fn closed(&self) -> bool {
        world::get().dropped > 0
    }
}
fn order() -> u32 {
    choice(3)
}
fn be(x: u16) -> [u8; 2] {
    x.to_be_bytes()
}
fn id16() -> u16 {
    let id = u16s();
    assume(id != 0);
    id
}
/// a PUBLISH of the server
fn publish(q: u8, fl: u8, topic: &[u8], id: u16, payload: &[u8]) -> Vec<u8> {
    let mut b = vec![0, topic.len() as u8];
    b.extend_from_slice(topic);
    if q > 0 {
        b.extend_from_slice(&be(id));
    }
    b.push(0);
    b.extend_from_slice(payload);
    frame(0x30 | (q << 1) | fl, &b)
}
fn puback(id: u16) -> Vec<u8> {
    frame(0x40, &be(id))
}
fn suback(id: u16, r: u8) -> Vec<u8> {
    let i = be(id);
    frame(0x90, &[i[0], i[1], 0, r])
}
fn unsuback(id: u16, r: u8) -> Vec<u8> {
    let i = be(id);
    frame(0xb0, &[i[0], i[1], 0, r])
}

// ---- handshake -------------------------------------------------------------------------------------------------

/// Before CONNACK: one CONNECT, whatever commands are waiting and however the bytes arrive.
pub fn h_hs_connect_first() {
    let mut s = Sim::new(order());
    world::get().connect_pending = choice(2);
    let k = choice(3);
    let mut i = 0;
    while i < k {
        ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok());
        i += 1;
    }
    s.run();
    ck!(s.done.is_none());
    ck!(world::get().connects == 1);
    match s.sent() {
        Some(Req::Connect { version, flags, keep_alive, .. }) => {
            ck!(version == 5 && flags & 1 == 0 && keep_alive > 0);
            observe(keep_alive as u64);
            cover!();
        }
        _ => ck!(false),
    }
    ck!(s.quiet());
    ck!(s.c().unsubscribe("u").is_ok());
    s.run();
    ck!(s.quiet() && s.note().is_none());
    // CONNACK in pieces
    let f = choice(2) as u8;
    let a = [0x20, 3, f, 0, 0];
    let cut = choice(5) as usize;
    if cut > 0 {
        s.data(&a[..cut]);
        ck!(s.quiet() && s.done.is_none() && s.note().is_none());
    }
    s.data(&a[cut..]);
    ck!(s.done.is_none());
    match s.note() {
        Some(Notification::ConnAck(c)) => {
            ck!(crate::codec::code_is(ruq::verif::connack_code(&c), 0));
        }
        _ => ck!(false),
    }
    // what was waiting is sent now
    let mut i = 0;
    while i < k {
        ck!(matches!(s.sent(), Some(Req::Subscribe { .. })));
        i += 1;
    }
    ck!(matches!(s.sent(), Some(Req::Unsubscribe { .. })));
    ck!(s.quiet());
    cover!();
}
/// Any CONNACK: success goes on, everything else ends the loop with an error and nothing is sent.
fn hs_connack(n: usize) {
    let mut s = Sim::new(order());
    ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok());
    s.run();
    ck!(matches!(s.sent(), Some(Req::Connect { .. })));
    let b = bytes(n);
    let w = refm::connack(&b);
    s.data(&frame(0x20, &b));
    match w {
        Ok(a) => {
            match s.note() {
                Some(Notification::ConnAck(c)) => ck!(crate::codec::code_is(ruq::verif::connack_code(&c), a.reason)),
                _ => ck!(false),
            }
            if a.reason == 0 {
                ck!(s.done.is_none());
                ck!(matches!(s.sent(), Some(Req::Subscribe { .. })));
                cover!();
            } else {
                ck!(matches!(s.done, Some(Err(_))));
                ck!(s.quiet() && s.closed());
                cover!();
            }
        }
        Err(refm::E::Bad) => {
            ck!(matches!(s.done, Some(Err(_))));
            ck!(s.quiet() && s.note().is_none());
            cover!();
        }
        Err(_) => {}
    }
}
pub fn h_hs_connack() {
    let n = range(0, 3) as usize;
    hs_connack(n);
}
pub fn h_hs_connack_deep() {
    hs_connack(pick(&[6usize, 7, 8]));
}
/// Any first packet that is not CONNACK ends the loop with an error.
fn hs_other(n: u32) {
    let mut s = Sim::new(0);
    s.run();
    ck!(matches!(s.sent(), Some(Req::Connect { .. })));
    let h = u8s();
    assume(h >> 4 != 2);
    let n = range(0, n) as usize;
    let mut b = vec![h, n as u8];
    b.extend_from_slice(&bytes(n));
    s.data(&b);
    ck!(matches!(s.done, Some(Err(_))));
    ck!(s.quiet() && s.note().is_none() && s.closed());
    cover!();
}
pub fn h_hs_other() {
    hs_other(4)
}
pub fn h_hs_other_deep() {
    hs_other(7)
}
/// However long CONNACK takes, nothing is sent before it; afterwards the promise holds from there on.
pub fn h_hs_slow() {
    let mut s = Sim::new(order());
    s.run();
    let ka = match s.sent() {
        Some(Req::Connect { keep_alive, .. }) => keep_alive as u64 * 1000,
        _ => {
            ck!(false);
            0
        }
    };
    if choice(2) == 1 {
        ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok());
    }
    let mut i = 0;
    let n = range(1, 3);
    let mut now = 0;
    while i < n {
        let d = u16s() as u64;
        // the executor runs at every deadline on the way
        if let Some(t) = next_timer() {
            if t > now && t - now < d {
                s.pass(t - now);
                ck!(s.quiet());
                now = t;
            }
        }
        s.pass(d);
        now += d;
        ck!(s.quiet() && s.note().is_none());
        if s.done.is_some() {
            // it may lose patience
            ck!(matches!(s.done, Some(Err(_))));
            cover!();
            return;
        }
        i += 1;
    }
    s.data(&[0x20, 3, 0, 0, 0]);
    ck!(s.done.is_none());
    ck!(matches!(s.note(), Some(Notification::ConnAck(_))));
    while !s.quiet() {
        ck!(matches!(s.sent(), Some(Req::Subscribe { .. })));
    }
    // silent for no longer than promised
    s.pass(ka);
    ck!(s.done.is_none() && matches!(s.sent(), Some(Req::PingReq)));
    s.data(&[0xd0, 0]);
    s.pass(ka);
    ck!(s.done.is_none() && matches!(s.sent(), Some(Req::PingReq)));
    cover!();
}
/// Connection failures before CONNACK: always an error, never a wait without end.
pub fn h_hs_failures() {
    let mut s = Sim::new(0);
    let kind = pick(&KINDS);
    match choice(6) {
        0 => {
            world::get().connect_err = Some(kind);
            s.run();
            ck!(world::get().connects == 1 && world::get().tx.is_empty());
        }
        1 => {
            s.run();
            s.recv(Seg::Eof);
        }
        2 => {
            s.run();
            let n = range(1, 4) as usize;
            s.data(&[0x20, 3, 0, 0][..n]);
            ck!(s.done.is_none());
            s.recv(Seg::Eof);
        }
        3 => {
            s.run();
            s.recv(Seg::Err(kind));
        }
        4 => {
            world::get().wr.push_back(Wr::Err(kind));
            s.run();
        }
        _ => {
            world::get().wr.push_back(Wr::Part(3));
            world::get().wr.push_back(Wr::Zero);
            s.run();
        }
    }
    ck!(matches!(s.done, Some(Err(_))));
    ck!(s.note().is_none());
    cover!();
}

/// what an operating system reports (without those that ask to try again)
const KINDS: [ErrorKind; 19] = [
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::Other,
];

// ---- messages from the server ----------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum N {
    Msg,
    Sub,
    Unsub,
}
fn is(n: &Notification, k: N) -> bool {
    match (n, k) {
        (Notification::Message(_), N::Msg) => true,
        (Notification::SubAck(_), N::Sub) => true,
        (Notification::UnsubAck(_), N::Unsub) => true,
        _ => false,
    }
}
/// k packets of the server: acknowledged and notified once each, in order
fn inbound(k: u32, batched: bool, sel: u32) {
    let mut s = Sim::up(sel);
    let mut notes: Vec<N> = vec![];
    let mut acks: Vec<u16> = vec![];
    let mut all = vec![];
    let mut i = 0;
    while i < k {
        let id = id16();
        let b = match choice(6) {
            0 => {
                notes.push(N::Msg);
                publish(0, choice(2) as u8, b"t", 0, &bytes(1))
            }
            1 => {
                notes.push(N::Msg);
                acks.push(id);
                publish(1, pick(&[0u8, 1, 8]), b"tp", id, &bytes(1))
            }
            2 => {
                notes.push(N::Sub);
                suback(id, pick(&[0u8, 128]))
            }
            3 => {
                notes.push(N::Unsub);
                if batched {
                    // for an UNSUBSCRIBE with three topics
                    let i = be(id);
                    frame(0xb0, &[i[0], i[1], 0, 17, 0, 17])
                } else {
                    unsuback(id, 0)
                }
            }
            4 => puback(id),
            _ => vec![0xd0, 0],
        };
        if batched {
            all.extend_from_slice(&b);
        } else {
            s.data(&b);
            ck!(s.done.is_none());
        }
        i += 1;
    }
    if batched {
        s.data(&all);
        ck!(s.done.is_none());
    }
    let mut i = 0;
    while i < acks.len() {
        match s.sent() {
            Some(Req::PubAck(a)) => ck!(a.pktid == acks[i] && a.reason == 0),
            _ => ck!(false),
        }
        cover!();
        i += 1;
    }
    ck!(s.quiet());
    let mut i = 0;
    while i < notes.len() {
        match s.note() {
            Some(n) => ck!(is(&n, notes[i])),
            None => ck!(false),
        }
        i += 1;
    }
    ck!(s.note().is_none());
    observe(world::get().tx.len() as u64);
    cover!();
}
pub fn h_in_sequence() {
    inbound(2, choice(2) == 1, ANY)
}
pub fn h_in_sequence_3() {
    inbound(3, choice(2) == 1, order())
}
pub fn h_in_sequence_4() {
    inbound(4, choice(2) == 1, 0)
}
/// a QoS 1 message of arbitrary content is acknowledged with its id
fn in_publish(n: u32) {
    let mut s = Sim::up(0);
    let n = range(0, n) as usize;
    let h = u8s();
    assume(h >> 4 == 3);
    let b = bytes(n);
    let w = refm::publish(h & 15, &b);
    s.data(&frame(h, &b));
    match w {
        Ok(w) => {
            if w.qos == 2 {
                // not supported by the client
                return;
            }
            ck!(s.done.is_none());
            if w.qos == 1 {
                match s.sent() {
                    Some(Req::PubAck(a)) => ck!(Some(a.pktid) == w.pktid && a.reason == 0),
                    _ => ck!(false),
                }
                cover!();
            }
            ck!(matches!(s.note(), Some(Notification::Message(_))));
            ck!(s.quiet() && s.note().is_none());
            cover!();
        }
        Err(refm::E::Bad) => {
            ck!(matches!(s.done, Some(Err(_))));
            ck!(s.quiet() && s.note().is_none());
            cover!();
        }
        Err(_) => {}
    }
}
pub fn h_in_publish() {
    in_publish(6)
}
pub fn h_in_publish_deep() {
    in_publish(8)
}
/// more messages than the notification queue holds: none is lost, none overtakes
pub fn h_in_backpressure() {
    step_limit(20_000_000);
    let mut s = Sim::up(order());
    let q = choice(2) as u8;
    let k = 120u16;
    let mut all = vec![];
    let mut i = 0;
    while i < k {
        // every third one is a SUBACK, to tell them apart
        all.extend_from_slice(&if i % 3 == 2 { suback(i + 1, 0) } else { publish(q, 0, b"t", i + 1, b"x") });
        i += 1;
    }
    s.data(&all);
    ck!(s.done.is_none());
    let mut got = 0;
    let mut idle = 0;
    while got < k && idle < 3 {
        match s.note() {
            Some(n) => {
                ck!(is(&n, if got % 3 == 2 { N::Sub } else { N::Msg }));
                got += 1;
                idle = 0;
            }
            None => idle += 1,
        }
        s.run();
    }
    ck!(got == k && s.note().is_none());
    if q == 1 {
        let mut i = 0;
        while i < k {
            if i % 3 != 2 {
                match s.sent() {
                    Some(Req::PubAck(a)) => ck!(a.pktid == i + 1),
                    _ => ck!(false),
                }
            }
            i += 1;
        }
    }
    ck!(s.quiet() && s.done.is_none());
    cover!();
}
/// nobody listens to notifications any more: messages are still acknowledged
pub fn h_in_no_listener() {
    let mut s = Sim::up(order());
    s.notif = None;
    let k = range(1, 3);
    let mut i = 0;
    while i < k {
        let id = id16();
        let t = ascii(choice(2) as usize);
        s.data(&publish(1, pick(&[0u8, 8, 1]), t.as_bytes(), id, &bytes(choice(2) as usize)));
        ck!(s.done.is_none());
        match s.sent() {
            Some(Req::PubAck(a)) => ck!(a.pktid == id),
            _ => ck!(false),
        }
        i += 1;
    }
    ck!(s.quiet());
    cover!();
}
/// the listener goes away while the event loop waits for it
pub fn h_in_listener_leaves() {
    step_limit(20_000_000);
    let mut s = Sim::up(order());
    let k = pick(&[99u16, 100, 101, 102, 103, 130]);
    let mut all = vec![];
    let mut i = 0;
    while i < k {
        all.extend_from_slice(&publish(1, 0, b"t", i + 1, b"x"));
        i += 1;
    }
    s.data(&all);
    ck!(s.done.is_none());
    let taken = choice(3);
    let mut i = 0;
    while i < taken {
        ck!(matches!(s.note(), Some(Notification::Message(_))));
        i += 1;
    }
    s.notif = None;
    s.run();
    ck!(s.done.is_none());
    s.data(&publish(1, 0, b"t", 999, b"x"));
    ck!(s.done.is_none());
    let mut i = 0;
    while i < k {
        match s.sent() {
            Some(Req::PubAck(a)) => ck!(a.pktid == i + 1),
            _ => ck!(false),
        }
        i += 1;
    }
    match s.sent() {
        Some(Req::PubAck(a)) => ck!(a.pktid == 999),
        _ => ck!(false),
    }
    ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok());
    s.run();
    ck!(matches!(s.sent(), Some(Req::Subscribe { .. })));
    ck!(s.quiet() && s.done.is_none());
    cover!();
}
/// hundreds of messages: each acknowledged and notified as it comes
pub fn h_in_many() {
    step_limit(60_000_000);
    let mut s = Sim::up(order());
    let k = 700u32;
    let mode = choice(3);
    let first = id16();
    let mut i = 0;
    while i < k {
        // the same id again and again, or ids one after the other
        let id = match mode {
            0 => first,
            1 => (i + 1) as u16,
            _ => (i % 3 + 1) as u16,
        };
        if i % 5 == 4 {
            s.data(&publish(0, 0, b"t", 0, b"x"));
        } else {
            s.data(&publish(1, 0, b"t", id, b"x"));
            match s.sent() {
                Some(Req::PubAck(a)) => ck!(a.pktid == id && a.reason == 0),
                _ => ck!(false),
            }
        }
        ck!(matches!(s.note(), Some(Notification::Message(_))));
        ck!(s.done.is_none() && s.quiet() && s.note().is_none());
        i += 1;
    }
    cover!();
}
fn numbered(q: u8, i: u32) -> Vec<u8> {
    publish(q, 0, b"t", (i + 1) as u16, &[b'a' + (i / 676 % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8])
}
fn is_number(n: &Notification, i: u32) -> bool {
    let t = format!("[{}, {}, {}]", b'a' as u32 + i / 676 % 26, b'a' as u32 + i / 26 % 26, b'a' as u32 + i % 26);
    match n {
        Notification::Message(m) => has(m, &t),
        _ => false,
    }
}
/// the content of each notification: none is lost, doubled or overtaken
pub fn h_fmt_in_order() {
    let mut s = Sim::up(order());
    let k = range(1, 5);
    let batched = choice(2) == 1;
    let mut all = vec![];
    let mut i = 0;
    while i < k {
        let b = numbered(choice(2) as u8, i);
        if batched {
            all.extend_from_slice(&b);
        } else {
            s.data(&b);
        }
        i += 1;
    }
    if batched {
        s.data(&all);
    }
    let mut i = 0;
    while i < k {
        match s.note() {
            Some(n) => ck!(is_number(&n, i)),
            None => ck!(false),
        }
        i += 1;
    }
    ck!(s.note().is_none() && s.done.is_none());
    cover!();
}
/// the same with a consumer that is slower than the server
pub fn h_fmt_backpressure() {
    step_limit(400_000_000);
    let mut s = Sim::up(0);
    let k = 330u32;
    let burst = pick(&[1u32, 7, 99, 100, 101, 102, 250]);
    let q = choice(2) as u8;
    let mut i = 0;
    let mut got = 0;
    while got < k {
        let mut b = vec![];
        let mut j = 0;
        while j < burst && i < k {
            b.extend_from_slice(&numbered(q, i));
            i += 1;
            j += 1;
        }
        if j > 0 {
            s.data(&b);
        }
        ck!(s.done.is_none());
        // fewer are taken than have come, in the end all
        let take = if i < k { burst / 2 + 1 } else { k };
        let mut j = 0;
        while j < take && got < k {
            match s.note() {
                Some(n) => ck!(is_number(&n, got)),
                None => {
                    s.run();
                    match s.note() {
                        Some(n) => ck!(is_number(&n, got)),
                        None => ck!(false),
                    }
                }
            }
            got += 1;
            j += 1;
        }
        s.run();
    }
    ck!(s.note().is_none() && s.done.is_none());
    cover!();
}
fn has(h: &str, n: &str) -> bool {
    h.contains(n)
}
/// what the notification texts tell (formatting included)
pub fn h_fmt_in_text() {
    let mut s = Sim::up(0);
    match choice(4) {
        0 => {
            let (q, w) = pick(&[(0u8, "AtMostOnce"), (1, "AtLeastOnce")]);
            let rt = choice(2) as u8;
            let dup = if q > 0 { choice(2) as u8 } else { 0 };
            let id = pick(&[1u16, 10, 258, 65535]);
            let t = pick(&["a", "top/ic"]);
            let mut b = vec![0, t.len() as u8];
            b.extend_from_slice(t.as_bytes());
            if q > 0 {
                b.extend_from_slice(&be(id));
            }
            let text = choice(2) == 1;
            if text {
                b.extend_from_slice(&[2, 1, 1]);
            } else {
                b.push(0);
            }
            b.extend_from_slice(b"hey");
            s.data(&frame(0x30 | (q << 1) | rt | (dup << 3), &b));
            match s.note() {
                Some(Notification::Message(m)) => {
                    ck!(has(&m, &format!("topic: {:?}", t)));
                    ck!(has(&m, if text { "payload: String(\"hey\")" } else { "payload: Bytes([104, 101, 121])" }));
                    ck!(has(&m, &format!("qos: {}", w)));
                    ck!(has(&m, &format!("retain: {}", rt == 1)) && has(&m, &format!("dup: {}", dup == 1)));
                    ck!(has(&m, &if q > 0 { format!("pktid: Some({})", id) } else { "pktid: None".into() }));
                    cover!();
                }
                _ => ck!(false),
            }
        }
        1 => {
            let (r, w) = pick(&[
                (0u8, "QoS0"),
                (1, "QoS1"),
                (2, "QoS2"),
                (128, "UnspecifiedError"),
                (131, "ImplementationSpecificError"),
                (135, "NotAuthorized"),
                (143, "TopicFilterInvalid"),
                (145, "PacketIdentifierInUse"),
                (151, "QuotaExceeded"),
                (158, "SharedSubsNotSupported"),
                (161, "SubIdsNotSupported"),
                (162, "WildcardSubsNotSupported"),
            ]);
            let id = pick(&[1u16, 300]);
            let i = be(id);
            s.data(&frame(0x90, &[i[0], i[1], 7, 0x26, 0, 1, b'k', 0, 1, b'v', r]));
            match s.note() {
                Some(Notification::SubAck(m)) => {
                    ck!(has(&m, &format!("reason: {}", w)) && has(&m, &format!("pktid: {}", id)));
                    ck!(has(&m, "UserProperty(\"k\", \"v\")"));
                    cover!();
                }
                _ => ck!(false),
            }
        }
        2 => {
            let (r, w) = pick(&[
                (0u8, "Success"),
                (17, "NoSubscriptionExisted"),
                (128, "UnspecifiedError"),
                (131, "ImplementationSpecificError"),
                (135, "NotAuthorized"),
                (143, "TopicFilterInvalid"),
                (145, "PacketIdentifierInUse"),
            ]);
            let id = pick(&[1u16, 300]);
            let i = be(id);
            s.data(&frame(0xb0, &[i[0], i[1], 4, 0x1f, 0, 1, b'z', r]));
            match s.note() {
                Some(Notification::UnsubAck(m)) => {
                    ck!(has(&m, &w) && has(&m, &format!("pktid: {}", id)));
                    ck!(has(&m, "ReasonString(\"z\")"));
                    cover!();
                }
                _ => ck!(false),
            }
        }
        _ => {
            let mut b = vec![0, 1, b't', 31];
            b.extend_from_slice(&[2, 0, 0, 1, 2]);
            b.extend_from_slice(&[8, 0, 2, b'r', b't']);
            b.extend_from_slice(&[9, 0, 2, 7, 9]);
            b.extend_from_slice(&[0x26, 0, 1, b'k', 0, 2, b'v', b'w']);
            b.extend_from_slice(&[0x26, 0, 1, b'k', 0, 2, b'v', b'x']);
            b.extend_from_slice(b"\xff");
            s.data(&frame(0x30, &b));
            match s.note() {
                Some(Notification::Message(m)) => {
                    ck!(has(&m, "MessageExpiryInterval(258), ResponseTopic(\"rt\"), CorrelationData([7, 9]), UserProperty(\"k\", \"vw\"), UserProperty(\"k\", \"vx\")"));
                    ck!(has(&m, "payload: Bytes([255])"));
                    cover!();
                }
                _ => ck!(false),
            }
        }
    }
}
/// where `t` goes on after `pre` and then `val`, from `at`
fn follows(t: &str, at: usize, pre: &str, val: &str) -> usize {
    match t.as_bytes()[at..].windows(pre.len()).position(|w| w == pre.as_bytes()) {
        Some(i) => {
            let i = at + i + pre.len();
            ck!(t.len() >= i + val.len() && eq(&t.as_bytes()[i..i + val.len()], val.as_bytes()));
            i + val.len()
        }
        None => {
            ck!(false);
            0
        }
    }
}
/// arbitrary numbers and bytes in a message show up as they are
fn fmt_values(n: u32) {
    step_limit(60_000_000);
    let mut s = Sim::up(0);
    let id = id16();
    let pl = bytes(range(0, n) as usize);
    let kind = choice(3);
    let (x, y) = (u32s(), u8s());
    let mut b = vec![0, 1, b't'];
    b.extend_from_slice(&be(id));
    let prop = match kind {
        0 => {
            b.extend_from_slice(&[5, 2]);
            b.extend_from_slice(&x.to_be_bytes());
            format!("MessageExpiryInterval({})", x)
        }
        1 => {
            b.extend_from_slice(&[4, 9, 0, 1, y]);
            format!("CorrelationData([{}])", y)
        }
        _ => {
            // any indicator other than text
            assume(y != 1);
            b.extend_from_slice(&[2, 1, y]);
            format!("PayloadFormatId({})", y)
        }
    };
    b.extend_from_slice(&pl);
    s.data(&frame(0x32, &b));
    match s.note() {
        Some(Notification::Message(m)) => {
            let i = follows(&m, 0, "payload: Bytes(", &format!("{:?})", pl));
            let i = follows(&m, i, "properties: [", &format!("{}]", prop));
            follows(&m, i, "pktid: ", &format!("Some({})", id));
            cover!();
        }
        _ => ck!(false),
    }
    cover!();
}
pub fn h_fmt_values() {
    fmt_values(1)
}
pub fn h_fmt_values_deep() {
    fmt_values(2)
}
/// every reason code of an UNSUBACK for many topics
pub fn h_fmt_unsuback_many() {
    step_limit(100_000_000);
    let mut s = Sim::up(0);
    let n = pick(&[2usize, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 65, 130]);
    let id = id16();
    let (c, w) = pick(&[
        (0u8, "Success"),
        (17, "NoSubscriptionExisted"),
        (128, "UnspecifiedError"),
        (131, "ImplementationSpecificError"),
        (135, "NotAuthorized"),
        (143, "TopicFilterInvalid"),
        (145, "PacketIdentifierInUse"),
    ]);
    let other = if c == 0 { (17u8, "NoSubscriptionExisted") } else { (0u8, "Success") };
    let at = pick(&[0usize, 1, n / 2, n - 2, n - 1]);
    let mut b = be(id).to_vec();
    b.push(0);
    let mut want = vec![];
    let mut i = 0;
    while i < n {
        b.push(if i == at { c } else { other.0 });
        want.push(if i == at { w } else { other.1 });
        i += 1;
    }
    s.data(&frame(0xb0, &b));
    match s.note() {
        Some(Notification::UnsubAck(m)) => {
            let mut p = 0;
            let mut i = 0;
            while i < n {
                p = match m.as_bytes()[p..].windows(want[i].len()).position(|x| x == want[i].as_bytes()) {
                    Some(j) => p + j + want[i].len(),
                    None => {
                        ck!(false);
                        return;
                    }
                };
                i += 1;
            }
            ck!(has(&m, &format!("{}", id)));
            cover!();
        }
        _ => ck!(false),
    }
}
/// arbitrary texts show up as they are (quoted as Rust does)
pub fn h_fmt_texts() {
    step_limit(200_000_000);
    let mut s = Sim::up(0);
    let mut t = ascii(1);
    match choice(3) {
        0 => t.push('/'),
        1 => t.insert_str(0, "a "),
        _ => (),
    }
    let q = format!("{:?}", t);
    let l = [0, t.len() as u8];
    let mut b = vec![];
    let (pre, pos) = match choice(5) {
        0 => {
            b.extend_from_slice(&l);
            b.extend_from_slice(t.as_bytes());
            b.push(0);
            ("topic: ", "")
        }
        1 => {
            b.extend_from_slice(&[0, 1, b't', 2, 1, 1]);
            b.extend_from_slice(t.as_bytes());
            ("payload: String(", ")")
        }
        2 => {
            b.extend_from_slice(&[0, 1, b't', 3 + l[1], 8]);
            b.extend_from_slice(&l);
            b.extend_from_slice(t.as_bytes());
            ("ResponseTopic(", ")")
        }
        3 => {
            b.extend_from_slice(&[0, 1, b't', 6 + l[1], 0x26]);
            b.extend_from_slice(&l);
            b.extend_from_slice(t.as_bytes());
            b.extend_from_slice(&[0, 1, b'v']);
            ("UserProperty(", ", \"v\")")
        }
        _ => {
            b.extend_from_slice(&[0, 1, b't', 6 + l[1], 0x26, 0, 1, b'k']);
            b.extend_from_slice(&l);
            b.extend_from_slice(t.as_bytes());
            ("UserProperty(\"k\", ", ")")
        }
    };
    s.data(&frame(0x30, &b));
    match s.note() {
        Some(Notification::Message(m)) => {
            follows(&m, 0, pre, &format!("{}{}", q, pos));
            cover!();
        }
        _ => ck!(false),
    }
}
/// nothing is left out of a long message
pub fn h_fmt_long() {
    step_limit(200_000_000);
    let mut s = Sim::up(0);
    let n = pick(&[9usize, 17, 33, 64, 65, 100, 128, 129, 256, 257, 300, 513, 700, 1025, 2049, 4097, 10000]);
    let t = crate::codec::pattern(n);
    let txt = String::from_utf8(t.clone()).unwrap();
    let l = be(n as u16);
    match choice(7) {
        0 => {
            s.data(&publish(0, 0, b"t", 0, &t));
            match s.note() {
                Some(Notification::Message(m)) => ck!(has(&m, &format!("payload: Bytes({:?})", t))),
                _ => ck!(false),
            }
        }
        1 => {
            let mut b = vec![0, 1, b't', 2, 1, 1];
            b.extend_from_slice(&t);
            s.data(&frame(0x30, &b));
            match s.note() {
                Some(Notification::Message(m)) => ck!(has(&m, &format!("payload: String({:?})", txt))),
                _ => ck!(false),
            }
        }
        2 => {
            let mut b = vec![l[0], l[1]];
            b.extend_from_slice(&t);
            b.push(0);
            s.data(&frame(0x30, &b));
            match s.note() {
                Some(Notification::Message(m)) => ck!(has(&m, &format!("topic: {:?}", txt))),
                _ => ck!(false),
            }
        }
        k @ (3 | 4 | 5) => {
            let mut p = vec![[8u8, 9, 0x26][k as usize - 3], l[0], l[1]];
            p.extend_from_slice(&t);
            if k == 5 {
                p.extend_from_slice(&[l[0], l[1]]);
                p.extend_from_slice(&t);
            }
            let mut b = vec![0, 1, b't'];
            b.extend_from_slice(&frame(0, &p)[1..]);
            s.data(&frame(0x30, &b));
            let want = match k {
                3 => format!("ResponseTopic({:?})", txt),
                4 => format!("CorrelationData({:?})", t),
                _ => format!("UserProperty({:?}, {:?})", txt, txt),
            };
            match s.note() {
                Some(Notification::Message(m)) => ck!(has(&m, &want)),
                _ => ck!(false),
            }
        }
        _ => {
            let sub = choice(2) == 1;
            let mut p = vec![0x1f, l[0], l[1]];
            p.extend_from_slice(&t);
            let mut b = vec![1, 44];
            b.extend_from_slice(&frame(0, &p)[1..]);
            b.push(0);
            s.data(&frame(if sub { 0x90 } else { 0xb0 }, &b));
            match s.note() {
                Some(Notification::SubAck(m)) => ck!(sub && has(&m, &format!("ReasonString({:?})", txt))),
                Some(Notification::UnsubAck(m)) => ck!(!sub && has(&m, &format!("ReasonString({:?})", txt))),
                _ => ck!(false),
            }
        }
    }
    ck!(s.note().is_none() && s.done.is_none());
    cover!();
}

// ---- commands --------------------------------------------------------------------------------------------------

#[derive(Clone)]
enum Cmd {
    Pub { topic: Vec<u8>, payload: Vec<u8>, text: bool, q: QoS },
    Sub(Vec<u8>, QoS),
    Unsub(Vec<u8>),
}
fn ascii(n: usize) -> String {
    let b = bytes(n);
    let mut i = 0;
    let mut ok = true;
    while i < n {
        ok &= b[i] < 128;
        i += 1;
    }
    assume(ok);
    String::from_utf8(b).unwrap()
}
fn any_cmd(c: &mut Client) -> Cmd {
    match choice(6) {
        0 | 1 | 2 if false => unreachable!(),
        k @ 0..=2 => {
            let q = [QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce][k as usize];
            let topic = ascii(1);
            let payload = bytes(2);
            ck!(c.publish(PublishBuilder::from_bytes(&topic, &payload).qos(q)).is_ok());
            Cmd::Pub { topic: topic.into_bytes(), payload, text: false, q }
        }
        3 => {
            let topic = ascii(1);
            let payload = ascii(1);
            ck!(c.publish(PublishBuilder::from_str(&topic, &payload)).is_ok());
            Cmd::Pub { topic: topic.into_bytes(), payload: payload.into_bytes(), text: true, q: QoS::AtMostOnce }
        }
        4 => {
            let t = ascii(2);
            let q = pick(&[QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce]);
            ck!(c.subscribe(&t, q).is_ok());
            Cmd::Sub(t.into_bytes(), q)
        }
        _ => {
            let t = ascii(1);
            ck!(c.unsubscribe(&t).is_ok());
            Cmd::Unsub(t.into_bytes())
        }
    }
}
/// the packet says what the command said; its id, if it has one
fn matches_cmd(r: Option<Req>, c: &Cmd) -> Option<u16> {
    match (r, c) {
        (Some(Req::Publish(p)), Cmd::Pub { topic, payload, text, q }) => {
            ck!(eq(p.topic, topic) && eq(p.payload, payload));
            ck!(p.qos == *q as u8 && !p.retain && !p.dup);
            ck!(p.props.len() == 1);
            ck!(matches!(p.props[0], refm::Prop::Format(f) if f == *text as u8));
            p.pktid
        }
        (Some(Req::Subscribe { pktid, topics }), Cmd::Sub(t, q)) => {
            ck!(topics.len() == 1 && eq(topics[0].0, t) && topics[0].1 == *q as u8);
            Some(pktid)
        }
        (Some(Req::Unsubscribe { pktid, topics }), Cmd::Unsub(t)) => {
            ck!(topics.len() == 1 && eq(topics[0], t));
            Some(pktid)
        }
        _ => {
            ck!(false);
            None
        }
    }
}
/// k commands, given one by one or at once: one packet each, in order
fn outbound(k: u32, batched: bool, sel: u32) {
    let mut s = Sim::up(sel);
    let mut want = vec![];
    let mut i = 0;
    while i < k {
        want.push(any_cmd(s.c()));
        if !batched {
            s.run();
        }
        i += 1;
    }
    s.run();
    ck!(s.done.is_none());
    let mut ids: Vec<u16> = vec![];
    let mut i = 0;
    while i < want.len() {
        let r = s.sent();
        if let Some(id) = matches_cmd(r, &want[i]) {
            let mut j = 0;
            while j < ids.len() {
                ck!(ids[j] != id);
                j += 1;
            }
            ids.push(id);
        }
        i += 1;
    }
    ck!(s.quiet() && s.note().is_none());
    observe(world::get().tx.len() as u64);
    cover!();
}
pub fn h_out_sequence() {
    outbound(2, choice(2) == 1, ANY)
}
pub fn h_out_sequence_3() {
    outbound(3, choice(2) == 1, order())
}
pub fn h_out_sequence_4() {
    outbound(4, choice(2) == 1, 0)
}
/// commands and packets of the server at the same time
fn mixed(k: u32, sel: u32) {
    let mut s = Sim::up(sel);
    let mut want = vec![];
    let mut acks = vec![];
    let mut msgs = 0;
    let mut i = 0;
    while i < k {
        let both = choice(3);
        if both != 1 {
            want.push(any_cmd(s.c()));
        }
        if both != 0 {
            let id = id16();
            msgs += 1;
            acks.push(id);
            world::push(Seg::Data(publish(1, 0, b"t", id, &bytes(1))));
        }
        s.run();
        ck!(s.done.is_none());
        i += 1;
    }
    let (mut a, mut c) = (0, 0);
    while !s.quiet() {
        match s.sent() {
            Some(Req::PubAck(x)) => {
                ck!(a < acks.len() && x.pktid == acks[a]);
                a += 1;
            }
            r => {
                ck!(c < want.len());
                matches_cmd(r, &want[c]);
                c += 1;
            }
        }
    }
    ck!(a == acks.len() && c == want.len());
    while msgs > 0 {
        ck!(matches!(s.note(), Some(Notification::Message(_))));
        msgs -= 1;
    }
    ck!(s.note().is_none());
    cover!();
}
pub fn h_out_mixed() {
    mixed(2, order())
}
pub fn h_out_mixed_any() {
    mixed(2, ANY)
}
pub fn h_out_mixed_3() {
    mixed(3, order())
}
/// more commands than the channel holds: what is accepted is sent, once and in order; what is refused is not
pub fn h_out_full() {
    step_limit(20_000_000);
    let mut s = Sim::up(0);
    let two = choice(2) == 1;
    let mut other = s.c().clone();
    let mut acc = 0u32;
    let mut i = 0u32;
    while i < 110 {
        let p = PublishBuilder::from_bytes("t", &i.to_be_bytes());
        let r = if two && i % 2 == 1 { other.publish(p) } else { s.c().publish(p) };
        if r.is_ok() {
            ck!(acc == i);
            acc += 1;
        }
        i += 1;
    }
    ck!(acc >= 100 && acc < 110);
    observe(acc as u64);
    s.run();
    let mut i = 0u32;
    while i < acc {
        match s.sent() {
            Some(Req::Publish(p)) => ck!(eq(p.payload, &i.to_be_bytes())),
            _ => ck!(false),
        }
        i += 1;
    }
    ck!(s.quiet());
    // and there is room again
    ck!(s.c().publish(PublishBuilder::from_bytes("t", b"z")).is_ok());
    s.run();
    match s.sent() {
        Some(Req::Publish(p)) => ck!(eq(p.payload, b"z")),
        _ => ck!(false),
    }
    cover!();
}

/// hundreds of commands, acknowledged a while later: each is sent, as given
pub fn h_out_many() {
    step_limit(900_000_000);
    let mut s = Sim::up(order());
    let lag = pick(&[0usize, 1, 5, 40]);
    let mut open: Vec<(u32, u16)> = vec![];
    let mut i = 0u32;
    while i < 700 {
        let t = [b'a' + (i / 676 % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8];
        let name = std::str::from_utf8(&t).unwrap();
        let r = match i % 4 {
            0 => s.c().publish(PublishBuilder::from_bytes(name, &t)),
            1 => s.c().publish(PublishBuilder::from_str(name, name).qos(QoS::AtLeastOnce)),
            2 => s.c().subscribe(name, QoS::AtLeastOnce),
            _ => s.c().unsubscribe(name),
        };
        ck!(r.is_ok());
        s.run();
        ck!(s.done.is_none());
        match (i % 4, s.sent()) {
            (0, Some(Req::Publish(p))) => ck!(p.qos == 0 && eq(p.topic, &t) && eq(p.payload, &t)),
            (1, Some(Req::Publish(p))) => {
                ck!(p.qos == 1 && eq(p.topic, &t) && eq(p.payload, &t));
                open.push((1, p.pktid.unwrap()));
            }
            (2, Some(Req::Subscribe { pktid, topics, .. })) => {
                ck!(topics.len() == 1 && eq(topics[0].0, &t));
                open.push((2, pktid));
            }
            (3, Some(Req::Unsubscribe { pktid, topics, .. })) => {
                ck!(topics.len() == 1 && eq(topics[0], &t));
                open.push((3, pktid));
            }
            _ => ck!(false),
        }
        ck!(s.quiet());
        while open.len() > lag {
            // not always the oldest
            let (k, id) = open.remove(if i % 7 == 3 { open.len() / 2 } else { 0 });
            match k {
                1 => s.data(&puback(id)),
                2 => {
                    s.data(&suback(id, 1));
                    ck!(matches!(s.note(), Some(Notification::SubAck(_))));
                }
                _ => {
                    s.data(&unsuback(id, 0));
                    ck!(matches!(s.note(), Some(Notification::UnsubAck(_))));
                }
            }
            ck!(s.done.is_none() && s.quiet());
        }
        let mut a = 0;
        while a < open.len() {
            let mut b = 0;
            while b < a {
                ck!(open[a].1 != open[b].1);
                b += 1;
            }
            a += 1;
        }
        i += 1;
    }
    cover!();
}

// ---- builder ---------------------------------------------------------------------------------------------------

/// what the builder was told is what is sent
/// What does not fit into a packet is refused at once; what fits is sent as it is.
pub fn h_out_limits() {
    out_limits(&[65533, 65534, 65535, 65536, 65537, 65540, 131071, 131072, 131074], 1)
}
/// it is bytes that count
pub fn h_out_limits_wide() {
    out_limits(&[65535, 65536, 65540], pick(&[2usize, 3, 4]))
}
fn out_limits(sizes: &[usize], w: usize) {
    step_limit(60_000_000);
    let mut s = Sim::up(0);
    let n = pick(sizes);
    let fits = n <= 65535;
    let mut v = crate::codec::pattern(n);
    if w > 1 {
        let c = [&[][..], &[], "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes()][w];
        let mut i = 0;
        while i + w < n {
            v[i..i + w].copy_from_slice(c);
            i += w;
        }
    }
    let x = u8s();
    assume(x >= b'a' && x <= b'z');
    v[n - 1] = x;
    let t = String::from_utf8(v).unwrap();
    let what = choice(7);
    let b = |p| PublishBuilder::from_str("t", "p").qos(QoS::AtLeastOnce).with_property(p);
    let r = match what {
        0 => s.c().subscribe(&t, QoS::AtMostOnce),
        1 => s.c().unsubscribe(&t),
        2 => s.c().publish(PublishBuilder::from_str(&t, "p").qos(QoS::AtLeastOnce)),
        3 => s.c().publish(b(Property::ResponseTopic(t.clone()))),
        4 => s.c().publish(b(Property::CorrelationData(t.clone().into_bytes()))),
        5 => s.c().publish(b(Property::UserProperty(t.clone(), "v".to_owned()))),
        _ => s.c().publish(b(Property::UserProperty("k".to_owned(), t.clone()))),
    };
    s.run();
    ck!(s.done.is_none());
    ck!(r.is_ok() == fits);
    let t = t.as_bytes();
    if fits {
        match (what, s.sent()) {
            (0, Some(Req::Subscribe { topics, .. })) => ck!(topics.len() == 1 && eq(topics[0].0, t)),
            (1, Some(Req::Unsubscribe { topics, .. })) => ck!(topics.len() == 1 && eq(topics[0], t)),
            (2, Some(Req::Publish(p))) => ck!(eq(p.topic, t) && eq(p.payload, b"p")),
            (k, Some(Req::Publish(p))) => {
                ck!(k > 2 && eq(p.topic, b"t") && eq(p.payload, b"p") && p.props.len() == 2);
                let want = match k {
                    3 => refm::Prop::ResponseTopic(t),
                    4 => refm::Prop::Correlation(t),
                    5 => refm::Prop::User(t, b"v"),
                    _ => refm::Prop::User(b"k", t),
                };
                ck!(refm::same_prop(&p.props[1], &want));
            }
            _ => ck!(false),
        }
        cover!();
    } else {
        ck!(s.quiet());
        cover!();
    }
    // the next command is sent as ever
    ck!(s.c().publish(PublishBuilder::from_str("n", "m")).is_ok());
    s.run();
    ck!(matches!(s.sent(), Some(Req::Publish(p)) if eq(p.topic, b"n") && eq(p.payload, b"m")));
    ck!(s.quiet() && s.done.is_none());
    cover!();
}
/// the largest messages that fit into a packet, and those that do not
pub fn h_out_oversized() {
    step_limit(2_000_000_000);
    let mut s = Sim::up(0);
    // 268435455 = 2 + 1 topic, 2 packet id, 1 + 2 properties, payload
    let (n, fits) = pick(&[(268_435_447usize, true), (268_435_448, false), (268_435_456, false), (268_435_456 + 128, false)]);
    let mut v = vec![0u8; n];
    v[0] = u8s();
    v[n - 1] = u8s();
    let r = s.c().publish(PublishBuilder::from_bytes("t", &v).qos(QoS::AtLeastOnce));
    ck!(r.is_ok() == fits);
    s.run();
    ck!(s.done.is_none());
    if fits {
        match s.sent() {
            Some(Req::Publish(p)) => {
                ck!(eq(p.topic, b"t") && p.payload.len() == n && p.payload[0] == v[0] && p.payload[n - 1] == v[n - 1]);
                cover!();
            }
            _ => ck!(false),
        }
    }
    ck!(s.quiet());
    cover!();
}
fn builder(n: u32, np: u32) {
    let mut s = Sim::up(0);
    let t = crate::codec::text(n);
    let text = choice(2) == 1;
    let len = range(0, n) as usize;
    let (mut b, payload) = if text {
        let p = crate::codec::text_of(len);
        (PublishBuilder::from_str(&t, &p), p.into_bytes())
    } else {
        let p = bytes(len);
        (PublishBuilder::from_bytes(&t, &p), p)
    };
    let q = choice(4);
    let mut want = 0;
    if q > 0 {
        want = q as u8 - 1;
        b = b.qos([QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce][want as usize]);
    }
    let np = range(0, np);
    let mut props = vec![];
    let mut i = 0;
    while i < np {
        let p = match choice(4) {
            0 => Property::MessageExpiryInterval(u32s()),
            1 => Property::ResponseTopic(ascii(1)),
            2 => Property::CorrelationData(bytes(2)),
            _ => Property::UserProperty(ascii(1), ascii(1)),
        };
        b = b.with_property(p.clone());
        props.push(p);
        i += 1;
    }
    // the builder can be reused
    let again = choice(2) == 1;
    let b2 = b.clone();
    ck!(s.c().publish(b).is_ok());
    s.run();
    let mut k = 0;
    loop {
        match s.sent() {
            Some(Req::Publish(p)) => {
                ck!(eq(p.topic, t.as_bytes()) && eq(p.payload, &payload));
                ck!(p.qos == want && !p.retain && !p.dup);
                ck!(p.props.len() == props.len() + 1);
                ck!(matches!(p.props[0], refm::Prop::Format(f) if f == text as u8));
                let mut i = 0;
                while i < props.len() {
                    ck!(crate::codec::same(&props[i], &p.props[i + 1]));
                    i += 1;
                }
            }
            _ => ck!(false),
        }
        k += 1;
        if k == 2 || !again {
            break;
        }
        ck!(s.c().publish(b2.clone()).is_ok());
        s.run();
    }
    ck!(s.quiet() && s.done.is_none());
    cover!();
}
pub fn h_builder() {
    builder(2, 1)
}
pub fn h_builder_deep() {
    builder(3, 2)
}
/// after the event loop is gone, commands fail instead of being swallowed
pub fn h_client_after_end() {
    let mut s = Sim::up(0);
    match choice(4) {
        0 => s.recv(Seg::Eof),
        1 => s.data(&[0xe0, 0]),
        2 => {
            ck!(s.c().disconnect().is_ok());
            s.run();
        }
        _ => s.ev = None,
    }
    let r = match choice(4) {
        0 => s.c().publish(PublishBuilder::from_bytes("t", b"")),
        1 => s.c().subscribe("t", QoS::AtMostOnce),
        2 => s.c().unsubscribe("t"),
        _ => s.c().disconnect(),
    };
    ck!(r.is_err());
    cover!();
}

// ---- packet ids in flight --------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum F {
    Q1,
    Q2,
    Sub,
    Unsub,
}
/// a history of k events with at most `max` ids: ids in flight are distinct, acknowledged ones come back
fn inflight(max: u16, k: u32, kinds: u32) {
    // whether the server's answers report failure: that ends an exchange too
    let failing = choice(2) == 1;
    let mut s = Sim::new(0);
    ruq::verif::limit_pktids(max);
    s.run();
    ck!(matches!(s.sent(), Some(Req::Connect { .. })));
    s.data(&[0x20, 3, 0, 0, 0]);
    ck!(matches!(s.note(), Some(Notification::ConnAck(_))));
    let mut fl: Vec<(F, u16)> = vec![];
    let mut i = 0;
    while i < k {
        let n = fl.len() as u32;
        let c = choice(kinds + n + 1);
        if c < kinds {
            let (r, f) = match c {
                0 => (s.c().publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)), F::Q1),
                1 => (s.c().subscribe("t", QoS::AtLeastOnce), F::Sub),
                2 => (s.c().unsubscribe("t"), F::Unsub),
                _ => (s.c().publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::ExactlyOnce)), F::Q2),
            };
            ck!(r.is_ok());
            s.run();
            if fl.len() == max as usize {
                // none left: an error, never an id that is in use
                ck!(matches!(s.done, Some(Err(_))));
                ck!(s.quiet());
                cover!();
                return;
            }
            ck!(s.done.is_none());
            let id = match (s.sent(), f) {
                (Some(Req::Publish(p)), F::Q1) => {
                    ck!(p.qos == 1);
                    p.pktid.unwrap()
                }
                (Some(Req::Publish(p)), F::Q2) => {
                    ck!(p.qos == 2);
                    p.pktid.unwrap()
                }
                (Some(Req::Subscribe { pktid, .. }), F::Sub) => pktid,
                (Some(Req::Unsubscribe { pktid, .. }), F::Unsub) => pktid,
                _ => {
                    ck!(false);
                    return;
                }
            };
            ck!(id >= 1 && id <= max);
            let mut j = 0;
            while j < fl.len() {
                ck!(fl[j].1 != id);
                j += 1;
            }
            fl.push((f, id));
        } else if c < kinds + n {
            let j = (c - kinds) as usize;
            let (f, id) = fl[j];
            match f {
                F::Q1 if failing => s.data(&{
                    let i = be(id);
                    frame(0x40, &[i[0], i[1], 0x97, 0])
                }),
                F::Q1 => s.data(&puback(id)),
                F::Sub => {
                    s.data(&suback(id, if failing { 0x87 } else { 1 }));
                    ck!(matches!(s.note(), Some(Notification::SubAck(_))));
                }
                F::Unsub => {
                    s.data(&unsuback(id, if failing { 0x11 } else { 0 }));
                    ck!(matches!(s.note(), Some(Notification::UnsubAck(_))));
                }
                F::Q2 => {
                    // stays in flight
                    i += 1;
                    continue;
                }
            }
            fl.remove(j);
            ck!(s.done.is_none() && s.quiet());
        } else {
            // an acknowledgement for something that is not in flight
            let id = id16();
            assume(id <= max); // returning any other would extend the limited allocator
            let mut used = false;
            let mut j = 0;
            while j < fl.len() {
                used |= fl[j].1 == id;
                j += 1;
            }
            assume(!used);
            let a = choice(2);
            s.data(&if a == 0 { puback(id) } else { suback(id, 0) });
            if a == 1 {
                ck!(matches!(s.note(), Some(Notification::SubAck(_))));
            }
            ck!(s.done.is_none() && s.quiet());
        }
        i += 1;
    }
    ck!(s.note().is_none());
    cover!();
}
pub fn h_ids_loop() {
    inflight(pick(&[1u16, 2, 3]), 5, 3)
}
pub fn h_ids_loop_deep() {
    inflight(pick(&[2u16, 3]), 6, 4)
}
/// the allocator is not limited in real runs: hundreds in flight, all distinct
pub fn h_ids_loop_many() {
    step_limit(40_000_000);
    let mut s = Sim::up(0);
    let mut seen = vec![false; 65536];
    let gap = choice(3);
    let mut n = 0;
    while n < 300 {
        let r = match n % 3 {
            0 => s.c().subscribe("t", QoS::AtMostOnce),
            1 => s.c().unsubscribe("t"),
            _ => s.c().publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)),
        };
        ck!(r.is_ok());
        s.run();
        let id = match s.sent() {
            Some(Req::Subscribe { pktid, .. }) => pktid,
            Some(Req::Unsubscribe { pktid, .. }) => pktid,
            Some(Req::Publish(p)) => p.pktid.unwrap(),
            _ => {
                ck!(false);
                return;
            }
        };
        if seen[id as usize] {
            ck!(false);
        }
        seen[id as usize] = true;
        if gap > 0 && n % (gap + 1) == 0 && n % 3 == 2 {
            s.data(&puback(id));
            seen[id as usize] = false;
        }
        n += 1;
    }
    ck!(s.done.is_none());
    cover!();
}

// ---- keep alive ------------------------------------------------------------------------------------------------

fn keep_alive() -> (Sim, u64) {
    let mut s = Sim::new(order());
    s.run();
    let ka = match s.sent() {
        Some(Req::Connect { keep_alive, .. }) => keep_alive as u64 * 1000,
        _ => {
            ck!(false);
            0
        }
    };
    ck!(ka > 0);
    s.data(&[0x20, 3, 0, 0, 0]);
    ck!(s.done.is_none());
    ck!(matches!(s.note(), Some(Notification::ConnAck(_))));
    (s, ka)
}
/// A server that answers: the connection stays, and the client is never silent for longer than it promised.
/// Time advances in arbitrary steps of at most one keep alive period (the executor is not stalled longer).
fn ka_alive(k: u32, exact: bool) {
    let (mut s, ka) = keep_alive();
    let mut last = 0u64; // when the client last sent something
    let mut now = 0u64;
    let mut pending = 0u32;
    let mut i = 0;
    while i < k {
        let dt = if exact {
            pick(&[1, ka / 2, ka - 1, ka])
        } else {
            let dt = u16s() as u64;
            assume(dt > 0 && dt <= ka);
            dt
        };
        // what happens in this step, before the time passes
        match choice(3) {
            0 => {}
            1 => {
                s.data(&publish(0, 0, b"t", 0, b"x"));
                ck!(matches!(s.note(), Some(Notification::Message(_))));
            }
            _ => {
                ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok());
                s.run();
                ck!(matches!(s.sent(), Some(Req::Subscribe { .. })));
                last = now;
            }
        }
        // the executor runs at every deadline on the way, as a real one would
        let mut rest = dt;
        if let Some(t) = next_timer() {
            if t > now && t - now < dt {
                s.pass(t - now);
                rest = dt - (t - now);
                now = t;
                let p = drain_pings(&mut s);
                if p > 0 {
                    last = now;
                }
                pending += p;
                answer(&mut s, &mut pending);
            }
        }
        s.pass(rest);
        now += rest;
        let p = drain_pings(&mut s);
        if p > 0 {
            last = now;
        }
        pending += p;
        ck!(s.done.is_none());
        ck!(now - last <= ka);
        answer(&mut s, &mut pending);
        ck!(s.done.is_none());
        i += 1;
    }
    cover!();
}
fn next_timer() -> Option<u64> {
    let w = world::get();
    let mut m = None;
    let mut i = 0;
    while i < w.timers.len() {
        let t = w.timers[i].0;
        m = match m {
            None => Some(t),
            Some(x) if t < x => Some(t),
            x => x,
        };
        i += 1;
    }
    m
}
fn drain_pings(s: &mut Sim) -> u32 {
    let mut n = 0;
    while !s.quiet() {
        ck!(matches!(s.sent(), Some(Req::PingReq)));
        n += 1;
    }
    // one is enough
    ck!(n <= 1);
    n
}
fn answer(s: &mut Sim, pending: &mut u32) {
    if *pending > 0 {
        s.data(&[0xd0, 0]);
        *pending = 0;
        ck!(s.note().is_none());
        cover!();
    }
}
pub fn h_ka_alive() {
    ka_alive(3, false)
}
pub fn h_ka_alive_deep() {
    ka_alive(5, true)
}
/// many periods: a ping in each, all answered, whatever else is going on
pub fn h_ka_many() {
    step_limit(100_000_000);
    let (mut s, ka) = keep_alive();
    let traffic = choice(4);
    let mut silent = 0u64;
    let mut t = 0u64;
    let mut pings = 0u32;
    let steps = 4u64;
    while t < 100 * steps {
        s.pass(ka / steps);
        silent += ka / steps;
        if drain_pings(&mut s) == 1 {
            silent = 0;
            pings += 1;
            s.data(&[0xd0, 0]);
        }
        ck!(s.done.is_none() && silent <= ka);
        if traffic & 1 == 1 {
            s.data(&publish(0, 0, b"t", 0, b"x"));
            ck!(matches!(s.note(), Some(Notification::Message(_))));
        }
        if traffic & 2 == 2 {
            ck!(s.c().publish(PublishBuilder::from_bytes("t", b"x")).is_ok());
            s.run();
            ck!(matches!(s.sent(), Some(Req::Publish(_))));
            silent = 0;
        }
        t += 1;
    }
    ck!(pings <= 101);
    if traffic & 2 == 0 {
        ck!(pings >= 99);
    }
    ck!(s.note().is_none());
    cover!();
}
/// A consumer that is slow, or reads nothing for a long time: the promise to the server is kept meanwhile, and the
/// connection is there when it goes on.
fn ka_slow(k: u32, exact: bool) {
    step_limit(60_000_000);
    let (mut s, ka) = keep_alive();
    let n = if exact { 120 } else { pick(&[100u16, 101, 102, 103, 120]) };
    let mut all = vec![];
    let mut i = 0;
    while i < n {
        all.extend_from_slice(&publish(0, 0, b"t", 0, b"x"));
        i += 1;
    }
    s.data(&all);
    ck!(s.done.is_none() && s.quiet());
    let mut now = 0u64;
    let mut last = 0u64;
    let mut taken = 0;
    let mut i = 0;
    while i < k {
        let mut rest = if exact {
            pick(&[ka / 2, ka - 1, ka])
        } else {
            let dt = u16s() as u64;
            assume(dt > 0 && dt <= ka);
            dt
        };
        // the executor runs at every deadline on the way
        if let Some(t) = next_timer() {
            if t > now && t - now < rest {
                s.pass(t - now);
                rest -= t - now;
                now = t;
                if drain_pings(&mut s) > 0 {
                    last = now;
                    s.data(&[0xd0, 0]);
                }
            }
        }
        s.pass(rest);
        now += rest;
        if drain_pings(&mut s) > 0 {
            last = now;
            s.data(&[0xd0, 0]);
        }
        ck!(s.done.is_none() && now - last <= ka);
        let mut j = choice(3);
        while j > 0 {
            ck!(matches!(s.note(), Some(Notification::Message(_))));
            taken += 1;
            s.run();
            j -= 1;
        }
        ck!(s.done.is_none() && s.quiet());
        i += 1;
    }
    while taken < n {
        match s.note() {
            Some(Notification::Message(_)) => taken += 1,
            _ => ck!(false),
        }
        s.run();
    }
    ck!(s.note().is_none() && s.done.is_none() && s.quiet());
    // and it is a working connection
    s.data(&publish(1, 0, b"t", 7, b"x"));
    match s.sent() {
        Some(Req::PubAck(a)) => ck!(a.pktid == 7),
        _ => ck!(false),
    }
    ck!(matches!(s.note(), Some(Notification::Message(_))) && s.done.is_none());
    cover!();
}
pub fn h_ka_slow() {
    ka_slow(3, false)
}
pub fn h_ka_slow_many() {
    ka_slow(4, true)
}
/// A server that takes what is sent slowly but all the time, and answers: the connection stays, however long a packet takes.
fn ka_slow_socket(k: u32) {
    step_limit(60_000_000);
    let (mut s, ka) = keep_alive();
    // when it begins
    let b = u16s() as u64;
    assume(b < ka);
    s.pass(b);
    let mut answer = false;
    if choice(2) == 1 {
        // a ping has just been sent, the answer is on its way
        s.pass(ka - b);
        ck!(drain_pings(&mut s) == 1);
        answer = true;
    }
    world::get().wr.push_back(Wr::Part(1));
    world::get().wr.push_back(Wr::Block);
    let what = choice(3);
    match what {
        0 => ck!(s.c().publish(PublishBuilder::from_bytes("t", b"payload")).is_ok()),
        1 => world::push(Seg::Data(publish(1, 0, b"t", 7, b"x"))),
        _ => ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok()),
    }
    if answer && choice(2) == 1 {
        // arrives when the packet is being sent
        world::push(Seg::Data(vec![0xd0, 0]));
        answer = false;
    }
    s.run();
    ck!(s.done.is_none());
    if answer {
        s.data(&[0xd0, 0]);
    }
    let mut i = 0;
    while i < k {
        let mut rest = u16s() as u64;
        assume(rest > 0 && rest <= ka);
        while let Some(t) = next_timer() {
            let now = world::get().now;
            if t <= now || t - now >= rest {
                break;
            }
            s.pass(t - now);
            rest -= t - now;
        }
        s.pass(rest);
        ck!(s.done.is_none());
        // it takes another byte
        world::get().wr.clear();
        if i + 1 < k {
            world::get().wr.push_back(Wr::Part(1));
            world::get().wr.push_back(Wr::Block);
        }
        world::writable();
        s.run();
        ck!(s.done.is_none());
        i += 1;
    }
    // all of it has arrived, and no ping has come in between
    let r = s.sent();
    match what {
        0 => match r {
            Some(Req::Publish(p)) => ck!(p.payload == b"payload"),
            _ => ck!(false),
        },
        1 => match r {
            Some(Req::PubAck(a)) => ck!(a.pktid == 7),
            _ => ck!(false),
        },
        _ => ck!(matches!(r, Some(Req::Subscribe { .. }))),
    }
    // the connection goes on
    let mut last = world::get().now;
    ck!(s.quiet());
    let mut i = 0;
    while i < 3 {
        let now = world::get().now;
        match next_timer() {
            Some(t) if t > now => s.pass(t - now),
            Some(_) => s.run(),
            None => ck!(false),
        }
        ck!(s.done.is_none());
        let now = world::get().now;
        if drain_pings(&mut s) > 0 {
            ck!(now - last <= ka);
            last = now;
            s.data(&[0xd0, 0]);
            ck!(s.done.is_none());
        }
        i += 1;
    }
    cover!();
}
pub fn h_ka_slow_socket() {
    ka_slow_socket(2)
}
pub fn h_ka_slow_socket_3() {
    ka_slow_socket(3)
}
/// A server that takes nothing any more: the event loop ends, though it can not even send a ping.
pub fn h_ka_stuck() {
    step_limit(60_000_000);
    let (mut s, ka) = keep_alive();
    let b = u16s() as u64;
    assume(b < ka);
    let what = choice(5);
    if what == 4 {
        // nobody takes notifications, either
        let mut all = vec![];
        let mut i = 0;
        while i < 120 {
            all.extend_from_slice(&publish(0, 0, b"t", 0, b"x"));
            i += 1;
        }
        s.data(&all);
    }
    s.pass(b);
    if choice(2) == 1 {
        world::get().wr.push_back(Wr::Part(1));
    }
    world::get().wr.push_back(Wr::Block);
    match what {
        0 => ck!(s.c().publish(PublishBuilder::from_bytes("t", b"payload")).is_ok()),
        1 => world::push(Seg::Data(publish(1, 0, b"t", 7, b"x"))),
        2 => ck!(s.c().disconnect().is_ok()),
        // the ping itself
        _ => s.pass(ka - b),
    }
    s.run();
    let start = world::get().now;
    while s.done.is_none() {
        let now = world::get().now;
        match next_timer() {
            Some(t) if t > now => s.pass(t - now),
            Some(_) => s.run(),
            None => ck!(false),
        }
        ck!(world::get().now - start <= 2 * ka);
    }
    ck!(s.done == Some(Err(Some(ErrorKind::TimedOut))));
    // not before the server had a whole period to go on
    ck!(world::get().now - start >= ka);
    ck!(s.closed());
    cover!();
}
/// A ping that is never answered, and a packet the server takes late meanwhile.
pub fn h_ka_silent_blocked() {
    let (mut s, ka) = keep_alive();
    s.pass(ka);
    ck!(s.done.is_none() && drain_pings(&mut s) == 1);
    let d = u16s() as u64;
    let e = u16s() as u64;
    assume(d < ka && e > 0 && e < ka);
    s.pass(d);
    world::get().wr.push_back(Wr::Block);
    ck!(s.c().publish(PublishBuilder::from_bytes("t", b"x")).is_ok());
    s.run();
    let until = d + e;
    let mut t = d;
    let mut free = false;
    while s.done.is_none() {
        let mut next = match next_timer() {
            Some(x) if x > world::get().now => x - world::get().now,
            Some(_) => 0,
            None => {
                ck!(false);
                0
            }
        };
        if !free && until - t <= next {
            next = until - t;
            free = true;
        }
        s.pass(next);
        t += next;
        ck!(t <= 2 * ka);
        if free && s.done.is_none() {
            world::get().wr.clear();
            world::writable();
            s.run();
        }
    }
    ck!(s.done == Some(Err(Some(ErrorKind::TimedOut))));
    ck!(t >= ka);
    cover!();
}
/// A server that stops answering: after `n` answered pings the loop ends with TimedOut, within two periods.
fn ka_silent(n: u32) {
    let (mut s, ka) = keep_alive();
    let n = range(0, n);
    let mut i = 0;
    while i < n {
        s.pass(ka);
        ck!(drain_pings(&mut s) == 1);
        s.data(&[0xd0, 0]);
        ck!(s.done.is_none());
        i += 1;
    }
    // other traffic does not replace the answer
    let traffic = choice(5);
    let mut t = 0u64;
    let mut pings = 0;
    while s.done.is_none() {
        ck!(t < 2 * ka);
        if t % 2000 == 0 {
            match traffic {
                1 => {
                    s.data(&publish(0, 0, b"t", 0, b"x"));
                    ck!(matches!(s.note(), Some(Notification::Message(_))));
                }
                2 => {
                    ck!(s.c().publish(PublishBuilder::from_bytes("t", b"x")).is_ok());
                    s.run();
                    ck!(matches!(s.sent(), Some(Req::Publish(_))));
                }
                _ => {}
            }
        }
        if traffic >= 3 {
            // arrives at the very moment a timer is due
            world::push(Seg::Data(if traffic == 3 { publish(0, 0, b"t", 0, b"x") } else { suback(9, 0) }));
        }
        s.pass(1000);
        if traffic >= 3 && s.done.is_none() {
            ck!(s.note().is_some());
        }
        t += 1000;
        pings += drain_pings(&mut s);
    }
    ck!(s.done == Some(Err(Some(ErrorKind::TimedOut))));
    // not before the server had a whole period to answer
    ck!(pings == 1 && t > ka);
    ck!(s.closed());
    cover!();
}
pub fn h_ka_silent() {
    ka_silent(2)
}
/// The answer may come at any time before the next ping is due; if it does not, the loop ends then.
fn ka_answer(k: u32) {
    let (mut s, ka) = keep_alive();
    let mut i = 0;
    while i < k {
        s.pass(ka);
        ck!(s.done.is_none() && drain_pings(&mut s) == 1);
        let d = u16s() as u64;
        assume(d < ka);
        if choice(2) == 0 {
            s.pass(d);
            ck!(s.done.is_none() && s.quiet());
            s.data(&[0xd0, 0]);
            ck!(s.done.is_none() && s.quiet() && s.note().is_none());
            s.pass(ka - 1 - d);
            ck!(s.done.is_none() && s.quiet());
            // the next round starts one millisecond early
            s.pass(1);
            ck!(s.done.is_none());
            world::get();
            ck!(drain_pings(&mut s) == 1);
            s.data(&[0xd0, 0]);
            ck!(s.done.is_none());
            cover!();
        } else {
            s.pass(d);
            ck!(s.done.is_none());
            s.pass(ka - d);
            ck!(s.done == Some(Err(Some(ErrorKind::TimedOut))));
            cover!();
            return;
        }
        i += 1;
    }
    cover!();
}
pub fn h_ka_answer() {
    ka_answer(2)
}
pub fn h_ka_answer_deep() {
    ka_answer(4)
}

// ---- how it ends -----------------------------------------------------------------------------------------------

/// Client::disconnect: what was asked before is sent, DISCONNECT is the last packet, the connection closes.
pub fn h_end_client() {
    let mut s = Sim::up(order());
    let a = choice(3);
    let b = choice(2);
    let mut want = vec![];
    let mut i = 0;
    while i < a {
        want.push(any_cmd(s.c()));
        i += 1;
    }
    ck!(s.c().disconnect().is_ok());
    let mut i = 0;
    while i < b {
        any_cmd(s.c());
        i += 1;
    }
    s.run();
    ck!(s.done == Some(Ok(())));
    let mut i = 0;
    while i < want.len() {
        let r = s.sent();
        matches_cmd(r, &want[i]);
        i += 1;
    }
    match s.sent() {
        Some(Req::Disconnect(d)) => ck!(d.reason == 0),
        _ => ck!(false),
    }
    ck!(s.quiet() && s.closed());
    cover!();
}
/// DISCONNECT of the server: a normal one ends the loop without error, any other with one.
fn end_server(n: u32) {
    let mut s = Sim::up(order());
    let n = range(0, n) as usize;
    let b = bytes(n);
    let w = refm::disconnect(&b);
    s.data(&frame(0xe0, &b));
    match w {
        Ok(a) => {
            if a.reason == 0 {
                ck!(s.done == Some(Ok(())));
                cover!();
            } else {
                ck!(matches!(s.done, Some(Err(_))));
                cover!();
            }
        }
        Err(refm::E::Bad) => {
            ck!(matches!(s.done, Some(Err(_))));
            cover!();
        }
        Err(_) => ck!(s.done.is_some()),
    }
    ck!(s.quiet() && s.closed() && s.note().is_none());
}
pub fn h_end_server() {
    end_server(3)
}
pub fn h_end_server_deep() {
    end_server(7)
}
/// The connection breaks: at a packet boundary, inside a packet, by an error while reading or writing.
pub fn h_end_connection() {
    let mut s = Sim::up(order());
    let k = choice(2);
    if k == 1 {
        s.data(&publish(0, 0, b"t", 0, b"x"));
        ck!(matches!(s.note(), Some(Notification::Message(_))));
    }
    let kind = pick(&[ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::Other]);
    match choice(6) {
        0 => {
            s.recv(Seg::Eof);
            ck!(s.done == Some(Ok(())));
        }
        1 => {
            let p = publish(1, 0, b"t", 7, b"x");
            let n = range(1, p.len() as u32 - 1) as usize;
            s.data(&p[..n]);
            ck!(s.done.is_none());
            s.recv(Seg::Eof);
            ck!(matches!(s.done, Some(Err(_))));
            ck!(s.quiet() && s.note().is_none());
        }
        2 => {
            s.recv(Seg::Err(kind));
            ck!(matches!(s.done, Some(Err(_))));
        }
        3 => {
            world::get().wr.push_back(Wr::Err(kind));
            any_cmd(s.c());
            s.run();
            ck!(matches!(s.done, Some(Err(_))));
        }
        4 => {
            // the acknowledgement cannot be written
            world::get().wr.push_back(Wr::Part(1));
            world::get().wr.push_back(Wr::Zero);
            s.data(&publish(1, 0, b"t", 7, b"x"));
            ck!(matches!(s.done, Some(Err(_))));
        }
        _ => {
            world::get().flush_err = Some(kind);
            any_cmd(s.c());
            s.run();
            ck!(matches!(s.done, Some(Err(_))));
        }
    }
    ck!(s.closed());
    cover!();
}
/// All handles of the client are gone: the loop goes on receiving, without spinning, and still pings.
pub fn h_end_no_clients() {
    let mut s = Sim::up(order());
    let k = choice(2);
    let mut want = vec![];
    if k == 1 {
        want.push(any_cmd(s.c()));
    }
    s.client = None;
    s.run();
    ck!(s.done.is_none());
    if k == 1 {
        let r = s.sent();
        matches_cmd(r, &want[0]);
    }
    let id = id16();
    s.data(&publish(1, 0, b"t", id, b"x"));
    ck!(s.done.is_none());
    match s.sent() {
        Some(Req::PubAck(a)) => ck!(a.pktid == id),
        _ => ck!(false),
    }
    ck!(matches!(s.note(), Some(Notification::Message(_))));
    let p = s.polls;
    s.pass(60_000_000 / 60_000);
    ck!(s.polls <= p + 1);
    let mut t = 0;
    while s.quiet() && t < 60 {
        s.pass(1000);
        t += 1;
    }
    ck!(matches!(s.sent(), Some(Req::PingReq)));
    s.recv(Seg::Eof);
    ck!(s.done == Some(Ok(())));
    cover!();
}

// ---- chunks ----------------------------------------------------------------------------------------------------

/// The server's bytes in arbitrary pieces, the socket taking arbitrary pieces: same packets, same notifications.
fn chunks(cuts: u32, parts: u32) {
    let mut s = Sim::up(order());
    let i1 = id16();
    let i2 = id16();
    let mut b = publish(1, 0, b"to", i1, &bytes(1));
    b.extend_from_slice(&suback(i2, 0));
    b.extend_from_slice(&publish(0, 1, b"t", 0, b""));
    let n = b.len();
    // the socket takes that much at a time, sometimes after a pause
    let k = choice(parts + 1);
    let mut i = 0;
    while i < k {
        if choice(2) == 0 {
            world::get().wr.push_back(Wr::Part(1));
        } else {
            world::get().wr.push_back(Wr::Pending);
            world::get().wr.push_back(Wr::Part(range(1, 3) as usize));
        }
        i += 1;
    }
    let t = ascii(1);
    ck!(s.c().subscribe(&t, QoS::AtMostOnce).is_ok());
    let mut at = 0;
    let mut i = 0;
    while i < cuts {
        let c = at + choice((n - at) as u32 + 1) as usize;
        if c > at {
            world::push(Seg::Data(b[at..c].to_vec()));
            if choice(2) == 1 {
                world::push(Seg::Pending);
            } else {
                s.run();
            }
            at = c;
        }
        i += 1;
    }
    if at < n {
        world::push(Seg::Data(b[at..].to_vec()));
    }
    s.run();
    ck!(s.done.is_none());
    // the command and the acknowledgement, in either order
    let (mut a, mut c) = (0, 0);
    while !s.quiet() {
        match s.sent() {
            Some(Req::PubAck(x)) => {
                ck!(x.pktid == i1);
                a += 1;
            }
            Some(Req::Subscribe { topics, .. }) => {
                ck!(eq(topics[0].0, t.as_bytes()));
                c += 1;
            }
            _ => ck!(false),
        }
    }
    ck!(a == 1 && c == 1);
    ck!(matches!(s.note(), Some(Notification::Message(_))));
    ck!(matches!(s.note(), Some(Notification::SubAck(_))));
    ck!(matches!(s.note(), Some(Notification::Message(_))));
    ck!(s.note().is_none());
    observe(world::get().reads as u64);
    observe(world::get().writes as u64);
    cover!();
}
pub fn h_chunks() {
    chunks(1, 2)
}
pub fn h_chunks_2() {
    chunks(2, 1)
}
pub fn h_chunks_deep() {
    chunks(2, 3)
}
/// A message larger than the read buffer, in pieces of any of the given sizes.
pub fn h_chunks_large() {
    step_limit(50_000_000);
    let mut s = Sim::up(0);
    let n = pick(&[126usize, 127, 128, 300, 8191, 8192, 8193, 16384, 40000]);
    let mut b = vec![0, 1, b't', 0, 9, 0];
    b.resize(n, b'x');
    let f = frame(0x32, &b);
    let step = pick(&[1usize, 100, 5000, 1 << 20]);
    let step = if n > 1000 && step == 1 { 777 } else { step };
    let mut i = 0;
    while i < f.len() {
        let j = if i + step < f.len() { i + step } else { f.len() };
        ck!(s.quiet() && s.note().is_none());
        s.data(&f[i..j]);
        ck!(s.done.is_none());
        i = j;
    }
    match s.sent() {
        Some(Req::PubAck(a)) => ck!(a.pktid == 9),
        _ => ck!(false),
    }
    ck!(matches!(s.note(), Some(Notification::Message(_))));
    ck!(s.quiet() && s.note().is_none());
    cover!();
}
/// The socket takes nothing for a while: the command is sent when it does, and only once.
pub fn h_chunks_blocked() {
    let mut s = Sim::up(order());
    let after = range(0, 6) as usize;
    if after > 0 {
        world::get().wr.push_back(Wr::Part(after));
    }
    world::get().wr.push_back(Wr::Block);
    let c = any_cmd(s.c());
    s.run();
    ck!(s.done.is_none());
    let id = id16();
    if choice(2) == 1 {
        s.data(&publish(1, 0, b"t", id, b""));
    } else {
        any_none();
    }
    ck!(s.done.is_none());
    let msgs = world::get().rx.len();
    world::get().wr.clear();
    world::writable();
    s.run();
    ck!(s.done.is_none());
    let r = s.sent();
    matches_cmd(r, &c);
    observe(msgs as u64);
    while !s.quiet() {
        match s.sent() {
            Some(Req::PubAck(a)) => {
                ck!(a.pktid == id);
                cover!();
            }
            _ => ck!(false),
        }
    }
    cover!();
}
fn any_none() {}

// ---- nothing the server sends makes it panic or spin -----------------------------------------------------------

fn total(n: u32) {
    let mut s = Sim::up(0);
    let n = range(0, n) as usize;
    let b = bytes(n);
    if choice(2) == 1 {
        any_cmd(s.c());
    }
    s.data(&b);
    observe(s.done.is_some() as u64);
    if s.done.is_none() {
        s.recv(Seg::Eof);
        ck!(s.done.is_some());
        cover!();
    }
}
pub fn h_loop_total() {
    total(5)
}
pub fn h_loop_total_deep() {
    total(7)
}
/// long packets, and packets whose lengths do not fit
fn loop_total_long(sizes: &[usize]) {
    step_limit(1_500_000_000);
    let b = crate::codec::long_packet(sizes);
    let mut s = if choice(2) == 0 { Sim::up(0) } else { Sim::new(0) };
    s.run();
    s.data(&b);
    observe(s.done.is_some() as u64);
    if s.done.is_none() {
        s.recv(Seg::Eof);
        ck!(s.done.is_some());
        cover!();
    }
}
pub fn h_loop_total_long() {
    loop_total_long(&crate::codec::LONG)
}
pub fn h_loop_total_very_long() {
    loop_total_long(&crate::codec::VERY_LONG)
}
/// the same before CONNACK
fn total_early(n: u32) {
    let mut s = Sim::new(0);
    s.run();
    let n = range(0, n) as usize;
    let b = bytes(n);
    s.data(&b);
    if s.done.is_none() {
        s.recv(Seg::Eof);
        ck!(s.done.is_some());
        cover!();
    }
}
pub fn h_loop_total_early() {
    total_early(6)
}
pub fn h_loop_total_early_deep() {
    total_early(8)
}
/// a complete packet of any type with arbitrary content, whatever has happened before
pub fn h_loop_total_state() {
    let mut s = Sim::up(0);
    let k = pick(&[1u32, 4]);
    match choice(6) {
        c @ 0..=2 => {
            let mut i = 0;
            while i < k {
                let r = match c {
                    0 => s.c().publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)),
                    1 => s.c().subscribe("t", QoS::AtLeastOnce),
                    _ => s.c().unsubscribe("t"),
                };
                ck!(r.is_ok());
                i += 1;
            }
            s.run();
        }
        3 => {
            let mut i = 0;
            while i < k {
                s.data(&publish(1, 0, b"t", 3, b"x"));
                i += 1;
            }
        }
        4 => {
            s.pass(8000);
            if k == 4 {
                s.data(&[0xd0, 0]);
            }
        }
        _ => {
            if k == 1 {
                s.notif = None;
            } else {
                s.client = None;
            }
            s.run();
        }
    }
    assume(s.done.is_none());
    let h = pick(&[0x20u8, 0x30, 0x32, 0x34, 0x40, 0x50, 0x60, 0x70, 0x90, 0xb0, 0xd0, 0xe0, 0xf0]);
    let n = range(0, 4) as usize;
    s.data(&frame(h, &bytes(n)));
    observe(s.done.is_some() as u64);
    if s.done.is_none() {
        s.recv(Seg::Eof);
        ck!(s.done.is_some());
        cover!();
    }
}
/// complete packets of each type with arbitrary content
fn total_packets(k: u32, n: u32) {
    let mut s = Sim::up(0);
    let mut i = 0;
    while i < k {
        let h = pick(&[0x20u8, 0x30, 0x32, 0x34, 0x40, 0x50, 0x60, 0x70, 0x90, 0xb0, 0xd0, 0xe0, 0xf0]);
        let n = range(0, n) as usize;
        s.data(&frame(h, &bytes(n)));
        i += 1;
    }
    observe(s.done.is_some() as u64);
    if s.done.is_none() {
        s.recv(Seg::Eof);
        ck!(s.done.is_some());
        cover!();
    }
}
pub fn h_loop_total_packets() {
    total_packets(1, 7)
}
pub fn h_loop_total_packets_2() {
    total_packets(2, 4)
}
