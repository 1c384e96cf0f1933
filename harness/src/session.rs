//! Sessions: arbitrary sequences of what server, client, listener and clock can do, against a model of the whole client.
use super::*;

const IN: u32 = 1; // notified and acknowledged once, in order
const OUT: u32 = 2; // commands are sent once, in order, with ids that are free
const ALIVE: u32 = 4; // keeps alive, does not give up a live server
const DEAD: u32 = 8; // gives up a server that does not answer
const STAY: u32 = 16; // the connection does not end by itself

/// What another property claims ends the path here.
macro_rules! cl {
    ($s:expr, $f:expr, $c:expr) => {
        if $s.focus & $f != 0 {
            ck!($c);
        } else {
            assume($c);
        }
    };
}

#[derive(Clone, Copy, PartialEq)]
enum A {
    Pub0,
    Pub1,
    SubAck,
    UnsubAck,
    /// acknowledges something in flight, or something that is not
    Ack,
    /// acknowledges the oldest in flight
    AckFirst,
    Pong,
    /// publish with QoS 1, always the same message
    CmdPub,
    CmdSub,
    CmdUnsub,
    Half,
    NoListener,
    NoListenerOnce,
    NoClients,
}
enum Out {
    Ack(u16),
    Cmd(Cmd),
}
struct Model {
    s: Sim,
    focus: u32,
    /// no choices are left to the steps
    plain: bool,
    ka: u64,
    now: u64,
    last_sent: u64,
    last_ping: u64,
    /// when the ping that has no answer was sent
    open: Option<u64>,
    out: Vec<Out>,
    notes: Vec<N>,
    flight: Vec<(F, u16)>,
}
impl Model {
    /// everything that has to be sent and notified has been, and nothing else
    fn settle(&mut self) {
        if let Some(t) = self.open {
            if self.now - t >= self.ka {
                cl!(self, DEAD, self.s.done == Some(Err(Some(ErrorKind::TimedOut))));
                cl!(self, DEAD, self.s.closed());
                return;
            }
        }
        cl!(self, STAY | ALIVE, self.s.done.is_none());
        let out = std::mem::take(&mut self.out);
        let mut i = 0;
        while let Some(r) = self.s.sent() {
            cl!(self, ALIVE, self.now - self.last_sent <= self.ka);
            self.last_sent = self.now;
            if let Req::PingReq = r {
                cl!(self, DEAD, self.open.is_none());
                cl!(self, ALIVE, self.now - self.last_ping >= self.ka);
                self.last_ping = self.now;
                self.open = Some(self.now);
                continue;
            }
            cl!(self, IN | OUT, i < out.len());
            match &out[i] {
                Out::Ack(id) => match r {
                    Req::PubAck(a) => cl!(self, IN, a.pktid == *id && a.reason == 0),
                    _ => cl!(self, IN, false),
                },
                Out::Cmd(c) => {
                    if self.focus & OUT == 0 {
                        assume(!matches!(r, Req::PubAck(_)));
                    }
                    let f = match c {
                        Cmd::Pub { .. } => F::Q1,
                        Cmd::Sub(..) => F::Sub,
                        Cmd::Unsub(..) => F::Unsub,
                    };
                    if let Some(id) = matches_cmd(Some(r), c) {
                        let mut j = 0;
                        while j < self.flight.len() {
                            cl!(self, OUT, self.flight[j].1 != id);
                            j += 1;
                        }
                        self.flight.push((f, id));
                    }
                }
            }
            i += 1;
        }
        if i < out.len() {
            match out[i] {
                Out::Ack(_) => cl!(self, IN, false),
                Out::Cmd(_) => cl!(self, OUT, false),
            }
        }
        cl!(self, ALIVE, self.now - self.last_sent <= self.ka);
        let notes = std::mem::take(&mut self.notes);
        if self.s.notif.is_some() {
            let mut i = 0;
            while i < notes.len() {
                match self.s.note() {
                    Some(n) => cl!(self, IN, is(&n, notes[i])),
                    None => cl!(self, IN, false),
                }
                i += 1;
            }
            cl!(self, IN, self.s.note().is_none());
        }
    }
    fn ended(&self) -> bool {
        self.s.done.is_some()
    }
    fn cmd(&mut self, a: A) {
        let c = self.s.c();
        let (ok, w) = match a {
            A::CmdPub => (
                c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).is_ok(),
                Cmd::Pub { topic: b"t".to_vec(), payload: b"x".to_vec(), text: false, q: QoS::AtLeastOnce },
            ),
            A::CmdSub => (c.subscribe("t", QoS::AtLeastOnce).is_ok(), Cmd::Sub(b"t".to_vec(), QoS::AtLeastOnce)),
            _ => (c.unsubscribe("t").is_ok(), Cmd::Unsub(b"t".to_vec())),
        };
        cl!(self, OUT | STAY, ok);
        self.out.push(Out::Cmd(w));
    }
    fn step(&mut self, a: A) {
        match a {
            A::Pub0 => {
                self.notes.push(N::Msg);
                self.s.data(&publish(0, 0, b"t", 0, b"x"));
            }
            A::Pub1 => {
                let id = if self.plain { 77 } else { id16() };
                let fl = if self.focus & IN != 0 && !self.plain { pick(&[0u8, 8]) } else { 0 };
                self.notes.push(N::Msg);
                self.out.push(Out::Ack(id));
                self.s.data(&publish(1, fl, b"t", id, b"x"));
            }
            A::SubAck => {
                self.notes.push(N::Sub);
                self.s.data(&suback(0xfff0, 1));
            }
            A::UnsubAck => {
                self.notes.push(N::Unsub);
                self.s.data(&unsuback(0xfff1, 0));
            }
            A::Ack | A::AckFirst => {
                let n = self.flight.len() as u32;
                let c = if n > 0 && a == A::Ack { choice(if n > 4 { 5 } else { n + 1 }) } else { 0 };
                if c == n {
                    self.s.data(&puback(0xfff2));
                } else {
                    match self.flight.remove(c as usize) {
                        (F::Q1, id) => self.s.data(&puback(id)),
                        (F::Sub, id) => {
                            self.notes.push(N::Sub);
                            self.s.data(&suback(id, 1))
                        }
                        (_, id) => {
                            self.notes.push(N::Unsub);
                            self.s.data(&unsuback(id, 0))
                        }
                    }
                }
            }
            A::Pong => {
                self.open = None;
                self.s.data(&[0xd0, 0]);
            }
            A::CmdPub | A::CmdSub | A::CmdUnsub => {
                self.cmd(a);
                self.s.run();
            }
            A::Half => {
                self.now += self.ka / 2;
                self.s.pass(self.ka / 2);
            }
            A::NoListener | A::NoListenerOnce => {
                if self.s.notif.is_some() {
                    self.s.notif = None;
                    self.s.run();
                }
            }
            A::NoClients => {
                self.s.client = None;
                self.s.run();
                let p = self.s.polls;
                self.s.run();
                cl!(self, STAY, self.s.polls == p);
            }
        }
        self.settle();
    }
}
/// connected, with some of `acts` before
fn begin(focus: u32, acts: &[A], sel: u32) -> Model {
    let mut s = Sim::new(sel);
    s.run();
    let ka = match s.sent() {
        Some(Req::Connect { keep_alive, .. }) => keep_alive as u64 * 1000,
        _ => {
            assume(false);
            0
        }
    };
    assume(ka > 0 && ka % 2 == 0);
    let mut m = Model { s, focus, plain: false, ka, now: 0, last_sent: 0, last_ping: 0, open: None, out: vec![], notes: vec![], flight: vec![] };
    // some of it may happen before CONNACK
    let mut pre = vec![];
    let mut i = 0;
    while i < acts.len() {
        match acts[i] {
            A::NoListener | A::NoClients | A::CmdPub => pre.push(acts[i]),
            _ => {}
        }
        i += 1;
    }
    let c = choice(pre.len() as u32 + 1) as usize;
    if c < pre.len() {
        match pre[c] {
            A::NoListener => m.s.notif = None,
            A::NoClients => m.s.client = None,
            a => m.cmd(a),
        }
        m.s.run();
        assume(m.s.quiet() && m.s.done.is_none());
    }
    m.s.data(&[0x20, 3, 0, 0, 0]);
    if m.s.notif.is_some() {
        cl!(m, IN, matches!(m.s.note(), Some(Notification::ConnAck(_))));
    }
    m.settle();
    m
}
/// `k` steps out of `acts`
fn session(focus: u32, acts: &[A], k: u32, sel: u32) -> Option<Model> {
    let mut m = begin(focus, acts, sel);
    let mut i = 0;
    while i < k {
        let a = acts[choice(acts.len() as u32) as usize];
        match a {
            A::NoListener => assume(m.s.notif.is_some()),
            A::NoClients | A::CmdPub | A::CmdSub | A::CmdUnsub => assume(m.s.client.is_some()),
            _ => {}
        }
        m.step(a);
        if m.ended() {
            cover!();
            return None;
        }
        i += 1;
    }
    // and all is as before
    m.step(A::Pub1);
    if m.s.client.is_some() {
        m.step(A::CmdPub);
        m.step(A::CmdSub);
    }
    cover!();
    Some(m)
}
const S_IN: [A; 7] = [A::Pub0, A::Pub1, A::SubAck, A::UnsubAck, A::Ack, A::Pong, A::CmdPub];
pub fn h_sess_in() {
    session(IN, &S_IN, 4, 0);
}
pub fn h_sess_in_deep() {
    session(IN, &S_IN, 5, 0);
}
const S_LISTENER: [A; 7] = [A::NoListener, A::Pub0, A::Pub1, A::SubAck, A::CmdPub, A::Half, A::Pong];
pub fn h_sess_listener() {
    session(IN | OUT | STAY, &S_LISTENER, 4, 0);
}
pub fn h_sess_listener_deep() {
    session(IN | OUT | STAY, &S_LISTENER, 5, 0);
}
const S_OUT: [A; 7] = [A::CmdPub, A::CmdSub, A::CmdUnsub, A::Ack, A::Pub1, A::Half, A::Pong];
pub fn h_sess_out() {
    session(OUT, &S_OUT, 4, 0);
}
pub fn h_sess_out_deep() {
    session(OUT, &S_OUT, 5, 0);
}
const S_KA: [A; 4] = [A::Half, A::Pong, A::Pub1, A::CmdPub];
pub fn h_sess_alive() {
    session(ALIVE, &S_KA, 6, 0);
}
pub fn h_sess_alive_deep() {
    session(ALIVE, &S_KA, 8, 0);
}
pub fn h_sess_dead() {
    session(DEAD, &S_KA, 6, 0);
}
pub fn h_sess_dead_deep() {
    session(DEAD, &S_KA, 8, 0);
}
/// how it ends after any session: as asked by either side
fn sess_end(k: u32, sel: u32) {
    let acts = [A::NoClients, A::CmdPub, A::CmdSub, A::Ack, A::Pub1, A::Half, A::Pong, A::NoListener];
    let mut m = match session(STAY, &acts, k, sel) {
        Some(m) => m,
        None => return,
    };
    finish(&mut m);
}
fn finish(m: &mut Model) {
    let c = choice(if m.s.client.is_some() { 4 } else { 3 });
    match c {
        0 => {
            m.s.recv(Seg::Eof);
            ck!(m.s.done == Some(Ok(())));
        }
        1 => {
            m.s.data(&[0xe0, 0]);
            ck!(m.s.done == Some(Ok(())));
        }
        2 => {
            m.s.data(&[0xe0, 1, 0x8b]);
            ck!(matches!(m.s.done, Some(Err(_))));
        }
        _ => {
            ck!(m.s.c().disconnect().is_ok());
            m.s.run();
            ck!(m.s.done == Some(Ok(())));
            ck!(matches!(m.s.sent(), Some(Req::Disconnect(_))));
        }
    }
    ck!(m.s.quiet() && m.s.closed());
    cover!();
}
pub fn h_sess_end() {
    sess_end(3, 0)
}
pub fn h_sess_end_deep() {
    sess_end(4, order())
}
/// anything that can happen
pub fn h_sess_all() {
    let acts = [
        A::Pub0,
        A::Pub1,
        A::SubAck,
        A::UnsubAck,
        A::Ack,
        A::Pong,
        A::CmdPub,
        A::CmdSub,
        A::CmdUnsub,
        A::Half,
        A::NoListener,
        A::NoClients,
    ];
    session(STAY, &acts, 3, 0);
}

/// Any number of rounds, then each kind of step: what happened often works once more.
fn long(focus: u32, rounds: u32, cycle: &[A]) {
    step_limit(1_000_000_000);
    let mut m = begin(focus, &[], 0);
    m.plain = true;
    let mut r = 0;
    while r < rounds && choice(2) == 1 {
        let mut i = 0;
        while i < cycle.len() {
            match cycle[i] {
                A::Ack => {
                    if m.flight.is_empty() {
                        i += 1;
                        continue;
                    }
                    m.step(A::AckFirst);
                }
                a => m.step(a),
            }
            // a server that answers
            if m.open.is_some() {
                m.step(A::Pong);
            }
            if m.ended() {
                return;
            }
            i += 1;
        }
        r += 1;
    }
    m.plain = false;
    let acts = [A::Pub0, A::Pub1, A::SubAck, A::UnsubAck, A::Ack, A::Pong, A::CmdPub, A::CmdSub, A::CmdUnsub, A::Half];
    let a = acts[choice(acts.len() as u32) as usize];
    m.step(a);
    if m.ended() {
        return;
    }
    let end = if focus & DEAD != 0 { [A::Half, A::Half, A::Half, A::Half] } else { [A::Pub1, A::CmdPub, A::CmdSub, A::CmdUnsub] };
    let mut i = 0;
    while i < 4 {
        m.step(end[i]);
        if m.ended() {
            break;
        }
        i += 1;
    }
    if focus & DEAD != 0 {
        ck!(m.ended());
    }
    cover!();
}
const ROUND: [A; 12] = [
    A::Pub0,
    A::CmdPub,
    A::Pub1,
    A::Ack,
    A::CmdSub,
    A::Half,
    A::SubAck,
    A::Ack,
    A::UnsubAck,
    A::CmdUnsub,
    A::Ack,
    A::Half,
];
pub fn h_sess_long_in() {
    long(IN, 300, &ROUND)
}
pub fn h_sess_long_out() {
    long(OUT, 300, &ROUND)
}
pub fn h_sess_long_alive() {
    long(ALIVE | STAY, 300, &ROUND)
}
pub fn h_sess_long_dead() {
    long(DEAD, 300, &ROUND)
}
/// without a listener, for long
pub fn h_sess_long_listener() {
    let mut cycle = vec![A::NoListenerOnce];
    cycle.extend_from_slice(&ROUND);
    long(IN | OUT | STAY, 300, &cycle)
}
/// idle for long
pub fn h_sess_long_idle() {
    long(ALIVE | STAY, 300, &[A::Half])
}
/// only one kind of traffic for long
pub fn h_sess_long_one() {
    let c: &[&[A]] = &[&[A::Pub0], &[A::Pub1], &[A::SubAck], &[A::UnsubAck], &[A::CmdPub, A::Ack], &[A::CmdSub, A::Ack], &[A::CmdUnsub, A::Ack], &[A::CmdPub]];
    long(STAY, 300, c[choice(8) as usize])
}
/// many requests that nobody answers
const UNANSWERED: [&[A]; 4] = [&[A::CmdPub], &[A::CmdSub], &[A::CmdUnsub], &[A::CmdPub, A::CmdSub, A::CmdPub, A::CmdUnsub]];
fn long_flight(focus: u32, rounds: u32) {
    let k = choice(4) as usize;
    long(focus, if k == 3 { rounds / 4 } else { rounds }, UNANSWERED[k])
}
pub fn h_sess_long_flight_in() {
    long_flight(IN | STAY, 270)
}
pub fn h_sess_long_flight_out() {
    long_flight(OUT | STAY, 270)
}
pub fn h_sess_long_flight_alive() {
    long_flight(ALIVE | STAY, 130)
}
pub fn h_sess_long_flight_dead() {
    long_flight(DEAD, 130)
}
/// how it ends after any number of steps
pub fn h_sess_long_end() {
    step_limit(1_000_000_000);
    let c: [&[A]; 7] = [&[A::Pub0], &[A::Pub1], &[A::CmdPub], &[A::CmdSub], &[A::CmdUnsub], &[A::Half], &ROUND];
    let c = c[choice(7) as usize];
    let mut m = begin(STAY, &[], 0);
    m.plain = true;
    let mut r = 0;
    let rounds = if c.len() > 1 { 30 } else { 270 };
    while r < rounds && choice(2) == 1 {
        let mut i = 0;
        while i < c.len() {
            if c[i] == A::Ack {
                m.step(A::AckFirst);
            } else {
                m.step(c[i]);
            }
            if m.open.is_some() {
                m.step(A::Pong);
            }
            if m.ended() {
                return;
            }
            i += 1;
        }
        r += 1;
    }
    finish(&mut m);
}
/// without clients, without a listener, without both
const S_ALONE: [A; 6] = [A::NoListener, A::NoClients, A::Half, A::Pong, A::Pub1, A::CmdSub];
pub fn h_sess_alone() {
    session(IN | STAY, &S_ALONE, 5, 0);
}
pub fn h_sess_alone_alive() {
    session(ALIVE | STAY, &S_ALONE, 6, 0);
}
pub fn h_sess_alone_dead() {
    session(DEAD, &S_ALONE, 6, 0);
}
/// every kind of traffic but the one that keeps alive
const S_TRAFFIC: [A; 7] = [A::Half, A::Pong, A::SubAck, A::UnsubAck, A::AckFirst, A::CmdPub, A::Pub0];
pub fn h_sess_traffic_alive() {
    session(ALIVE | STAY, &S_TRAFFIC, 5, 0);
}
pub fn h_sess_traffic_dead() {
    session(DEAD, &S_TRAFFIC, 5, 0);
}
/// some traffic, again and again, between the halves of the interval
fn traffic(focus: u32) {
    step_limit(60_000_000);
    let mut m = begin(focus, &[], 0);
    let acts = [A::SubAck, A::UnsubAck, A::AckFirst, A::CmdPub, A::CmdSub, A::CmdUnsub, A::Pub0, A::Pub1];
    // requests that can be answered later
    let open = choice(3);
    let mut i = 0;
    while i < open * 3 {
        m.step([A::CmdPub, A::CmdSub, A::CmdUnsub][(i % 3) as usize]);
        i += 1;
    }
    let a = acts[choice(8) as usize];
    let b = acts[choice(8) as usize];
    let pong = choice(7);
    let mut i = 0;
    while i < 7 {
        m.step(A::Half);
        if m.ended() {
            break;
        }
        if i == pong {
            m.step(A::Pong);
        }
        m.step(if i % 2 == 0 { a } else { b });
        if m.ended() {
            break;
        }
        // only the server talks in the end
        if i == 3 && focus & ALIVE != 0 && m.open.is_some() {
            m.step(A::Pong);
        }
        i += 1;
    }
    cover!();
}
pub fn h_sess_between_alive() {
    traffic(ALIVE | STAY)
}
pub fn h_sess_between_dead() {
    traffic(DEAD)
}
