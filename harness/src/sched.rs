//! How and for how long the event loop is polled: spurious polls, other wakers, dropped at any point, floods.
use super::*;

// ---- any polling schedule --------------------------------------------------------------------------------------

#[derive(Clone)]
enum Ev {
    Data(Vec<u8>),
    Pub,
    Sub,
    Unsub,
    /// milliseconds
    Time(u64),
    /// the socket takes nothing, or `n` bytes and then nothing
    Block(usize),
    Room,
    Take,
    NoListener,
    NoClients,
    Disc,
    Eof,
    Fail,
}
#[derive(Clone, Copy, PartialEq)]
enum Poke {
    Not,
    /// polled although nothing has happened
    Again,
    /// by another task, whose waker is the one that counts from then on
    Moved,
    /// any number of times
    Many,
}
struct Obs {
    tx: Vec<u8>,
    notes: Vec<u8>,
    done: Option<End>,
}
impl Sim {
    fn poke(&mut self, p: Poke) {
        if p == Poke::Not || self.done.is_some() {
            return;
        }
        let mut i = 0;
        while self.done.is_none() {
            if i == 1200 || p != Poke::Many && i == 1 || p == Poke::Many && choice(2) == 0 {
                break;
            }
            unsafe {
                if p == Poke::Moved {
                    GEN += 1;
                }
                WOKEN = true;
            }
            self.run();
            i += 1;
        }
    }
    fn event(&mut self, e: &Ev) -> Vec<u8> {
        let w = world::get();
        let mut notes = vec![];
        match e {
            Ev::Data(d) => world::push(Seg::Data(d.clone())),
            Ev::Pub => {
                if let Some(c) = self.client.as_mut() {
                    let r = c.publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce));
                    notes.push(100 + r.is_ok() as u8);
                }
            }
            Ev::Sub => {
                if let Some(c) = self.client.as_mut() {
                    notes.push(100 + c.subscribe("t", QoS::AtLeastOnce).is_ok() as u8);
                }
            }
            Ev::Unsub => {
                if let Some(c) = self.client.as_mut() {
                    notes.push(100 + c.unsubscribe("t").is_ok() as u8);
                }
            }
            Ev::Time(ms) => world::advance(*ms),
            Ev::Block(n) => {
                if w.wr.is_empty() {
                    if *n > 0 {
                        w.wr.push_back(Wr::Part(*n));
                    }
                    w.wr.push_back(Wr::Block);
                }
            }
            Ev::Room => {
                w.wr.clear();
                world::writable();
            }
            Ev::Take => {
                if self.notif.is_some() {
                    while let Some(n) = self.note() {
                        notes.push(match n {
                            Notification::ConnAck(_) => 1,
                            Notification::Message(_) => 2,
                            Notification::SubAck(_) => 3,
                            Notification::UnsubAck(_) => 4,
                        });
                    }
                }
            }
            Ev::NoListener => self.notif = None,
            Ev::NoClients => self.client = None,
            Ev::Disc => {
                if let Some(c) = self.client.as_mut() {
                    notes.push(100 + c.disconnect().is_ok() as u8);
                }
            }
            Ev::Eof => world::push(Seg::Eof),
            Ev::Fail => world::push(Seg::Err(ErrorKind::ConnectionReset)),
        }
        self.run();
        notes
    }
}
/// the same events, with and without `pokes[i]` after the i-th
fn transcript(evs: &[Ev], pokes: &[Poke], sel: u32, pending: u32) -> Vec<Obs> {
    let mut s = Sim::new(sel);
    world::get().connect_pending = pending;
    s.run();
    let mut r = vec![];
    let mut i = 0;
    while i < evs.len() {
        if i > 0 {
            s.poke(pokes[i - 1]);
        }
        let notes = s.event(&evs[i]);
        r.push(Obs { tx: vec![], notes, done: s.done });
        i += 1;
    }
    s.poke(pokes[i - 1]);
    // and a last look
    let notes = s.event(&Ev::Take);
    r.push(Obs { tx: world::get().tx.clone(), notes, done: s.done });
    r
}
/// `mode` 0: after each event any or none; 1, 2: after each; 3: many before the last
fn polling(mut evs: Vec<Ev>, menu: &[Ev], k: u32, mode: u32, sel: u32) {
    step_limit(60_000_000);
    let mut i = 0;
    while i < k {
        evs.push(match &menu[choice(menu.len() as u32) as usize] {
            Ev::Time(_) => {
                let ms = u16s();
                assume(ms <= 6000);
                Ev::Time(ms as u64)
            }
            e => e.clone(),
        });
        i += 1;
    }
    let mut pokes = vec![];
    let mut none = vec![];
    let mut i = 0;
    while i < evs.len() {
        let m = if mode == 0 { choice(3) } else { mode };
        pokes.push(match m {
            0 => Poke::Not,
            1 => Poke::Again,
            2 => Poke::Moved,
            _ if i + 2 == evs.len() => Poke::Many,
            _ => Poke::Not,
        });
        none.push(Poke::Not);
        i += 1;
    }
    let pending = mode & 1;
    let a = transcript(&evs, &none, sel, pending);
    let b = transcript(&evs, &pokes, sel, pending);
    let mut i = 0;
    while i < a.len() {
        ck!(a[i].done == b[i].done);
        ck!(eq(&a[i].notes, &b[i].notes));
        ck!(eq(&a[i].tx, &b[i].tx));
        i += 1;
    }
    cover!();
}
fn menu() -> Vec<Ev> {
    let id = id16();
    let p = publish(1, 0, b"t", id, b"x");
    vec![
        Ev::Data(p[..3].to_vec()),
        Ev::Data(p[3..].to_vec()),
        Ev::Data(p),
        Ev::Data(vec![0xd0, 0]),
        Ev::Data(suback(1, 1)),
        Ev::Pub,
        Ev::Sub,
        Ev::Time(4000),
        Ev::Block(2),
        Ev::Room,
        Ev::Take,
    ]
}
fn connack() -> Ev {
    Ev::Data(vec![0x20, 3, 0, 0, 0])
}
pub fn h_poll_spurious() {
    polling(vec![connack()], &menu(), 3, 1 + choice(2), 0)
}
pub fn h_poll_spurious_deep() {
    polling(vec![connack()], &menu(), 3, 0, order())
}
pub fn h_poll_spurious_4() {
    polling(vec![connack()], &menu(), 4, 1 + choice(2), 0)
}
pub fn h_poll_spurious_5() {
    polling(vec![connack()], &menu(), 5, 1 + choice(2), 0)
}
pub fn h_poll_often() {
    match choice(2) {
        0 => polling(vec![Ev::Take], &[connack()], 1, 3, 0),
        _ => polling(vec![connack()], &menu(), 1, 3, 0),
    }
}
/// while it connects and waits for CONNACK, and how it ends
pub fn h_poll_ends() {
    let start = vec![Ev::Time(4000), Ev::Data(vec![0x20, 3, 0]), Ev::Data(vec![0, 0])];
    let m = [
        Ev::Pub,
        Ev::Disc,
        Ev::Eof,
        Ev::Fail,
        Ev::Data(vec![0xe0, 0]),
        Ev::Data(vec![0x30]),
        Ev::Block(1),
        Ev::Room,
        Ev::NoListener,
        Ev::NoClients,
        Ev::Time(4000),
    ];
    let at = choice(3) as usize;
    polling(start[..at].to_vec(), &m, 3, 1 + choice(2), order())
}
/// while it waits for the consumer of notifications
pub fn h_poll_full() {
    let mut all = vec![];
    let mut i = 0;
    while i < 105 {
        all.extend_from_slice(&publish(0, 0, b"t", 0, b"x"));
        i += 1;
    }
    let id = id16();
    let m = [
        Ev::Data(publish(1, 0, b"t", id, b"x")),
        Ev::Data(vec![0xd0, 0]),
        Ev::Pub,
        Ev::Time(4000),
        Ev::Block(1),
        Ev::Room,
        Ev::Take,
        Ev::NoListener,
        Ev::Disc,
    ];
    polling(vec![connack(), Ev::Data(all)], &m, 3, 1 + choice(2), 0)
}

// ---- dropped at any point --------------------------------------------------------------------------------------

/// what is left when there is no event loop any more
fn gone(mut s: Sim, notes: Option<u32>) {
    let connected = world::get().connects > 0;
    let sent = world::get().tx.len();
    if connected {
        ck!(s.closed());
    } else {
        ck!(sent == 0);
    }
    let mut other = s.client.as_ref().map(|c| c.clone());
    // notifications that were made can still be taken, then there are no more
    if let Some(rx) = s.notif.as_mut() {
        let w = idle();
        let mut cx = Context::from_waker(&w);
        let mut k = 0;
        loop {
            match Pin::new(&mut *rx).poll_next(&mut cx) {
                Poll::Ready(Some(_)) => k += 1,
                Poll::Ready(None) => break,
                Poll::Pending => {
                    ck!(false);
                    break;
                }
            }
        }
        if let Some(n) = notes {
            ck!(k == n);
        }
    }
    if let Some(c) = s.client.as_mut() {
        let o = other.as_mut().unwrap();
        ck!(c.publish(PublishBuilder::from_bytes("t", b"")).is_err());
        ck!(o.publish(PublishBuilder::from_bytes("t", b"").qos(QoS::AtLeastOnce)).is_err());
        ck!(c.subscribe("t", QoS::AtMostOnce).is_err());
        ck!(o.unsubscribe("t").is_err());
        ck!(c.disconnect().is_err());
    }
    ck!(world::get().tx.len() == sent);
    ck!(!connected || world::get().dropped == 1);
    cover!();
}
fn dropped(k: u32, sel: u32) {
    let mut s = Sim::new(sel);
    let stage = choice(6);
    if stage == 0 {
        // never polled, commands are waiting
        if choice(2) == 1 {
            ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok());
        }
        s.ev = None;
        return gone(s, Some(0));
    }
    if stage == 1 {
        // while it connects
        world::get().connect_pending = 2;
        s.once();
        s.ev = None;
        return gone(s, Some(0));
    }
    if stage == 2 {
        // inside CONNECT
        world::get().wr.push_back(Wr::Part(3));
        world::get().wr.push_back(Wr::Block);
        s.run();
        ck!(s.done.is_none());
        s.ev = None;
        return gone(s, Some(0));
    }
    s.run();
    let a = [0x20, 3, 0, 0, 0];
    if stage == 3 {
        s.data(&a[..choice(4) as usize + 1]);
        s.ev = None;
        return gone(s, Some(0));
    }
    s.data(&a);
    let mut n = 1;
    let menu = menu();
    // the first two are halves of a packet
    let mut blocked = false;
    let mut i = 0;
    while i < k && s.done.is_none() {
        let c = 2 + choice(menu.len() as u32 - 2) as usize;
        match (&menu[c], c) {
            (Ev::Data(_), 2) | (Ev::Data(_), 4) => n += 1,
            (Ev::Block(_), _) => blocked = true,
            (Ev::Take, _) => n = 0,
            _ => {}
        }
        s.event(&menu[c]);
        i += 1;
    }
    if stage == 5 && s.done.is_none() {
        // or it ends
        match choice(4) {
            0 => s.recv(Seg::Eof),
            1 => s.data(&[0xe0, 0]),
            2 => s.recv(Seg::Err(ErrorKind::ConnectionReset)),
            _ => {
                let _ = s.c().disconnect();
                s.run();
            }
        }
        if !blocked {
            ck!(s.done.is_some());
        }
    }
    s.ev = None;
    gone(s, if blocked { None } else { Some(n) })
}
impl Sim {
    /// one poll only
    fn once(&mut self) {
        let w = waker();
        let mut cx = Context::from_waker(&w);
        if let Some(ev) = self.ev.as_mut() {
            ck!(ev.as_mut().poll(&mut cx).is_pending());
        }
    }
}
pub fn h_drop() {
    dropped(2, 0)
}
pub fn h_drop_deep() {
    dropped(3, order())
}
pub fn h_drop_4() {
    dropped(4, order())
}
pub fn h_drop_5() {
    dropped(5, 0)
}
/// with more notifications than fit
pub fn h_drop_full() {
    step_limit(60_000_000);
    let mut s = Sim::up(0);
    let mut all = vec![];
    let n = range(98, 105);
    let mut i = 0;
    while i < n {
        all.extend_from_slice(&publish(0, 0, b"t", 0, b"x"));
        i += 1;
    }
    s.data(&all);
    ck!(s.done.is_none());
    s.ev = None;
    // the ones that were not made yet are lost
    gone(s, if n <= 100 { Some(n) } else { None })
}

// ---- floods ----------------------------------------------------------------------------------------------------

const MOST: usize = 1000;
/// nobody takes notifications
fn flood_notifications(flood: usize) {
    step_limit(300_000_000);
    let mut s = Sim::up(0);
    let c = choice(3);
    let p = match c {
        0 => publish(0, 0, b"t", 0, b"x"),
        1 => publish(1, 0, b"t", id16(), b"x"),
        _ => suback(7, 1),
    };
    let mut i = 0;
    while i < flood {
        world::get().rx.push_back(Seg::Data(p.clone()));
        i += 1;
    }
    s.poke(Poke::Again);
    ck!(s.done.is_none());
    ck!(flood - world::get().rx.len() <= MOST);
    // and nothing is lost
    let mut n = 0;
    loop {
        while let Some(_) = s.note() {
            n += 1;
        }
        if !unsafe { WOKEN } {
            break;
        }
        s.run();
    }
    ck!(n == flood);
    ck!(s.done.is_none());
    cover!();
}
pub fn h_flood_notifications() {
    flood_notifications(1500)
}
pub fn h_flood_notifications_deep() {
    flood_notifications(4000)
}
/// the server sends without end and takes nothing
fn flood_acks(flood: usize) {
    step_limit(300_000_000);
    let mut s = Sim::up(0);
    world::get().wr.push_back(Wr::Block);
    let id = id16();
    let p = publish(1, 0, b"t", id, b"x");
    let mut i = 0;
    while i < flood {
        world::get().rx.push_back(Seg::Data(p.clone()));
        i += 1;
    }
    s.poke(Poke::Again);
    ck!(s.done.is_none());
    ck!(flood - world::get().rx.len() <= MOST);
    world::get().wr.clear();
    world::writable();
    s.run();
    let mut n = 0;
    let mut acks = 0;
    loop {
        while let Some(_) = s.note() {
            n += 1;
        }
        while let Some(r) = s.sent() {
            match r {
                Req::PubAck(a) => ck!(a.pktid == id),
                _ => ck!(false),
            }
            acks += 1;
        }
        if !unsafe { WOKEN } {
            break;
        }
        s.run();
    }
    ck!(n == flood && acks == flood);
    cover!();
}
pub fn h_flood_acks() {
    flood_acks(1500)
}
pub fn h_flood_acks_deep() {
    flood_acks(4000)
}
/// the server does not take what is published
pub fn h_flood_commands() {
    let flood = 1500;
    step_limit(300_000_000);
    let before = choice(2) == 1;
    let mut s = if before { Sim::new(0) } else { Sim::up(0) };
    world::get().wr.push_back(Wr::Block);
    s.run();
    let mut ok = 0;
    let mut i = 0;
    while i < flood {
        if s.c().publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).is_ok() {
            ok += 1;
        }
        s.run();
        i += 1;
    }
    ck!(s.done.is_none());
    ck!(ok <= MOST);
    world::get().wr.clear();
    world::writable();
    s.run();
    if before {
        ck!(matches!(s.sent(), Some(Req::Connect { .. })));
        s.data(&[0x20, 3, 0, 0, 0]);
    }
    let mut n = 0;
    while let Some(r) = s.sent() {
        ck!(matches!(r, Req::Publish(_)));
        n += 1;
    }
    ck!(n == ok && s.done.is_none());
    cover!();
}

// ---- CONNACK and what follows it in the same read --------------------------------------------------------------

/// connecting, CONNECT sent
fn connecting(sel: u32) -> Sim {
    let mut s = Sim::new(sel);
    s.run();
    ck!(matches!(s.sent(), Some(Req::Connect { .. })));
    s
}
/// cut anywhere, the pieces read one by one or after pauses
fn pieces(s: &mut Sim, b: &[u8], cuts: u32) {
    let mut at = 0;
    let mut i = 0;
    while i < cuts {
        let c = at + choice((b.len() - at) as u32 + 1) as usize;
        if c > at {
            world::push(Seg::Data(b[at..c].to_vec()));
            match choice(3) {
                0 => world::push(Seg::Pending),
                1 => s.run(),
                _ => {}
            }
            at = c;
        }
        i += 1;
    }
    if at < b.len() {
        world::push(Seg::Data(b[at..].to_vec()));
    }
}
/// what comes together with CONNACK is not lost
fn chunks_connack(cuts: u32, sel: u32) {
    let mut s = connecting(sel);
    let i1 = id16();
    let mut b = vec![0x20, 3, choice(2) as u8, 0, 0];
    b.extend_from_slice(&publish(1, 0, b"to", i1, &bytes(1)));
    b.extend_from_slice(&suback(id16(), 0));
    b.extend_from_slice(&publish(0, 1, b"t", 0, b""));
    let cmd = choice(2) == 1;
    if cmd {
        ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok());
    }
    pieces(&mut s, &b, cuts);
    s.run();
    ck!(s.done.is_none());
    let (mut a, mut c) = (0, 0);
    while let Some(r) = s.sent() {
        match r {
            Req::PubAck(x) => {
                ck!(x.pktid == i1);
                a += 1;
            }
            Req::Subscribe { .. } => c += 1,
            _ => ck!(false),
        }
    }
    ck!(a == 1 && c == cmd as u32);
    ck!(matches!(s.note(), Some(Notification::ConnAck(_))));
    ck!(matches!(s.note(), Some(Notification::Message(_))));
    ck!(matches!(s.note(), Some(Notification::SubAck(_))));
    ck!(matches!(s.note(), Some(Notification::Message(_))));
    ck!(s.note().is_none());
    cover!();
}
pub fn h_chunks_connack() {
    chunks_connack(1, order())
}
pub fn h_chunks_connack_deep() {
    chunks_connack(2, order())
}
/// the server ends the connection right behind CONNACK
pub fn h_end_early() {
    let mut s = connecting(order());
    let cmd = choice(2) == 1;
    if cmd {
        ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok());
    }
    let mut b = vec![0x20, 3, 0, 0, 0];
    let reason = u8s();
    let c = choice(6);
    match c {
        0 => b.extend_from_slice(&[0xe0, 0]),
        1 => b.extend_from_slice(&[0xe0, 1, reason]),
        2 => b.extend_from_slice(&[0x30, 5, 0]),
        3 => b.extend_from_slice(&[0x32, 0]),
        _ => {}
    }
    pieces(&mut s, &b, 1);
    match c {
        2 | 4 => world::push(Seg::Eof),
        5 => world::push(Seg::Err(ErrorKind::ConnectionReset)),
        _ => {}
    }
    s.run();
    match c {
        0 | 4 => ck!(s.done == Some(Ok(()))),
        1 => {
            if reason == 0 {
                ck!(s.done == Some(Ok(())))
            } else {
                // an error, or not even a known reason
                ck!(matches!(s.done, Some(Err(_))))
            }
        }
        _ => ck!(matches!(s.done, Some(Err(_)))),
    }
    ck!(s.closed());
    // the command may have been sent or not, but nothing else
    match s.sent() {
        None => {}
        Some(Req::Subscribe { .. }) => ck!(cmd && s.quiet()),
        _ => ck!(false),
    }
    ck!(matches!(s.note(), Some(Notification::ConnAck(_))));
    ck!(s.note().is_none());
    cover!();
}
/// a refusal, and whatever else the server sends with it
pub fn h_hs_refused_more() {
    let mut s = connecting(order());
    let cmd = choice(2) == 1;
    if cmd {
        ck!(s.c().subscribe("t", QoS::AtMostOnce).is_ok());
    }
    let i = choice(refm::CONNACK.len() as u32 - 1) as usize + 1;
    let mut b = vec![0x20, 3, 0, refm::CONNACK[i], 0];
    match choice(4) {
        0 => b.extend_from_slice(&publish(1, 0, b"t", id16(), b"x")),
        1 => b.extend_from_slice(&[0x20, 3, 0, 0, 0]),
        2 => b.extend_from_slice(&[0xe0, 0]),
        _ => b.extend_from_slice(&bytes(2)),
    }
    pieces(&mut s, &b, 1);
    if choice(2) == 1 {
        world::push(Seg::Eof);
    }
    s.run();
    ck!(matches!(s.done, Some(Err(_))));
    ck!(s.quiet() && s.closed());
    ck!(matches!(s.note(), Some(Notification::ConnAck(_))));
    ck!(s.note().is_none());
    cover!();
}
/// disconnect before CONNACK, with unanswered requests, and to a server that is slow to take it
pub fn h_end_client_slow() {
    let early = choice(2) == 1;
    let mut s = if early { Sim::new(order()) } else { Sim::up(order()) };
    let block = choice(2) == 1;
    if block {
        let n = choice(3) as usize;
        if n > 0 {
            world::get().wr.push_back(Wr::Part(n));
        }
        world::get().wr.push_back(Wr::Block);
    }
    let a = choice(3);
    let mut want = vec![];
    let mut i = 0;
    while i < a {
        want.push(any_cmd(s.c()));
        if choice(2) == 1 {
            s.run();
        }
        i += 1;
    }
    // messages nobody has taken yet
    if !early && choice(2) == 1 {
        world::push(Seg::Data(publish(0, 0, b"t", 0, b"x")));
    }
    ck!(s.c().disconnect().is_ok());
    s.run();
    if early || block {
        ck!(s.done.is_none());
    }
    if block {
        let ms = u16s();
        assume(ms < 4000);
        s.pass(ms as u64);
        ck!(s.done.is_none() && !s.closed());
        world::get().wr.clear();
        world::writable();
        s.run();
    }
    if early {
        ck!(matches!(s.sent(), Some(Req::Connect { .. })));
        ck!(s.quiet());
        s.data(&[0x20, 3, 0, 0, 0]);
    }
    ck!(s.done == Some(Ok(())));
    let mut i = 0;
    while i < want.len() {
        let r = s.sent();
        matches_cmd(r, &want[i]);
        i += 1;
    }
    match s.sent() {
        Some(Req::Disconnect(d)) => ck!(d.reason == 0),
        _ => ck!(false),
    }
    ck!(s.quiet() && s.closed());
    cover!();
}

// ---- a socket that stops taking anywhere -------------------------------------------------------------------------

/// Whatever is sent, the socket takes any number of its bytes and then none for a while: it is finished later.
pub fn h_blocked_anywhere() {
    let kind = choice(7);
    let n = choice(48) as usize;
    let block = || {
        if n > 0 {
            world::get().wr.push_back(Wr::Part(n));
        }
        world::get().wr.push_back(Wr::Block);
    };
    let room = |s: &mut Sim| {
        world::get().wr.clear();
        world::writable();
        s.run();
    };
    if kind == 0 {
        // CONNECT
        let mut s = Sim::new(0);
        block();
        s.run();
        ck!(s.done.is_none());
        room(&mut s);
        ck!(matches!(s.sent(), Some(Req::Connect { .. })) && s.quiet());
        s.data(&[0x20, 3, 0, 0, 0]);
        ck!(s.done.is_none() && matches!(s.note(), Some(Notification::ConnAck(_))));
        cover!();
        return;
    }
    let mut s = Sim::up(0);
    block();
    match kind {
        1 => {
            let c = any_cmd(s.c());
            s.run();
            ck!(s.done.is_none());
            room(&mut s);
            let r = s.sent();
            matches_cmd(r, &c);
        }
        2 => {
            let id = id16();
            s.data(&publish(1, 0, b"t", id, b"x"));
            ck!(s.done.is_none());
            room(&mut s);
            match s.sent() {
                Some(Req::PubAck(a)) => ck!(a.pktid == id),
                _ => ck!(false),
            }
            ck!(matches!(s.note(), Some(Notification::Message(_))));
        }
        3 => {
            s.pass(8000);
            ck!(s.done.is_none());
            room(&mut s);
            ck!(matches!(s.sent(), Some(Req::PingReq)));
        }
        4 => {
            ck!(s.c().disconnect().is_ok());
            s.run();
            room(&mut s);
            ck!(matches!(s.sent(), Some(Req::Disconnect(_))));
            ck!(s.done == Some(Ok(())) && s.closed());
        }
        5 => {
            // three in a row
            let a = any_cmd(s.c());
            ck!(s.c().publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).is_ok());
            ck!(s.c().subscribe("t", QoS::AtLeastOnce).is_ok());
            s.run();
            ck!(s.done.is_none());
            room(&mut s);
            let r = s.sent();
            matches_cmd(r, &a);
            ck!(matches!(s.sent(), Some(Req::Publish(_))));
            ck!(matches!(s.sent(), Some(Req::Subscribe { .. })));
        }
        _ => {
            // a large one: taken up to somewhere near its end
            let len = pick(&[300usize, 1000, 8191, 8192, 9000, 20000]);
            world::get().wr.clear();
            world::get().wr.push_back(Wr::Part(len - 20 + n));
            world::get().wr.push_back(Wr::Block);
            let t = crate::codec::pattern(len);
            ck!(s.c().publish(PublishBuilder::from_bytes("t", &t)).is_ok());
            s.run();
            ck!(s.done.is_none());
            room(&mut s);
            match s.sent() {
                Some(Req::Publish(p)) => ck!(eq(p.payload, &t)),
                _ => ck!(false),
            }
        }
    }
    ck!(s.quiet());
    cover!();
}

// ---- a consumer that takes nothing, all kinds of traffic ----------------------------------------------------------

/// About as many notifications of mixed kinds as are kept for the consumer, commands meanwhile: nothing is lost.
pub fn h_full_mix() {
    step_limit(400_000_000);
    let mut s = Sim::up(0);
    let k = pick(&[60u32, 97, 98, 99, 100, 101, 102, 103, 104, 140]);
    let first = choice(4);
    let mut kinds = vec![];
    let mut b = vec![];
    let mut acks = 0u32;
    let mut i = 0;
    while i < k {
        // all orders of kinds where it matters
        let kind = if i < 97 || i > 103 { (first + i) % 4 } else { (first + i + (i / 4)) % 4 };
        let id = i as u16 + 1;
        b.extend_from_slice(&match kind {
            0 => publish(0, 0, b"t", 0, b"x"),
            1 => publish(1, 0, b"t", id, b"x"),
            2 => suback(0xff00 + id, 0),
            _ => unsuback(0xff00 + id, 0),
        });
        acks += (kind == 1) as u32;
        kinds.push((kind, id));
        i += 1;
    }
    let at_once = choice(2) == 1;
    if at_once {
        s.data(&b);
    } else {
        // in pieces that are no packets
        let mut i = 0;
        while i < b.len() {
            let j = if i + 37 < b.len() { i + 37 } else { b.len() };
            s.data(&b[i..j]);
            i = j;
        }
    }
    ck!(s.done.is_none());
    // meanwhile
    let c = choice(4);
    let mut want = vec![];
    let mut i = 0;
    while i < c {
        want.push(any_one(s.c(), i));
        i += 1;
    }
    s.run();
    if choice(2) == 1 {
        // it still pings
        s.pass(8000);
        ck!(s.done.is_none());
    }
    // and now all is taken, one by one or as much as there is
    let slow = choice(2) == 1;
    let mut got = 0;
    let mut idle = 0;
    while got < kinds.len() && idle < 3 {
        match s.note() {
            Some(n) => {
                ck!(is(&n, [N::Msg, N::Msg, N::Sub, N::Unsub][kinds[got].0 as usize]));
                got += 1;
                idle = 0;
                if slow {
                    s.run();
                }
            }
            None => {
                idle += 1;
                s.run();
            }
        }
    }
    s.run();
    ck!(got == kinds.len() && s.note().is_none() && s.done.is_none());
    let mut a = 0;
    let mut w = 0;
    let mut pings = 0;
    while !s.quiet() {
        match s.sent() {
            Some(Req::PubAck(p)) => {
                while kinds[a].0 != 1 {
                    a += 1;
                }
                ck!(p.pktid == kinds[a].1);
                a += 1;
                acks -= 1;
            }
            Some(Req::PingReq) => pings += 1,
            r => {
                ck!(w < want.len());
                matches_cmd(r, &want[w]);
                w += 1;
            }
        }
    }
    ck!(acks == 0 && w == want.len() && pings <= 1);
    cover!();
}
fn any_one(c: &mut Client, i: u32) -> Cmd {
    match i {
        0 => {
            ck!(c.publish(PublishBuilder::from_bytes("a", b"1").qos(QoS::AtLeastOnce)).is_ok());
            Cmd::Pub { topic: b"a".to_vec(), payload: b"1".to_vec(), text: false, q: QoS::AtLeastOnce }
        }
        1 => {
            ck!(c.subscribe("b", QoS::AtMostOnce).is_ok());
            Cmd::Sub(b"b".to_vec(), QoS::AtMostOnce)
        }
        _ => {
            ck!(c.unsubscribe("c").is_ok());
            Cmd::Unsub(b"c".to_vec())
        }
    }
}
/// nobody listens to notifications when CONNACK comes: it makes no difference to how it goes on
pub fn h_hs_no_listener() {
    let mut s = Sim::new(order());
    if choice(2) == 1 {
        s.notif = None;
    }
    s.run();
    s.notif = None;
    let c = any_cmd(s.c());
    s.run();
    ck!(matches!(s.sent(), Some(Req::Connect { .. })) && s.quiet());
    match choice(4) {
        0 => {
            s.data(&[0x20, 3, 0, 0, 0]);
            ck!(s.done.is_none());
            let r = s.sent();
            matches_cmd(r, &c);
            let id = id16();
            s.data(&publish(1, 0, b"t", id, b"x"));
            ck!(matches!(s.sent(), Some(Req::PubAck(a)) if a.pktid == id));
            ck!(s.done.is_none() && s.quiet());
            cover!();
            return;
        }
        1 => {
            let r = refm::CONNACK[choice(refm::CONNACK.len() as u32 - 1) as usize + 1];
            s.data(&[0x20, 3, 0, r, 0]);
            cover!();
        }
        2 => s.data(&publish(1, 0, b"t", 1, b"x")),
        _ => s.recv(Seg::Eof),
    }
    ck!(matches!(s.done, Some(Err(_))));
    ck!(s.quiet() && s.closed());
    cover!();
}

// ---- acknowledgements of any kind --------------------------------------------------------------------------------

/// With a single id for all requests: every answer to one, whatever it says, makes the next possible.
pub fn h_ids_reasons() {
    step_limit(60_000_000);
    let mut s = Sim::new(0);
    ruq::verif::limit_pktids(1);
    s.run();
    ck!(matches!(s.sent(), Some(Req::Connect { .. })));
    s.data(&[0x20, 3, 0, 0, 0]);
    ck!(s.note().is_some());
    let listener = choice(2) == 0;
    if !listener {
        s.notif = None;
        s.run();
    }
    let mut i = 0;
    while i < 3 {
        let kind = if i < 2 { choice(3) } else { 0 };
        let r = match kind {
            0 => s.c().publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)),
            1 => s.c().subscribe("t", QoS::AtLeastOnce),
            _ => s.c().unsubscribe("t"),
        };
        ck!(r.is_ok());
        s.run();
        ck!(s.done.is_none());
        let id = match (kind, s.sent()) {
            (0, Some(Req::Publish(p))) => p.pktid.unwrap(),
            (1, Some(Req::Subscribe { pktid, .. })) => pktid,
            (2, Some(Req::Unsubscribe { pktid, .. })) => pktid,
            _ => {
                ck!(false);
                return;
            }
        };
        ck!(id == 1 && s.quiet());
        if i == 2 {
            break;
        }
        let codes: &[u8] = match kind {
            0 => &refm::PUBACK,
            1 => &refm::SUBACK,
            _ => &refm::UNSUBACK,
        };
        let code = codes[if i == 0 { choice(codes.len() as u32) as usize } else { 0 }];
        let props: &[u8] = [&[0u8][..], &[4, 0x1f, 0, 1, b'r'], &[7, 0x26, 0, 1, b'k', 0, 1, b'v']][choice(3) as usize];
        let mut b = vec![0, 1];
        if kind == 0 {
            b.push(code);
            b.extend_from_slice(props);
        } else {
            b.extend_from_slice(props);
            b.push(code);
        }
        s.data(&frame([0x40, 0x90, 0xb0][kind as usize], &b));
        ck!(s.done.is_none() && s.quiet());
        if listener && kind > 0 {
            ck!(s.note().is_some());
        }
        if listener {
            ck!(s.note().is_none());
        }
        i += 1;
    }
    cover!();
}
/// The connection fails with any error, in any state, when reading, writing or flushing: an error, and the end.
pub fn h_end_errors() {
    let mut s = Sim::up(0);
    let kind = pick(&KINDS);
    match choice(7) {
        0 => {}
        1 => {
            // requests in flight
            ck!(s.c().publish(PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce)).is_ok());
            ck!(s.c().subscribe("t", QoS::AtLeastOnce).is_ok());
            s.run();
        }
        2 => s.pass(8000),
        3 => s.data(&publish(1, 0, b"t", 3, b"x")[..4]),
        4 => s.data(&publish(1, 0, b"t", 3, b"x")),
        5 => s.notif = None,
        _ => {
            // messages nobody has taken, more than are kept
            step_limit(60_000_000);
            let mut b = vec![];
            let mut i = 0;
            while i < 104 {
                b.extend_from_slice(&publish(0, 0, b"t", 0, b"x"));
                i += 1;
            }
            s.data(&b);
            ck!(s.done.is_none());
            while s.note().is_some() {
                s.run();
            }
        }
    }
    s.run();
    ck!(s.done.is_none());
    while !s.quiet() {
        ck!(s.sent().is_some());
    }
    match choice(5) {
        0 => s.recv(Seg::Err(kind)),
        1 => {
            world::get().wr.push_back(Wr::Err(kind));
            ck!(s.c().unsubscribe("t").is_ok());
            s.run();
        }
        2 => {
            world::get().flush_err = Some(kind);
            ck!(s.c().publish(PublishBuilder::from_bytes("t", b"x")).is_ok());
            s.run();
        }
        3 => {
            // once it takes bytes again
            world::get().wr.push_back(Wr::Part(2));
            world::get().wr.push_back(Wr::Block);
            ck!(s.c().publish(PublishBuilder::from_bytes("t", b"x")).is_ok());
            s.run();
            ck!(s.done.is_none());
            world::get().wr.clear();
            world::get().wr.push_back(Wr::Err(kind));
            world::writable();
            s.run();
        }
        _ => {
            // DISCONNECT cannot be sent
            world::get().wr.push_back(Wr::Err(kind));
            ck!(s.c().disconnect().is_ok());
            s.run();
        }
    }
    ck!(matches!(s.done, Some(Err(_))));
    ck!(s.closed());
    if s.client.is_some() {
        ck!(s.c().subscribe("t", QoS::AtMostOnce).is_err());
    }
    cover!();
}

// ---- many commands at once -----------------------------------------------------------------------------------------

/// Commands that wait together, all of one kind but one, wherever it is: sent in order.
pub fn h_out_batch() {
    step_limit(200_000_000);
    let early = choice(2) == 1;
    let mut s = if early { Sim::new(0) } else { Sim::up(0) };
    let n = pick(&[2u32, 3, 4, 5, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 34, 50, 63, 64, 65, 66, 99, 100]);
    let base = choice(5);
    let odd = choice(5);
    assume(base != odd);
    let at = pick(&[0u32, 1, n / 2, n - 2, n - 1]);
    let name = |i: u32| [b'a' + (i / 26) as u8, b'a' + (i % 26) as u8];
    let mut want = vec![];
    let mut i = 0;
    while i < n {
        let k = if i == at { odd } else { base };
        let t = name(i);
        let t = std::str::from_utf8(&t).unwrap();
        let c = s.c();
        let r = match k {
            0 => c.publish(PublishBuilder::from_bytes(t, b"x")),
            1 => c.publish(PublishBuilder::from_bytes(t, b"x").qos(QoS::AtLeastOnce)),
            2 => c.subscribe(t, QoS::AtMostOnce),
            3 => c.unsubscribe(t),
            _ => c.publish(PublishBuilder::from_str(t, "y").qos(QoS::ExactlyOnce)),
        };
        if r.is_ok() {
            want.push((k, i));
        }
        i += 1;
    }
    s.run();
    if early {
        ck!(matches!(s.sent(), Some(Req::Connect { .. })));
        s.data(&[0x20, 3, 0, 0, 0]);
    }
    ck!(s.done.is_none());
    let mut i = 0;
    while i < want.len() {
        let (k, j) = want[i];
        let t = name(j);
        ck!(match s.sent() {
            Some(Req::Publish(p)) => eq(p.topic, &t) && p.qos == [0u8, 1, 9, 9, 2][k as usize],
            Some(Req::Subscribe { topics, .. }) => k == 2 && eq(topics[0].0, &t),
            Some(Req::Unsubscribe { topics, .. }) => k == 3 && eq(topics[0], &t),
            _ => false,
        });
        i += 1;
    }
    ck!(s.quiet());
    cover!();
}
/// Packets that arrive together, all of one kind but one, wherever it is: notified and acknowledged in order.
pub fn h_in_batch() {
    step_limit(200_000_000);
    let mut s = Sim::up(0);
    let n = pick(&[2u16, 3, 4, 5, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 34, 50, 63, 64, 65, 66, 90, 96]);
    let base = choice(6);
    let odd = choice(7);
    assume(base != odd);
    let at = pick(&[0u16, 1, n / 2, n - 2, n - 1]);
    let split = choice(3);
    let mut b = vec![];
    let mut notes = vec![];
    let mut acks = vec![];
    let mut i = 0;
    while i < n {
        let id = 1000 + i;
        let k = if i == at { odd } else { base };
        b.extend_from_slice(&match k {
            0 => publish(0, 0, b"t", 0, b"x"),
            1 => publish(1, 0, b"t", id, b"x"),
            2 => suback(id, 0),
            3 => unsuback(id, 0),
            4 => puback(id),
            5 => vec![0xd0, 0],
            // larger than what is read at once
            _ => publish(1, 8, b"t", id, &crate::codec::pattern(9000)),
        });
        match k {
            0 => notes.push(N::Msg),
            1 | 6 => {
                notes.push(N::Msg);
                acks.push(id);
            }
            2 => notes.push(N::Sub),
            3 => notes.push(N::Unsub),
            _ => {}
        }
        i += 1;
    }
    if split == 0 {
        s.data(&b);
    } else {
        // not at the boundary of a packet
        let c = if split == 1 { b.len() / 2 } else { b.len() - 1 };
        s.data(&b[..c]);
        s.data(&b[c..]);
    }
    ck!(s.done.is_none());
    let mut i = 0;
    while i < notes.len() {
        match s.note() {
            Some(x) => ck!(is(&x, notes[i])),
            None => ck!(false),
        }
        i += 1;
    }
    let mut i = 0;
    while i < acks.len() {
        ck!(matches!(s.sent(), Some(Req::PubAck(a)) if a.pktid == acks[i]));
        i += 1;
    }
    ck!(s.note().is_none() && s.quiet() && s.done.is_none());
    cover!();
}
