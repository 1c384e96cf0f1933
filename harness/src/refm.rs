//! Reference reading of MQTT 5 (OASIS 2019), written from the specification, independent of ruq's code.
//! Three outcomes: well formed, malformed, or outside of what the properties claim.
use crate::sym::eq;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum E {
    /// violates the specification; must be refused
    Bad,
    /// legal or tolerated by some readers, but no claim is made
    Unclaimed,
    /// the packet is not complete yet
    More,
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, i: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.i
    }
    pub fn u8(&mut self) -> Result<u8, E> {
        if self.left() < 1 {
            return Err(E::Bad);
        }
        self.i += 1;
        Ok(self.b[self.i - 1])
    }
    pub fn u16(&mut self) -> Result<u16, E> {
        if self.left() < 2 {
            return Err(E::Bad);
        }
        let v = (self.b[self.i] as u16) * 256 + self.b[self.i + 1] as u16;
        self.i += 2;
        Ok(v)
    }
    pub fn u32(&mut self) -> Result<u32, E> {
        let h = self.u16()? as u32;
        let l = self.u16()? as u32;
        Ok(h * 65536 + l)
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], E> {
        if self.left() < n {
            return Err(E::Bad);
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    /// binary data with a two byte length
    pub fn bin(&mut self) -> Result<&'a [u8], E> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    pub fn str(&mut self) -> Result<&'a [u8], E> {
        let s = self.bin()?;
        if std::str::from_utf8(s).is_err() {
            return Err(E::Bad);
        }
        Ok(s)
    }
    /// variable byte integer (1.5.5)
    pub fn vbi(&mut self) -> Result<u32, E> {
        let mut v = 0u32;
        let mut k = 0;
        loop {
            if k == 4 {
                return Err(E::Bad);
            }
            if self.left() == 0 {
                return Err(E::More);
            }
            let b = self.b[self.i];
            self.i += 1;
            v |= ((b & 0x7f) as u32) << (7 * k);
            k += 1;
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
    }
}

pub enum Prop<'a> {
    Format(u8),
    Expiry(u32),
    ResponseTopic(&'a [u8]),
    Correlation(&'a [u8]),
    User(&'a [u8], &'a [u8]),
    Reason(&'a [u8]),
}

pub fn same_prop(a: &Prop, b: &Prop) -> bool {
    match (a, b) {
        (Prop::Format(x), Prop::Format(y)) => x == y,
        (Prop::Expiry(x), Prop::Expiry(y)) => x == y,
        (Prop::ResponseTopic(x), Prop::ResponseTopic(y)) => eq(x, y),
        (Prop::Correlation(x), Prop::Correlation(y)) => eq(x, y),
        (Prop::User(a, b), Prop::User(c, d)) => eq(a, c) && eq(b, d),
        (Prop::Reason(x), Prop::Reason(y)) => eq(x, y),
        _ => false,
    }
}
pub fn same_props(a: &[Prop], b: &[Prop]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if !same_prop(&a[i], &b[i]) {
            return false;
        }
        i += 1;
    }
    true
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Who {
    /// properties of PUBLISH
    Publish,
    /// properties of CONNACK, PUBACK, SUBACK, UNSUBACK and of DISCONNECT
    Ack,
}

/// one property; identifiers ruq does not know are outside the claim
pub fn prop<'a>(c: &mut Cur<'a>, who: Who) -> Result<Prop<'a>, E> {
    let id = c.u8()?;
    match who {
        Who::Publish => match id {
            0x01 => Ok(Prop::Format(c.u8()?)),
            0x02 => Ok(Prop::Expiry(c.u32()?)),
            0x08 => Ok(Prop::ResponseTopic(c.str()?)),
            0x09 => Ok(Prop::Correlation(c.bin()?)),
            0x26 => {
                let k = c.str()?;
                let v = c.str()?;
                Ok(Prop::User(k, v))
            }
            _ => Err(E::Unclaimed),
        },
        Who::Ack => match id {
            0x1f => Ok(Prop::Reason(c.str()?)),
            0x26 => {
                let k = c.str()?;
                let v = c.str()?;
                Ok(Prop::User(k, v))
            }
            _ => Err(E::Unclaimed),
        },
    }
}

/// property list with its length
pub fn props<'a>(c: &mut Cur<'a>, who: Who) -> Result<Vec<Prop<'a>>, E> {
    let n = match c.vbi() {
        Ok(n) => n as usize,
        Err(_) => return Err(E::Bad),
    };
    let mut sub = Cur::new(c.take(n)?);
    let mut v = Vec::new();
    while sub.left() > 0 {
        v.push(prop(&mut sub, who)?);
    }
    Ok(v)
}

/// fixed header: type, flags, remaining bytes, total length
pub fn fixed<'a>(b: &'a [u8]) -> Result<(u8, u8, &'a [u8], usize), E> {
    if b.len() < 2 {
        return Err(E::More);
    }
    let mut c = Cur::new(b);
    let h = c.u8()?;
    let n = c.vbi()? as usize;
    if c.left() < n {
        return Err(E::More);
    }
    let body = c.take(n)?;
    Ok((h >> 4, h & 15, body, c.i))
}

pub struct Publish<'a> {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: &'a [u8],
    pub pktid: Option<u16>,
    pub props: Vec<Prop<'a>>,
    pub payload: &'a [u8],
    /// the payload is declared to be text
    pub text: bool,
}

pub fn publish<'a>(flags: u8, body: &'a [u8]) -> Result<Publish<'a>, E> {
    let qos = (flags >> 1) & 3;
    if qos == 3 {
        return Err(E::Bad);
    }
    let mut c = Cur::new(body);
    let topic = c.str()?;
    let pktid = if qos > 0 {
        let id = c.u16()?;
        if id == 0 {
            return Err(E::Bad);
        }
        Some(id)
    } else {
        None
    };
    let props = props(&mut c, Who::Publish)?;
    let payload = c.take(c.left())?;
    let mut text = false;
    for p in props.iter() {
        if let Prop::Format(f) = p {
            if *f == 1 {
                text = true;
            }
        }
    }
    if text && std::str::from_utf8(payload).is_err() {
        return Err(E::Bad);
    }
    Ok(Publish { dup: flags & 8 != 0, qos, retain: flags & 1 != 0, topic, pktid, props, payload, text })
}

/// what an acknowledgement or a DISCONNECT says
pub struct Ack<'a> {
    pub pktid: u16,
    pub session: bool,
    pub reason: u8,
    pub props: Vec<Prop<'a>>,
}

fn one_of(b: u8, xs: &[u8]) -> bool {
    let mut r = false;
    let mut i = 0;
    while i < xs.len() {
        r |= xs[i] == b;
        i += 1;
    }
    r
}
/// reason codes of table 2-6, per packet
pub const CONNACK: [u8; 22] = [
    0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155, 156, 157, 159,
];
pub const PUBACK: [u8; 9] = [0, 16, 128, 131, 135, 144, 145, 151, 153];
pub const SUBACK: [u8; 12] = [0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162];
pub const UNSUBACK: [u8; 7] = [0, 17, 128, 131, 135, 143, 145];
pub const DISCONNECT: [u8; 29] = [
    0, 4, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156,
    157, 158, 159, 160, 161, 162,
];

pub fn connack<'a>(body: &'a [u8]) -> Result<Ack<'a>, E> {
    let mut c = Cur::new(body);
    let f = c.u8()?;
    if f > 1 {
        return Err(E::Bad);
    }
    let reason = c.u8()?;
    if !one_of(reason, &CONNACK) {
        return Err(E::Bad);
    }
    let props = props(&mut c, Who::Ack)?;
    if c.left() > 0 {
        return Err(E::Unclaimed);
    }
    Ok(Ack { pktid: 0, session: f == 1, reason, props })
}

/// SUBACK and UNSUBACK with one reason code (ruq subscribes to one topic filter per packet)
pub fn suback<'a>(body: &'a [u8], codes: &[u8]) -> Result<Ack<'a>, E> {
    let mut c = Cur::new(body);
    let pktid = c.u16()?;
    if pktid == 0 {
        return Err(E::Bad);
    }
    let props = props(&mut c, Who::Ack)?;
    let reason = c.u8()?;
    if !one_of(reason, codes) {
        return Err(E::Bad);
    }
    if c.left() > 0 {
        return Err(E::Unclaimed);
    }
    Ok(Ack { pktid, session: false, reason, props })
}

/// one reason code for each topic filter of the UNSUBSCRIBE
pub fn unsuback<'a>(body: &'a [u8]) -> Result<Ack<'a>, E> {
    let mut c = Cur::new(body);
    let pktid = c.u16()?;
    if pktid == 0 {
        return Err(E::Bad);
    }
    let props = props(&mut c, Who::Ack)?;
    let reason = c.u8()?;
    if !one_of(reason, &UNSUBACK) {
        return Err(E::Bad);
    }
    while c.left() > 0 {
        if !one_of(c.u8()?, &UNSUBACK) {
            return Err(E::Bad);
        }
    }
    Ok(Ack { pktid, session: false, reason, props })
}

pub fn puback<'a>(body: &'a [u8]) -> Result<Ack<'a>, E> {
    let mut c = Cur::new(body);
    let pktid = c.u16()?;
    if pktid == 0 {
        return Err(E::Bad);
    }
    let mut reason = 0;
    let mut ps = Vec::new();
    if c.left() > 0 {
        reason = c.u8()?;
        if !one_of(reason, &PUBACK) {
            return Err(E::Bad);
        }
    }
    if c.left() > 0 {
        ps = props(&mut c, Who::Ack)?;
    }
    if c.left() > 0 {
        return Err(E::Unclaimed);
    }
    Ok(Ack { pktid, session: false, reason, props: ps })
}

pub fn disconnect<'a>(body: &'a [u8]) -> Result<Ack<'a>, E> {
    let mut c = Cur::new(body);
    let mut reason = 0;
    let mut ps = Vec::new();
    if c.left() > 0 {
        reason = c.u8()?;
        if !one_of(reason, &DISCONNECT) {
            return Err(E::Bad);
        }
    }
    if c.left() > 0 {
        // a property list that cannot hold its own length is malformed, a reader may overlook that
        if c.left() < 3 && c.b[c.i] != 0 {
            return Err(E::Unclaimed);
        }
        ps = props(&mut c, Who::Ack)?;
    }
    if c.left() > 0 {
        return Err(E::Unclaimed);
    }
    Ok(Ack { pktid: 0, session: false, reason, props: ps })
}

/// packets a client sends
pub enum Req<'a> {
    Connect { version: u8, flags: u8, keep_alive: u16, props: usize, client_id: &'a [u8] },
    Publish(Publish<'a>),
    PubAck(Ack<'a>),
    Subscribe { pktid: u16, topics: Vec<(&'a [u8], u8)> },
    Unsubscribe { pktid: u16, topics: Vec<&'a [u8]> },
    PingReq,
    Disconnect(Ack<'a>),
}

/// a strict server's reading of the first packet in `b`
pub fn request<'a>(b: &'a [u8]) -> Result<(Req<'a>, usize), E> {
    let (ty, flags, body, n) = fixed(b)?;
    let mut c = Cur::new(body);
    let r = match (ty, flags) {
        (1, 0) => {
            if !eq(c.bin()?, b"MQTT") {
                return Err(E::Bad);
            }
            let version = c.u8()?;
            let flags = c.u8()?;
            let keep_alive = c.u16()?;
            let props = c.vbi()? as usize;
            c.take(props)?;
            let client_id = c.str()?;
            Req::Connect { version, flags, keep_alive, props, client_id }
        }
        (3, f) => {
            if f & 6 == 0 && f & 8 != 0 {
                return Err(E::Bad);
            }
            return Ok((Req::Publish(publish(f, body)?), n));
        }
        (4, 0) => return Ok((Req::PubAck(puback(body)?), n)),
        (8, 2) => {
            let pktid = c.u16()?;
            if pktid == 0 || c.vbi()? != 0 {
                return Err(E::Bad);
            }
            let mut topics = Vec::new();
            while c.left() > 0 {
                let t = c.str()?;
                let o = c.u8()?;
                if o & 3 == 3 || o & 0x30 == 0x30 || o & 0xc0 != 0 {
                    return Err(E::Bad);
                }
                topics.push((t, o));
            }
            if topics.is_empty() {
                return Err(E::Bad);
            }
            Req::Subscribe { pktid, topics }
        }
        (10, 2) => {
            let pktid = c.u16()?;
            if pktid == 0 || c.vbi()? != 0 {
                return Err(E::Bad);
            }
            let mut topics = Vec::new();
            while c.left() > 0 {
                topics.push(c.str()?);
            }
            if topics.is_empty() {
                return Err(E::Bad);
            }
            Req::Unsubscribe { pktid, topics }
        }
        (12, 0) => Req::PingReq,
        (14, 0) => return Ok((Req::Disconnect(disconnect(body)?), n)),
        _ => return Err(E::Bad),
    };
    if c.left() > 0 {
        return Err(E::Bad);
    }
    Ok((r, n))
}
