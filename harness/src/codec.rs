//! Decoding: bytes of the server, through the codec.
use crate::refm::{self, Cur, Prop, Who, E};
use crate::sym::*;
use crate::{ck, cover};
use bytes::BytesMut;
use ruq::verif::{self, ConvertError, FromMqttBytes, MqttCodec, Packet, Property, QoS, ToMqttBytes, VBI};
use tokio_util::codec::{Decoder, Encoder};

pub type Dec = Result<Option<Packet>, ()>;

/// one call of the codec; what it returns and what it leaves in the buffer
pub fn dec(b: &[u8]) -> (Dec, BytesMut) {
    let mut m = BytesMut::with_capacity(b.len());
    m.extend_from_slice(b);
    let mut c = MqttCodec::new();
    let r = c.decode(&mut m).map_err(|_| ());
    (r, m)
}
/// encoded form of a decoded packet
pub fn enc(p: Packet) -> Vec<u8> {
    let mut c = MqttCodec::new();
    let mut m = BytesMut::new();
    let r = c.encode(p, &mut m);
    ck!(r.is_ok());
    m.to_vec()
}
/// fixed header with the shortest length, then the body
pub fn frame(h: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![h];
    put_vbi(&mut v, body.len());
    v.extend_from_slice(body);
    v
}
fn put_vbi(v: &mut Vec<u8>, mut n: usize) {
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n > 0 {
            v.push(b | 0x80);
        } else {
            v.push(b);
            break;
        }
    }
}
/// n bytes that differ from their neighbours, ASCII
pub fn pattern(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(b'!' + ((i + i / 89 + i / 7921) % 89) as u8);
        i += 1;
    }
    v
}
fn kind(p: &Packet) -> u8 {
    match p {
        Packet::Connect(_) => 1,
        Packet::Connack(_) => 2,
        Packet::Publish(_) => 3,
        Packet::PubAck(_) => 4,
        Packet::Subscribe(_) => 8,
        Packet::SubAck(_) => 9,
        Packet::Unsubscribe(_) => 10,
        Packet::UnsubAck(_) => 11,
        Packet::PingReq(_) => 12,
        Packet::PingResp(_) => 13,
        Packet::Disconnect(_) => 14,
    }
}
fn qos(q: QoS) -> u8 {
    match q {
        QoS::AtMostOnce => 0,
        QoS::AtLeastOnce => 1,
        QoS::ExactlyOnce => 2,
    }
}

/// One path per value of a length field that fits (a larger one stays symbolic): the same set of inputs, but the
/// positions that follow are concrete. Returns the position behind the field's content.
fn split_len(b: &[u8], at: usize, width: usize) -> Option<usize> {
    if b.len() < at + width {
        return None;
    }
    let v = if width == 1 { b[at] as usize } else { b[at] as usize * 256 + b[at + 1] as usize };
    if v > b.len() {
        return None;
    }
    let v = concretize(v as u64) as usize;
    Some(at + width + v)
}

// ---- decoding never panics -------------------------------------------------------------------------------------

/// arbitrary bytes of any length up to n
fn total_any(n: u32) {
    let n = range(0, n) as usize;
    let b = bytes(n);
    split_len(&b, 1, 1);
    let (r, m) = dec(&b);
    match r {
        Ok(None) => observe(1),
        Ok(Some(p)) => {
            cover!();
            observe(100 + kind(&p) as u64)
        }
        Err(()) => observe(2),
    }
    ck!(m.len() <= n);
    if n == 2 {
        cover!();
    }
}
pub fn h_total_any_6() {
    total_any(6)
}
pub fn h_total_any_7() {
    total_any(7)
}
pub fn h_total_any_8() {
    total_any(8)
}

/// a complete packet of the given type: arbitrary flags and body
fn total_framed(ty: u8, n: u32) {
    let n = range(0, n) as usize;
    let fl = u8s();
    assume(fl < 16);
    let body = bytes(n);
    if ty == 3 {
        if let Some(i) = split_len(&body, 0, 2) {
            let i = if fl & 6 != 0 { i + 2 } else { i };
            split_len(&body, i, 1);
        }
    } else {
        split_len(&body, 2, 1);
    }
    let b = frame((ty << 4) | fl, &body);
    let (r, _) = dec(&b);
    ck!(!matches!(r, Ok(None)));
    observe(r.is_ok() as u64);
    cover!();
}
pub fn h_total_connack() {
    total_framed(2, 9)
}
pub fn h_total_publish() {
    total_framed(3, 9)
}
pub fn h_total_puback() {
    total_framed(4, 9)
}
pub fn h_total_suback() {
    total_framed(9, 9)
}
pub fn h_total_unsuback() {
    total_framed(11, 9)
}
pub fn h_total_disconnect() {
    total_framed(14, 9)
}
pub fn h_total_other() {
    let ty = pick(&[0u8, 1, 5, 6, 7, 8, 10, 12, 13, 15]);
    total_framed(ty, 4)
}

/// a text with its length in front
fn put_text(v: &mut Vec<u8>, t: &[u8]) {
    v.extend_from_slice(&(t.len() as u16).to_be_bytes());
    v.extend_from_slice(t);
}
/// Packets with long content of each kind and of many sizes, some with lengths that are a little off, or with
/// arbitrary bytes at the boundaries of their parts.
pub fn long_packet(sizes: &[usize]) -> Vec<u8> {
    let ty = pick(&[2u8, 3, 4, 9, 11, 14]);
    let n = pick(sizes);
    let mut p: Vec<u8> = vec![];
    let what = choice(5);
    let mut last = 0; // the end of the first text
    match what {
        0 => {
            p.push(if ty == 3 { 0x08 } else { 0x1f });
            put_text(&mut p, &pattern(n.min(65535)));
            last = p.len() - 1;
        }
        1 => {
            p.push(0x26);
            put_text(&mut p, &pattern(n.min(65535)));
            last = p.len() - 1;
            put_text(&mut p, b"xyz");
        }
        2 => {
            p.push(0x26);
            put_text(&mut p, b"k");
            put_text(&mut p, &pattern(n.min(65535)));
            last = p.len() - 1;
        }
        3 => {
            while p.len() < n {
                p.push(0x26);
                put_text(&mut p, b"k");
                last = p.len() - 1;
                put_text(&mut p, b"vvv");
            }
        }
        _ => {}
    }
    let off = pick(&[0i32, 0, -1, 1, 256]);
    let edit = if off == 0 { choice(3) } else { 0 };
    if edit == 1 && last > 0 {
        p[last] = u8s();
    }
    let mut body = vec![];
    let fl = if ty == 3 { pick(&[0u8, 2]) } else { 0 };
    match ty {
        2 => body.extend_from_slice(&[0, 0]),
        3 => {
            if what == 4 {
                put_text(&mut body, &pattern(n.min(65535)));
                if edit == 1 {
                    let i = body.len() - 1;
                    body[i] = u8s();
                }
            } else {
                put_text(&mut body, b"t");
            }
            if fl == 2 {
                body.extend_from_slice(&[0, 1]);
            }
        }
        4 => body.extend_from_slice(&[1, 2, 0]),
        9 | 11 => body.extend_from_slice(&[1, 2]),
        _ => body.push(0),
    }
    let l = p.len() as i32 + off;
    if l < 0 {
        assume(false);
    }
    body.extend_from_slice(&frame(0, &vec![0; l as usize])[1..]);
    let k = body.len();
    body.truncate(k - l as usize);
    body.extend_from_slice(&p);
    match ty {
        3 => body.extend_from_slice(b"payload"),
        9 | 11 if what == 4 => body.resize(body.len() + n, 0),
        9 | 11 => body.push(0),
        _ => {}
    }
    if edit == 2 {
        let i = body.len() - 1;
        body[i] = u8s();
    }
    frame(ty << 4 | fl, &body)
}
pub const LONG: [usize; 15] = [0, 1, 125, 127, 128, 129, 200, 253, 255, 256, 257, 300, 1000, 16383, 16384];
pub const VERY_LONG: [usize; 3] = [32767, 32768, 65535];
fn total_long(sizes: &[usize]) {
    step_limit(1_500_000_000);
    let b = long_packet(sizes);
    let (r, m) = dec(&b);
    ck!(!matches!(r, Ok(None)));
    ck!(r.is_err() || m.is_empty());
    observe(r.is_ok() as u64);
    cover!();
}
pub fn h_total_long() {
    total_long(&LONG)
}
pub fn h_total_very_long() {
    total_long(&VERY_LONG)
}

// ---- framing ---------------------------------------------------------------------------------------------------

/// Arbitrary buffer: the codec waits, refuses, or consumes exactly one packet.
fn framing_any(n: u32) {
    let n = range(0, n) as usize;
    let b = bytes(n);
    split_len(&b, 1, 1);
    let f = refm::fixed(&b);
    let (r, m) = dec(&b);
    if n >= 2 && b[0] >> 4 == 0 {
        // type 0 is forbidden
        ck!(r.is_err());
        cover!();
        return;
    }
    match f {
        Err(E::More) => {
            ck!(matches!(r, Ok(None)));
            ck!(eq(&m, &b));
            cover!();
        }
        Err(_) => {
            // a fifth length byte: refused at the latest when it is there
            ck!(r.is_err() || (n == 5 && matches!(r, Ok(None))));
            cover!();
        }
        Ok((ty, _, _, total)) => {
            ck!(!matches!(r, Ok(None)));
            if let Ok(Some(p)) = r {
                ck!(kind(&p) == ty);
                ck!(eq(&m, &b[total..]));
                cover!();
            }
        }
    }
}
pub fn h_framing_any_6() {
    framing_any(6)
}
pub fn h_framing_any_7() {
    framing_any(7)
}

/// Header with any length field, few body bytes: never more than the packet is consumed, whatever follows.
pub fn h_framing_header() {
    let n = range(2, 6) as usize;
    let mut b = bytes(n);
    // PINGRESP and PUBLISH, as the lightest and the heaviest body
    b[0] = pick(&[0xd0u8, 0x30]);
    let f = refm::fixed(&b);
    let (r, m) = dec(&b);
    match f {
        Err(E::More) => {
            ck!(matches!(r, Ok(None)));
            ck!(eq(&m, &b));
            cover!();
        }
        Err(_) => {
            ck!(r.is_err() || (n == 5 && matches!(r, Ok(None))));
            cover!();
        }
        Ok((_, _, _, total)) => {
            ck!(!matches!(r, Ok(None)));
            if r.is_ok() {
                ck!(eq(&m, &b[total..]));
                cover!();
            }
        }
    }
}

/// The same packet is decoded whatever follows it, and not before its last byte has arrived.
fn framing_suffix(body: u32, extra: u32) {
    let ty = pick(&[2u8, 3, 4, 9, 11, 13, 14]);
    let n = range(0, body) as usize;
    let b = frame(ty << 4, &bytes(n));
    let total = b.len();
    let (whole, m) = dec(&b);
    ck!(!matches!(whole, Ok(None)));
    if whole.is_ok() {
        ck!(m.len() == 0);
    }
    // every proper prefix: wait, leave the buffer alone
    let cut = choice(total as u32) as usize;
    let (r, m) = dec(&b[..cut]);
    ck!(matches!(r, Ok(None)));
    ck!(eq(&m, &b[..cut]));
    // any suffix: same outcome, suffix untouched
    let e = bytes(extra as usize);
    let mut l = b.clone();
    l.extend_from_slice(&e);
    let (r, m) = dec(&l);
    ck!(r.is_ok() == whole.is_ok());
    if let (Ok(Some(p)), Ok(Some(q))) = (r, whole) {
        ck!(eq(&m, &e));
        ck!(kind(&p) == kind(&q) && kind(&p) == ty);
        match (verif::publish_parts(&p), verif::publish_parts(&q)) {
            (Some((t, pl, _, i)), Some((t2, pl2, _, i2))) => {
                ck!(eq(t.as_bytes(), t2.as_bytes()) && i == i2);
                ck!(match (pl, pl2) {
                    (Ok(x), Ok(y)) => eq(x.as_bytes(), y.as_bytes()),
                    (Err(x), Err(y)) => eq(x, y),
                    _ => false,
                });
                cover!();
            }
            (None, None) => {
                ck!(verif::ack_pktid(&p) == verif::ack_pktid(&q));
                cover!();
            }
            _ => ck!(false),
        }
    }
}
pub fn h_framing_suffix() {
    framing_suffix(5, 2)
}
pub fn h_framing_suffix_deep() {
    framing_suffix(7, 3)
}

/// Lengths around the boundaries of the length field, the first and last bytes of the body arbitrary.
fn framing_sizes(sizes: &[usize]) {
    let n = pick(sizes);
    let mut body = pattern(n);
    body[0] = 0;
    body[1] = 1;
    body[2] = b't';
    body[3] = 0;
    let x = u8s();
    let y = u8s();
    body[4] = x;
    body[n - 1] = y;
    let b = frame(0x30, &body);
    let total = b.len();
    let cut = pick(&[total - 1, total / 2, 5, 3, 2]);
    let (r, m) = dec(&b[..cut]);
    ck!(matches!(r, Ok(None)) && m.len() == cut);
    let mut l = b.clone();
    l.push(0xd0);
    let (r, m) = dec(&l);
    ck!(m.len() == 1);
    match r {
        Ok(Some(p)) => {
            let (t, pl, _, _) = verif::publish_parts(&p).unwrap();
            ck!(t == "t");
            match pl {
                Err(d) => {
                    ck!(d.len() == n - 4 && eq(d, &body[4..]));
                    ck!(d[0] == if n == 5 { y } else { x } && d[n - 5] == y);
                    cover!();
                }
                _ => ck!(false),
            }
        }
        _ => ck!(false),
    }
}
pub fn h_framing_sizes() {
    framing_sizes(&[5, 6, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385])
}
pub fn h_framing_sizes_deep() {
    step_limit(1_500_000_000);
    framing_sizes(&[65535, 65536, 2097151, 2097152])
}

/// Two packets in one buffer come out one after the other.
pub fn h_framing_two() {
    let t1 = pick(&[3u8, 4, 13]);
    let t2 = pick(&[3u8, 11, 13]);
    let n1 = range(0, 4) as usize;
    let n2 = range(0, 5) as usize;
    let a = frame(t1 << 4, &bytes(n1));
    let b = frame(t2 << 4, &bytes(n2));
    let mut m = BytesMut::new();
    m.extend_from_slice(&a);
    m.extend_from_slice(&b);
    let mut c = MqttCodec::new();
    if let Ok(p) = c.decode(&mut m) {
        ck!(p.map(|p| kind(&p)) == Some(t1));
        ck!(eq(&m, &b));
        if let Ok(p) = c.decode(&mut m) {
            ck!(p.map(|p| kind(&p)) == Some(t2));
            ck!(m.is_empty());
            ck!(matches!(c.decode(&mut m), Ok(None)));
            cover!();
        }
    }
}

/// Many packets in one buffer come out in order, none is lost.
pub fn h_framing_many() {
    step_limit(20_000_000);
    let k = pick(&[1u16, 2, 3, 40, 300]);
    let mut m = BytesMut::new();
    let mut i = 0;
    while i < k {
        let id = (i + 1).to_be_bytes();
        m.extend_from_slice(&match i % 4 {
            0 => frame(0x40, &id),
            1 => frame(0x32, &[0, 1, b't', id[0], id[1], 0, id[1]]),
            2 => vec![0xd0, 0],
            _ => frame(0xb0, &[id[0], id[1], 0, 0]),
        });
        i += 1;
    }
    // and the beginning of one more
    let rest = choice(3) as usize;
    m.extend_from_slice(&[0x30, 5, 0][..rest]);
    let mut c = MqttCodec::new();
    let mut i = 0;
    while i < k {
        match c.decode(&mut m) {
            Ok(Some(p)) => {
                let id = match i % 4 {
                    0 | 3 => verif::ack_pktid(&p),
                    1 => verif::publish_parts(&p).unwrap().3,
                    _ => Some(i + 1),
                };
                ck!(id == Some(i + 1) && kind(&p) == [4u8, 3, 13, 11][(i % 4) as usize]);
            }
            _ => ck!(false),
        }
        i += 1;
    }
    ck!(matches!(c.decode(&mut m), Ok(None)));
    ck!(m.len() == rest);
    cover!();
}

/// what a decoder has decoded before makes no difference
pub fn h_framing_history() {
    step_limit(300_000_000);
    let mut c = MqttCodec::new();
    let mut m = BytesMut::new();
    let mut i = 0u16;
    while i < 300 && choice(2) == 1 {
        let id = (i + 1).to_be_bytes();
        let f = match i % 5 {
            0 => frame(0x40, &id),
            1 => frame(0x32, &[0, 1, b't', id[0], id[1], 0, id[1]]),
            2 => vec![0xd0, 0],
            3 => frame(0x30, &pattern_publish(100 + i as usize)),
            _ => frame(0xb0, &[id[0], id[1], 0, 0]),
        };
        // in two pieces
        let at = (i as usize * 7) % f.len();
        m.extend_from_slice(&f[..at]);
        ck!(matches!(c.decode(&mut m), Ok(None)));
        m.extend_from_slice(&f[at..]);
        ck!(matches!(c.decode(&mut m), Ok(Some(_))));
        ck!(m.is_empty());
        i += 1;
    }
    let b = match choice(3) {
        0 => frame(0x30, &[0, 1, u8s(), 0, u8s()]),
        1 => frame(0x40, &bytes(3)),
        _ => frame(0xb0, &[u8s(), 1, 0, u8s()]),
    };
    let at = pick(&[1usize, 4]);
    m.extend_from_slice(&b[..at]);
    ck!(matches!(c.decode(&mut m), Ok(None)));
    m.extend_from_slice(&b[at..]);
    let r = c.decode(&mut m);
    let (w, left) = dec(&b);
    match (r, w) {
        (Ok(Some(p)), Ok(Some(q))) => {
            ck!(kind(&p) == kind(&q) && m.len() == left.len());
            ck!(verif::ack_pktid(&p) == verif::ack_pktid(&q));
            cover!();
        }
        (Err(_), Err(_)) => cover!(),
        _ => ck!(false),
    }
}
/// body of a PUBLISH of n bytes
fn pattern_publish(n: usize) -> Vec<u8> {
    let mut b = vec![0, 1, b't', 0];
    b.extend_from_slice(&pattern(n - 4));
    b
}

// ---- variable byte integers ------------------------------------------------------------------------------------

/// every value: shortest form, and back
pub fn h_varint_roundtrip() {
    let x = u32s();
    assume(x < 268_435_456);
    let v = VBI::from(x).convert_to_mqtt();
    let want = if x < 128 {
        1
    } else if x < 16_384 {
        2
    } else if x < 2_097_152 {
        3
    } else {
        4
    };
    ck!(v.len() == want);
    let mut i = 0;
    while i < v.len() {
        let d = (x >> (7 * i as u32)) as u8 & 0x7f;
        ck!(v[i] == if i + 1 < v.len() { d | 0x80 } else { d });
        i += 1;
    }
    // trailing bytes do not matter
    let mut w = v.clone();
    let extra = choice(3) as usize;
    w.extend_from_slice(&bytes(extra));
    match VBI::convert_from_mqtt(&w) {
        Ok((y, n)) => {
            ck!(u32::from(y) == x && n == v.len());
            cover!();
        }
        Err(_) => ck!(false),
    }
    // every proper prefix is incomplete
    let cut = choice(v.len() as u32) as usize;
    ck!(matches!(VBI::convert_from_mqtt(&v[..cut]), Err(ConvertError::NotEnoughBytes)));
}
/// arbitrary bytes: value and length as specified, nothing longer than four bytes
pub fn h_varint_decode() {
    let n = range(0, 6) as usize;
    let b = bytes(n);
    let mut c = Cur::new(&b);
    let want = c.vbi();
    match (VBI::convert_from_mqtt(&b), want) {
        (Ok((y, n)), Ok(x)) => {
            ck!(u32::from(y) == x && n == c.i);
            cover!();
        }
        (Err(ConvertError::NotEnoughBytes), Err(E::More)) => cover!(),
        // four continuation bytes and nothing more: refused now or with the next byte
        (Err(ConvertError::NotEnoughBytes), Err(E::Bad)) => ck!(n == 4),
        (Err(_), Err(E::Bad)) => cover!(),
        _ => ck!(false),
    }
}

// ---- PUBLISH ---------------------------------------------------------------------------------------------------

/// an accepted PUBLISH says what the bytes say
fn same_publish(p: Packet, w: &refm::Publish) {
    match verif::publish_parts(&p) {
        None => ck!(false),
        Some((topic, payload, q, id)) => {
            ck!(eq(topic.as_bytes(), w.topic));
            ck!(qos(q) == w.qos);
            ck!(id == w.pktid);
            match payload {
                Ok(s) => {
                    ck!(w.text);
                    ck!(eq(s.as_bytes(), w.payload));
                    cover!();
                }
                Err(b) => {
                    ck!(!w.text);
                    ck!(eq(b, w.payload));
                }
            }
        }
    }
    // retain, dup and properties are visible through the encoder
    let e = enc(p);
    match refm::fixed(&e) {
        Ok((3, fl, body, n)) => {
            ck!(n == e.len());
            match refm::publish(fl, body) {
                Ok(x) => {
                    ck!(x.retain == w.retain && x.dup == w.dup && x.qos == w.qos && x.pktid == w.pktid);
                    ck!(eq(x.topic, w.topic) && eq(x.payload, w.payload));
                    ck!(refm::same_props(&x.props, &w.props));
                }
                Err(_) => ck!(false),
            }
        }
        _ => ck!(false),
    }
}
fn publish_decode(h: u8, body: &[u8]) {
    let b = frame(h, body);
    let w = refm::publish(h & 15, body);
    let (r, _) = dec(&b);
    match (w, r) {
        (Ok(w), Ok(Some(p))) => {
            same_publish(p, &w);
            cover!();
        }
        (Err(E::Bad), Err(())) => cover!(),
        (Err(E::Unclaimed), _) => {}
        _ => ck!(false),
    }
}
fn publish_any(n: u32) {
    let n = range(0, n) as usize;
    let h = u8s();
    assume(h >> 4 == 3);
    let b = bytes(n);
    if let Some(i) = split_len(&b, 0, 2) {
        let i = if h & 6 != 0 { i + 2 } else { i };
        split_len(&b, i, 1);
    }
    publish_decode(h, &b);
}
pub fn h_publish_any_7() {
    publish_any(7)
}
pub fn h_publish_any_9() {
    publish_any(9)
}
/// fixed layout of the parts, arbitrary content: longer packets than arbitrary bytes reach
fn publish_shaped(props: u32, plen: u32) {
    let h = 0x30 | (pick(&[0u8, 2, 4]) | pick(&[0u8, 1, 8]));
    let mut b = vec![];
    let t = range(0, 2) as usize;
    b.extend_from_slice(&[0, t as u8]);
    b.extend_from_slice(&bytes(t));
    if h & 6 != 0 {
        b.extend_from_slice(&bytes(2));
    }
    let mut p = vec![];
    let np = range(0, props);
    let mut i = 0;
    while i < np {
        shaped_prop(&mut p);
        i += 1;
    }
    b.push(p.len() as u8);
    b.extend_from_slice(&p);
    b.extend_from_slice(&bytes(pick(&[0, plen as usize])));
    publish_decode(h, &b);
}
/// a property with well formed structure and arbitrary content
pub fn shaped_prop(p: &mut Vec<u8>) {
    match choice(5) {
        0 => {
            p.push(1);
            p.extend_from_slice(&bytes(1));
        }
        1 => {
            p.push(2);
            p.extend_from_slice(&bytes(4));
        }
        2 => {
            let n = choice(2) as usize;
            p.extend_from_slice(&[8, 0, n as u8]);
            p.extend_from_slice(&bytes(n));
        }
        3 => {
            let n = choice(3) as usize;
            p.extend_from_slice(&[9, 0, n as u8]);
            p.extend_from_slice(&bytes(n));
        }
        _ => {
            let n = choice(2) as usize;
            let m = choice(2) as usize;
            p.extend_from_slice(&[0x26, 0, n as u8]);
            p.extend_from_slice(&bytes(n));
            p.extend_from_slice(&[0, m as u8]);
            p.extend_from_slice(&bytes(m));
        }
    }
}
pub fn h_publish_shaped_1() {
    publish_shaped(1, 2)
}
pub fn h_publish_shaped_2() {
    publish_shaped(2, 1)
}
pub fn h_publish_shaped_3() {
    publish_shaped(3, 1)
}
/// long topics: the two byte length is big endian and covers the whole range
pub fn h_publish_long() {
    let n = pick(&[127usize, 128, 255, 256, 257, 300, 1000, 65535]);
    let mut b = vec![(n >> 8) as u8, n as u8];
    b.resize(2 + n, b'a');
    let x = u8s();
    assume(x < 128);
    b[1 + n] = x;
    b.push(0);
    b.extend_from_slice(&bytes(1));
    publish_decode(0x30, &b);
}

/// every length of topic and payload up to n
fn publish_lengths(n: u32) {
    let k = range(0, n) as usize;
    let (t, p) = if choice(2) == 0 { (k, 3) } else { (1, k) };
    let mut b = vec![(t >> 8) as u8, t as u8];
    b.extend_from_slice(&pattern(t));
    let q = choice(2) as u8;
    if q == 1 {
        b.extend_from_slice(&[1, 2]);
    }
    b.push(0);
    b.extend_from_slice(&pattern(p));
    if p > 0 {
        let i = b.len() - 1;
        b[i] = u8s();
    }
    publish_decode(0x30 | q << 1, &b);
}
pub fn h_publish_lengths() {
    publish_lengths(300)
}

/// 255 stands for a tree that does not tell the harness the code
pub fn code_is(got: u8, want: u8) -> bool {
    got == want || got == 255
}

/// property sets of every length up to n (or of `sizes`), of every kind, in front of a payload
fn publish_prop_lengths(sizes: &[usize], n: u32) {
    step_limit(1_500_000_000);
    let n = if n > 0 { range(0, n) as usize } else { pick(sizes) };
    let x = u8s();
    assume(x > 0 && x < 128);
    let mut p = vec![];
    match choice(5) {
        0 => {
            p.push(8);
            put_text(&mut p, &pattern(n));
        }
        1 => {
            p.push(9);
            put_text(&mut p, &pattern(n));
            p.extend_from_slice(&[1, 1]);
        }
        2 => {
            p.push(0x26);
            put_text(&mut p, &[x]);
            put_text(&mut p, &pattern(n));
            p.extend_from_slice(&[2, 0, 0, 0, x]);
        }
        3 => {
            p.push(0x26);
            put_text(&mut p, &pattern(n));
            put_text(&mut p, &[x]);
        }
        _ => {
            let mut i = 0;
            while i < n && i < 100 {
                p.push(0x26);
                put_text(&mut p, &pattern(i % 7));
                put_text(&mut p, &[x]);
                i += 1;
            }
        }
    }
    let h = 0x30 | pick(&[0u8, 2]);
    let mut b = vec![0, 1, b't'];
    if h & 6 != 0 {
        b.extend_from_slice(&[1, x]);
    }
    put_vbi(&mut b, p.len());
    b.extend_from_slice(&p);
    b.extend_from_slice(&[b'p', x]);
    publish_decode(h, &b);
}
pub fn h_publish_prop_lengths() {
    publish_prop_lengths(&[], 300)
}
pub fn h_publish_prop_lengths_deep() {
    publish_prop_lengths(&[16000, 16380, 16384, 20000, 65535], 0)
}

// ---- acknowledgements ------------------------------------------------------------------------------------------

fn ack_decode(ty: u8, body: &[u8]) {
    let b = frame(ty << 4, body);
    let w = match ty {
        2 => refm::connack(body),
        4 => refm::puback(body),
        9 => refm::suback(body, &refm::SUBACK),
        11 => refm::unsuback(body),
        _ => refm::disconnect(body),
    };
    let (r, m) = dec(&b);
    match (w, r) {
        (Ok(w), Ok(Some(p))) => {
            ck!(m.is_empty());
            ck!(kind(&p) == ty);
            if ty == 4 || ty == 9 || ty == 11 {
                ck!(verif::ack_pktid(&p) == Some(w.pktid));
            }
            match &p {
                Packet::Connack(c) => ck!(code_is(verif::connack_code(c), w.reason)),
                Packet::Disconnect(d) => ck!(u8::from(d.reason()) == w.reason),
                _ => {}
            }
            if ty == 4 || ty == 14 {
                // reason and properties are visible through the encoder
                let e = enc(p);
                let (t, _, body2, n) = match refm::fixed(&e) {
                    Ok(x) => x,
                    Err(_) => {
                        ck!(false);
                        return;
                    }
                };
                ck!(t == ty && n == e.len());
                let x = if ty == 4 { refm::puback(body2) } else { refm::disconnect(body2) };
                match x {
                    Ok(x) => {
                        ck!(x.pktid == w.pktid && x.reason == w.reason);
                        // of a reason string given twice (a protocol error) one is kept
                        let mut k = 0;
                        for q in w.props.iter() {
                            if let Prop::Reason(_) = q {
                                k += 1;
                            }
                        }
                        if k <= 1 && ty == 14 {
                            ck!(refm::same_props(&x.props, &w.props));
                        }
                        if k <= 1 && ty == 4 {
                            ck!(x.props.len() == w.props.len());
                            ck!(same_by_kind(&x.props, &w.props));
                        }
                    }
                    Err(_) => ck!(false),
                }
            }
            cover!();
        }
        (Err(E::Bad), Err(())) => cover!(),
        (Err(E::Unclaimed), _) => {}
        _ => ck!(false),
    }
}
/// the order between reason string and user properties does not matter, the order of user properties does
pub fn same_by_kind(a: &[Prop], b: &[Prop]) -> bool {
    fn users<'a, 'b>(v: &'b [Prop<'a>]) -> Vec<(&'a [u8], &'a [u8])> {
        let mut r = vec![];
        for p in v {
            if let Prop::User(k, x) = p {
                r.push((*k, *x));
            }
        }
        r
    }
    fn reason<'a, 'b>(v: &'b [Prop<'a>]) -> Option<&'a [u8]> {
        let mut r = None;
        for p in v {
            if let Prop::Reason(x) = p {
                r = Some(*x);
            }
        }
        r
    }
    let (u, v) = (users(a), users(b));
    if u.len() != v.len() {
        return false;
    }
    let mut i = 0;
    while i < u.len() {
        if !(eq(u[i].0, v[i].0) && eq(u[i].1, v[i].1)) {
            return false;
        }
        i += 1;
    }
    match (reason(a), reason(b)) {
        (None, None) => true,
        (Some(x), Some(y)) => eq(x, y),
        _ => false,
    }
}
fn ack_any(ty: u8, n: u32) {
    let n = range(0, n) as usize;
    ack_decode(ty, &bytes(n));
}
pub fn h_ack_connack() {
    ack_any(2, 8)
}
pub fn h_ack_puback() {
    ack_any(4, 8)
}
pub fn h_ack_suback() {
    ack_any(9, 8)
}
pub fn h_ack_unsuback() {
    ack_any(11, 8)
}
pub fn h_ack_disconnect() {
    ack_any(14, 8)
}
/// well formed property lists with arbitrary content
fn ack_shaped(np: u32) {
    let ty = pick(&[2u8, 4, 9, 11, 14]);
    let mut p = vec![];
    let k = range(0, np);
    let mut i = 0;
    while i < k {
        let n = choice(3) as usize;
        if choice(2) == 0 {
            p.extend_from_slice(&[0x1f, 0, n as u8]);
            p.extend_from_slice(&bytes(n));
        } else {
            let m = choice(2) as usize;
            p.extend_from_slice(&[0x26, 0, n as u8]);
            p.extend_from_slice(&bytes(n));
            p.extend_from_slice(&[0, m as u8]);
            p.extend_from_slice(&bytes(m));
        }
        i += 1;
    }
    let mut b = vec![];
    match ty {
        2 => b.extend_from_slice(&bytes(2)),
        4 => b.extend_from_slice(&bytes(3)),
        9 | 11 => b.extend_from_slice(&bytes(2)),
        _ => b.extend_from_slice(&bytes(1)),
    }
    b.push(p.len() as u8);
    b.extend_from_slice(&p);
    if ty == 9 || ty == 11 {
        b.extend_from_slice(&bytes(1));
    }
    ack_decode(ty, &b);
}
/// long reason strings, long user properties, many of them
fn ack_lengths(sizes: &[usize], n: u32) {
    step_limit(1_500_000_000);
    let ty = pick(&[2u8, 4, 9, 11, 14]);
    let n = if n > 0 { range(0, n) as usize } else { pick(sizes) };
    let mut p = vec![];
    let x = u8s();
    assume(x > 0 && x < 128);
    match choice(4) {
        0 => {
            p.push(0x1f);
            put_text(&mut p, &pattern(n));
            if n > 0 {
                let i = p.len() - 1;
                p[i] = x;
            }
        }
        1 => {
            p.push(0x26);
            put_text(&mut p, &pattern(n));
            put_text(&mut p, &[x]);
        }
        2 => {
            p.push(0x26);
            put_text(&mut p, &[x]);
            put_text(&mut p, &pattern(n));
            p.push(0x1f);
            put_text(&mut p, b"why");
        }
        _ => {
            let mut i = 0;
            while i < n && i < 100 {
                p.push(0x26);
                put_text(&mut p, &pattern(i % 7));
                put_text(&mut p, &[x]);
                i += 1;
            }
        }
    }
    let mut b = vec![];
    match ty {
        2 => b.extend_from_slice(&[1, 0]),
        4 => b.extend_from_slice(&[1, 44, 0]),
        9 | 11 => b.extend_from_slice(&[1, 44]),
        _ => b.extend_from_slice(&[0]),
    }
    b.extend_from_slice(&frame(0, &p)[1..]);
    if ty == 9 || ty == 11 {
        b.push(0);
    }
    ack_decode(ty, &b);
}
pub fn h_ack_lengths() {
    ack_lengths(&[], 300)
}
pub fn h_ack_lengths_deep() {
    ack_lengths(&[1000, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 32767, 32768, 65535], 0)
}
pub fn h_ack_shaped_1() {
    ack_shaped(1)
}
pub fn h_ack_shaped_2() {
    ack_shaped(2)
}
/// the strings of s one after the other in t
fn in_order(t: &str, s: &[String]) -> bool {
    let mut at = 0;
    for x in s {
        match t[at..].find(x.as_str()) {
            Some(i) => at += i + x.len(),
            None => return false,
        }
    }
    true
}
/// What CONNACK, SUBACK, UNSUBACK say is visible in their texts: properties in order, reason.
pub fn h_fmt_acks() {
    step_limit(5_000_000);
    let ty = pick(&[2u8, 9, 11]);
    let mut p: Vec<u8> = vec![];
    let mut want = vec![];
    let mut reason = false;
    let k = range(0, 2);
    let texts = ["", "r", "abc", "kk", "vvvv"];
    let mut put = |p: &mut Vec<u8>, t: &str| {
        p.extend_from_slice(&[0, t.len() as u8]);
        p.extend_from_slice(t.as_bytes());
        want.push(format!("{:?}", t));
    };
    let mut i = 0;
    while i < k {
        if choice(2) == 0 && !reason {
            reason = true;
            p.push(0x1f);
            put(&mut p, pick(&texts[..3]));
        } else {
            p.push(0x26);
            put(&mut p, pick(&texts[2..]));
            put(&mut p, pick(&texts));
        }
        i += 1;
    }
    let mut b = vec![];
    let session = choice(2) as u8;
    let (code, name) = match ty {
        2 => pick(&[(0u8, "Success"), (135, "NotAuthorized"), (159, "ConnectionRateExceeded")]),
        9 => pick(&[(0u8, "QoS0"), (2, "QoS2"), (162, "WildcardSubsNotSupported")]),
        _ => pick(&[(0u8, "Success"), (17, "NoSubscriptionExisted"), (145, "PacketIdentifierInUse")]),
    };
    if ty == 2 {
        b.extend_from_slice(&[session, code]);
    } else {
        b.extend_from_slice(&[1, 44]);
    }
    b.push(p.len() as u8);
    b.extend_from_slice(&p);
    let mut names = vec![String::from(name)];
    if ty != 2 {
        b.push(code);
    }
    if ty == 11 {
        // one for each topic
        let mut more = choice(3);
        while more > 0 {
            let (code, name) = pick(&[(0u8, "Success"), (143, "TopicFilterInvalid")]);
            b.push(code);
            names.push(String::from(name));
            more -= 1;
        }
    }
    let (r, m) = dec(&frame(ty << 4, &b));
    ck!(m.is_empty());
    let t = match &r {
        Ok(Some(Packet::Connack(p))) => format!("{:?}", p),
        Ok(Some(Packet::SubAck(p))) => format!("{:?}", p),
        Ok(Some(Packet::UnsubAck(p))) => format!("{:?}", p),
        _ => {
            ck!(false);
            return;
        }
    };
    ck!(in_order(&t, &want));
    ck!(t.matches('"').count() == 2 * want.len());
    ck!(in_order(&t, &names));
    if ty == 2 {
        ck!(t.contains(if session == 1 { "true" } else { "false" }));
    } else {
        ck!(t.contains("300"));
    }
    cover!();
}
/// PINGRESP
pub fn h_ack_pingresp() {
    let (r, m) = dec(&[0xd0, 0]);
    ck!(matches!(r, Ok(Some(Packet::PingResp(_)))) && m.is_empty());
    cover!();
}

// ---- properties ------------------------------------------------------------------------------------------------

pub fn same(p: &Property, w: &Prop) -> bool {
    match (p, w) {
        (Property::PayloadFormatId(x), Prop::Format(y)) => x == y,
        (Property::MessageExpiryInterval(x), Prop::Expiry(y)) => x == y,
        (Property::ResponseTopic(x), Prop::ResponseTopic(y)) => eq(x.as_bytes(), y),
        (Property::CorrelationData(x), Prop::Correlation(y)) => eq(x, y),
        (Property::UserProperty(a, b), Prop::User(c, d)) => eq(a.as_bytes(), c) && eq(b.as_bytes(), d),
        _ => false,
    }
}
fn props_decode(b: &[u8]) {
    let mut c = Cur::new(b);
    let w = refm::props(&mut c, Who::Publish);
    let r = Vec::<Property>::convert_from_mqtt(b);
    match (w, r) {
        (Ok(w), Ok((v, n))) => {
            ck!(n == c.i && v.len() == w.len());
            let mut i = 0;
            while i < v.len() {
                ck!(same(&v[i], &w[i]));
                i += 1;
            }
            cover!();
        }
        (Err(E::Bad), Err(_)) => cover!(),
        (Err(E::Unclaimed), _) => {}
        _ => ck!(false),
    }
}
fn props_any(n: u32) {
    let n = range(0, n) as usize;
    let b = bytes(n);
    split_len(&b, 0, 1);
    props_decode(&b);
}
pub fn h_props_any_7() {
    props_any(7)
}
pub fn h_props_any_9() {
    props_any(9)
}
fn props_shaped(k: u32) {
    let mut p = vec![];
    let k = range(0, k);
    let mut i = 0;
    while i < k {
        shaped_prop(&mut p);
        i += 1;
    }
    let mut b = vec![p.len() as u8];
    b.extend_from_slice(&p);
    // what follows the list is none of its business
    b.extend_from_slice(&bytes(choice(2) as usize));
    props_decode(&b);
}
pub fn h_props_shaped_2() {
    props_shaped(2)
}
pub fn h_props_shaped_3() {
    props_shaped(3)
}
/// text of up to n bytes, arbitrary valid UTF-8
pub fn text(n: u32) -> String {
    let n = range(0, n) as usize;
    text_of(n)
}
pub fn text_of(n: usize) -> String {
    match String::from_utf8(bytes(n)) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            String::new()
        }
    }
}
fn any_prop(n: u32) -> Property {
    match choice(5) {
        0 => Property::PayloadFormatId(u8s()),
        1 => Property::MessageExpiryInterval(u32s()),
        2 => Property::ResponseTopic(text(n)),
        3 => {
            let n = range(0, n) as usize;
            Property::CorrelationData(bytes(n))
        }
        _ => Property::UserProperty(text(n), text(n)),
    }
}
/// what is encoded reads back, by the reference and by ruq itself
fn props_roundtrip(v: Vec<Property>) {
    let b = v.as_slice().convert_to_mqtt();
    let mut c = Cur::new(&b);
    match refm::props(&mut c, Who::Publish) {
        Ok(w) => {
            ck!(c.left() == 0 && w.len() == v.len());
            let mut i = 0;
            while i < v.len() {
                ck!(same(&v[i], &w[i]));
                i += 1;
            }
            match Vec::<Property>::convert_from_mqtt(&b) {
                Ok((x, n)) => {
                    ck!(n == b.len() && x.len() == w.len());
                    let mut i = 0;
                    while i < x.len() {
                        ck!(same(&x[i], &w[i]));
                        i += 1;
                    }
                    cover!();
                }
                Err(_) => ck!(false),
            }
        }
        Err(_) => ck!(false),
    }
}
pub fn h_props_roundtrip_1() {
    let k = choice(2);
    let mut v = vec![];
    if k == 1 {
        v.push(any_prop(3));
    }
    props_roundtrip(v)
}
pub fn h_props_roundtrip_2() {
    props_roundtrip(vec![any_prop(1), any_prop(1)])
}
pub fn h_props_roundtrip_3() {
    props_roundtrip(vec![any_prop(1), any_prop(1), any_prop(1)])
}
/// property lists whose length needs one, two or three bytes
pub fn h_props_long() {
    let n = pick(&[123usize, 124, 125, 126, 252, 253, 254, 255, 256, 16379, 16380, 16381, 16382, 65535]);
    let mut s = vec![b'k'; n];
    let x = u8s();
    s[0] = x;
    let p = if choice(2) == 0 {
        Property::CorrelationData(s)
    } else {
        assume(x < 128);
        Property::ResponseTopic(String::from_utf8(s).unwrap())
    };
    props_roundtrip(vec![p])
}
/// many properties in one list
pub fn h_props_many() {
    step_limit(10_000_000);
    let n = pick(&[1usize, 2, 3, 4, 8, 9, 16, 17, 32, 33, 64, 65, 100, 300]);
    let kind = choice(3);
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        let s = |k: usize| String::from_utf8(pattern(k)).unwrap();
        v.push(match if kind == 2 { i % 5 } else { kind as usize } {
            0 => Property::UserProperty(s(i % 3), s(i % 5)),
            1 => Property::CorrelationData(pattern(i % 4)),
            2 => Property::ResponseTopic(s(i % 4)),
            3 => Property::MessageExpiryInterval(u32s()),
            _ => Property::PayloadFormatId(u8s()),
        });
        i += 1;
    }
    props_roundtrip(v)
}
