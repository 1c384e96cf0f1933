//! Encoding: packets of the client, through the codec, read back by the reference reader.
use crate::codec::{self, dec, text, text_of};
use crate::refm::{self, Req};
use crate::sym::*;
use crate::{ck, cover};
use bytes::BytesMut;
use ruq::verif::{self, MqttCodec, Packet, Property, QoS};
use tokio_util::codec::Encoder;

/// encodes behind bytes that are already in the buffer; they stay as they are
fn enc(p: Packet) -> Vec<u8> {
    let mut c = MqttCodec::new();
    let mut m = BytesMut::new();
    m.extend_from_slice(&[0xaa, 0x55]);
    ck!(c.encode(p, &mut m).is_ok());
    ck!(m.len() >= 4 && m[0] == 0xaa && m[1] == 0x55);
    m[2..].to_vec()
}
/// the bytes are exactly one packet, with the shortest possible length field
fn one<'a>(b: &'a [u8]) -> Option<Req<'a>> {
    match refm::request(b) {
        Ok((r, n)) => {
            ck!(n == b.len());
            let body = {
                let mut k = 1;
                while b[k] & 0x80 != 0 {
                    k += 1;
                }
                b.len() - k - 1
            };
            let want = 2 + (body > 127) as usize + (body > 16383) as usize + (body > 2097151) as usize;
            ck!(b.len() - body == want);
            Some(r)
        }
        Err(_) => {
            ck!(false);
            None
        }
    }
}

// ---- PUBLISH ---------------------------------------------------------------------------------------------------

fn publish(topic: String, payload: Result<String, Vec<u8>>, retain: bool, q: QoS, id: u16, props: Vec<Property>) {
    let (t, pr) = (topic.clone(), props.clone());
    let (pl, istext) = match &payload {
        Ok(s) => (s.as_bytes().to_vec(), true),
        Err(b) => (b.clone(), false),
    };
    let _ = istext;
    let b = enc(verif::publish_packet(topic, payload, retain, q, id, props));
    match one(&b) {
        Some(Req::Publish(w)) => {
            ck!(!w.dup && w.retain == retain);
            ck!(w.qos == q as u8);
            ck!(w.pktid == if w.qos > 0 { Some(id) } else { None });
            ck!(eq(w.topic, t.as_bytes()));
            ck!(eq(w.payload, &pl));
            ck!(w.props.len() == pr.len());
            let mut i = 0;
            while i < pr.len() {
                ck!(codec::same(&pr[i], &w.props[i]));
                i += 1;
            }
            cover!();
        }
        _ => ck!(false),
    }
    // and ruq's own decoder agrees
    let (r, m) = dec(&b);
    match r {
        Ok(Some(p)) => {
            ck!(m.is_empty());
            let (t2, p2, q2, id2) = verif::publish_parts(&p).unwrap();
            ck!(eq(t2.as_bytes(), t.as_bytes()) && q2 == q);
            ck!(id2 == if q == QoS::AtMostOnce { None } else { Some(id) });
            ck!(match p2 {
                Ok(s) => eq(s.as_bytes(), &pl),
                Err(b) => eq(b, &pl),
            });
            cover!();
        }
        _ => ck!(false),
    }
}
fn any_qos() -> QoS {
    pick(&[QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce])
}
fn any_id() -> u16 {
    let id = u16s();
    assume(id != 0);
    id
}
/// arbitrary topic, payload, flags, packet id
fn publish_content(tl: u32, pl: u32) {
    let t = text(tl);
    let n = range(0, pl) as usize;
    let payload = if choice(2) == 0 { Err(bytes(n)) } else { Ok(text_of(n)) };
    publish(t, payload, bools(), any_qos(), any_id(), vec![])
}
pub fn h_enc_publish_content() {
    publish_content(3, 3)
}
pub fn h_enc_publish_content_deep() {
    publish_content(4, 5)
}
/// with properties
fn any_prop(n: u32) -> Property {
    match choice(5) {
        0 => {
            let v = u8s();
            // text format with a payload that is not text is a protocol error of the caller
            assume(v != 1);
            Property::PayloadFormatId(v)
        }
        1 => Property::MessageExpiryInterval(u32s()),
        2 => Property::ResponseTopic(text(n)),
        3 => {
            let n = range(0, n) as usize;
            Property::CorrelationData(bytes(n))
        }
        _ => Property::UserProperty(text(n), text(n)),
    }
}
fn publish_props(k: u32, n: u32) {
    let k = range(0, k);
    let mut v = vec![];
    let mut i = 0;
    while i < k {
        v.push(any_prop(n));
        i += 1;
    }
    publish("t".into(), Err(bytes(1)), bools(), any_qos(), any_id(), v)
}
pub fn h_enc_publish_props() {
    publish_props(2, 1)
}
pub fn h_enc_publish_props_deep() {
    publish_props(3, 1)
}
/// remaining length around the boundaries of its encoding
fn publish_sizes(sizes: &[usize]) {
    let body = pick(sizes);
    let q = any_qos();
    let head = 2 + 1 + 1 + if q == QoS::AtMostOnce { 0 } else { 2 };
    let n = body - head;
    let mut p = codec::pattern(n);
    p[0] = u8s();
    p[n - 1] = u8s();
    publish("t".into(), Err(p), bools(), q, any_id(), vec![])
}
pub fn h_enc_publish_sizes() {
    publish_sizes(&[126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385])
}
pub fn h_enc_publish_sizes_deep() {
    step_limit(1_500_000_000);
    publish_sizes(&[65535, 65536, 2097150, 2097151, 2097152, 2097153])
}
/// every length of topic and payload up to n
fn publish_lengths(n: u32) {
    let k = range(0, n) as usize;
    let (t, p) = if choice(2) == 0 { (k, 3) } else { (1, k) };
    let mut pl = codec::pattern(p);
    if p > 0 {
        pl[p - 1] = u8s();
    }
    let t = String::from_utf8(codec::pattern(t)).unwrap();
    publish(t, Err(pl), bools(), any_qos(), any_id(), vec![])
}
pub fn h_enc_publish_lengths() {
    publish_lengths(300)
}
/// long topics, properties and texts: two byte lengths over their whole range
fn publish_long(sizes: &[usize]) {
    let n = pick(sizes);
    let mut s = codec::pattern(n);
    let x = u8s();
    assume(x < 128);
    s[n - 1] = x;
    let t = String::from_utf8(s.clone()).unwrap();
    match choice(4) {
        0 => publish(t, Err(vec![1]), false, QoS::AtMostOnce, 1, vec![]),
        1 => publish("t".into(), Err(vec![1]), false, QoS::AtLeastOnce, 7, vec![Property::UserProperty(t, "v".into())]),
        2 => publish("t".into(), Err(vec![1]), false, QoS::AtMostOnce, 1, vec![Property::CorrelationData(s)]),
        _ => publish("t".into(), Ok(t), false, QoS::AtMostOnce, 1, vec![Property::ResponseTopic("r".into())]),
    }
}
pub fn h_enc_publish_long() {
    publish_long(&[127, 128, 255, 256, 300])
}
pub fn h_enc_publish_long_deep() {
    publish_long(&[123, 124, 16376, 16377, 16378, 65535])
}

// ---- the other packets -----------------------------------------------------------------------------------------

pub fn h_enc_connect() {
    let s = text(4);
    let k = u16s();
    let b = enc(verif::connect_packet(&s, k));
    match one(&b) {
        Some(Req::Connect { version, flags, keep_alive, client_id, .. }) => {
            ck!(version == 5);
            // a new session, no will, no credentials
            ck!(flags == 2);
            ck!(keep_alive == k);
            ck!(eq(client_id, s.as_bytes()));
            cover!();
        }
        _ => ck!(false),
    }
}
fn subscribe(s: String) {
    let id = any_id();
    let q = any_qos();
    let b = enc(verif::subscribe_packet(&s, id, q));
    match one(&b) {
        Some(Req::Subscribe { pktid, topics }) => {
            ck!(pktid == id && topics.len() == 1);
            ck!(eq(topics[0].0, s.as_bytes()));
            ck!(topics[0].1 == q as u8);
            cover!();
        }
        _ => ck!(false),
    }
}
pub fn h_enc_subscribe() {
    subscribe(text(4))
}
fn unsubscribe(v: Vec<String>) {
    let id = any_id();
    let b = enc(verif::unsubscribe_packet(v.clone(), id));
    match one(&b) {
        Some(Req::Unsubscribe { pktid, topics }) => {
            ck!(pktid == id && topics.len() == v.len());
            let mut i = 0;
            while i < v.len() {
                ck!(eq(topics[i], v[i].as_bytes()));
                i += 1;
            }
            cover!();
        }
        _ => ck!(false),
    }
}
pub fn h_enc_unsubscribe() {
    let k = range(1, 3);
    let mut v = vec![];
    let mut i = 0;
    while i < k {
        v.push(text(1));
        i += 1;
    }
    unsubscribe(v)
}
pub fn h_enc_long_topics() {
    let n = pick(&[120usize, 121, 122, 123, 124, 125, 126, 127, 255, 256, 16376, 16377, 16378, 16379, 16380, 65535]);
    let mut s = vec![b'/'; n];
    let x = u8s();
    assume(x < 128);
    s[n / 2] = x;
    let s = String::from_utf8(s).unwrap();
    match choice(3) {
        0 => subscribe(s),
        1 => unsubscribe(vec![s]),
        _ => {
            let b = enc(verif::connect_packet(&s, 1));
            match one(&b) {
                Some(Req::Connect { client_id, .. }) => {
                    ck!(eq(client_id, s.as_bytes()));
                    cover!();
                }
                _ => ck!(false),
            }
        }
    }
}
pub fn h_enc_puback() {
    let id = any_id();
    let b = enc(verif::puback_packet(id));
    match one(&b) {
        Some(Req::PubAck(a)) => {
            ck!(a.pktid == id && a.reason == 0 && a.props.is_empty());
            cover!();
        }
        _ => ck!(false),
    }
}
pub fn h_enc_pingreq() {
    let b = enc(verif::pingreq_packet());
    ck!(matches!(one(&b), Some(Req::PingReq)));
    cover!();
}
/// every reason code there is, and no other
pub fn h_enc_disconnect() {
    let c = u8s();
    let known = {
        let mut r = false;
        let mut i = 0;
        while i < refm::DISCONNECT.len() {
            r |= refm::DISCONNECT[i] == c;
            i += 1;
        }
        r
    };
    match verif::disconnect_reason(c) {
        Ok(r) => {
            ck!(known);
            let b = enc(verif::disconnect_packet(r));
            match one(&b) {
                Some(Req::Disconnect(a)) => {
                    ck!(a.reason == c && a.props.is_empty());
                    cover!();
                }
                _ => ck!(false),
            }
        }
        Err(_) => {
            ck!(!known);
            cover!();
        }
    }
}

/// PUBACK and DISCONNECT with reason codes and properties: received, then sent
fn ack_again(ty: u8) {
    let mut p = vec![];
    let k = range(0, 2);
    let mut reasons = 0;
    let mut i = 0;
    while i < k {
        let n = choice(3) as usize;
        let m = choice(2) as usize;
        if m == 0 && reasons == 0 {
            reasons = 1;
            p.extend_from_slice(&[0x1f, 0, n as u8]);
            p.extend_from_slice(&bytes(n));
        } else {
            p.extend_from_slice(&[0x26, 0, n as u8]);
            p.extend_from_slice(&bytes(n));
            p.extend_from_slice(&[0, m as u8]);
            p.extend_from_slice(&bytes(m));
        }
        i += 1;
    }
    let mut b = bytes(if ty == 4 { 3 } else { 1 });
    b.push(p.len() as u8);
    b.extend_from_slice(&p);
    let w = match if ty == 4 { refm::puback(&b) } else { refm::disconnect(&b) } {
        Ok(w) => w,
        Err(_) => return,
    };
    // whether it is understood is not the question here
    let p = match dec(&codec::frame(ty << 4, &b)).0 {
        Ok(Some(p)) => p,
        _ => return,
    };
    let e = enc(p);
    match one(&e) {
        Some(Req::PubAck(a)) => {
            ck!(ty == 4 && a.pktid == w.pktid && a.reason == w.reason);
            ck!(codec::same_by_kind(&a.props, &w.props));
            cover!();
        }
        Some(Req::Disconnect(a)) => {
            ck!(ty == 14 && a.reason == w.reason);
            ck!(codec::same_by_kind(&a.props, &w.props));
            cover!();
        }
        _ => ck!(false),
    }
}
pub fn h_enc_puback_again() {
    ack_again(4)
}
pub fn h_enc_disconnect_again() {
    ack_again(14)
}

/// what was encoded before makes no difference
pub fn h_enc_history() {
    step_limit(300_000_000);
    let mut c = MqttCodec::new();
    let mut m = BytesMut::new();
    let mk = |i: u32, id: u16, x: u8| match i % 7 {
        0 => verif::publish_packet("t".to_owned(), Err(vec![x; 1 + i as usize % 200]), x & 1 == 1, QoS::AtLeastOnce, id, vec![]),
        1 => verif::puback_packet(id),
        2 => verif::pingreq_packet(),
        3 => verif::subscribe_packet("tt", id, QoS::AtLeastOnce),
        4 => verif::unsubscribe_packet(vec!["u".to_owned()], id),
        5 => verif::publish_packet("".to_owned(), Ok("text".to_owned()), false, QoS::AtMostOnce, id, vec![Property::UserProperty("k".to_owned(), "v".to_owned())]),
        _ => verif::connect_packet("id", id),
    };
    let mut i = 0u32;
    while i < 600 && choice(2) == 1 {
        ck!(c.encode(mk(i, 1 + i as u16, i as u8), &mut m).is_ok());
        if i % 3 == 0 {
            m.clear();
        }
        i += 1;
    }
    let before = m.len();
    let k = choice(7);
    let (id, x) = (any_id(), u8s());
    ck!(c.encode(mk(k, id, x), &mut m).is_ok());
    let w = enc(mk(k, id, x));
    ck!(eq(&m[before..], &w));
    cover!();
}
