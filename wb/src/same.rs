//! The real decoder's results next to the reference decoder's.

use bb::refdec::RP;
use ratelmq::mqtt::packets::QoS;
use ratelmq::mqtt::packets::{ControlPacket, ProtocolVersion};
use ratelmq::mqtt::subscription::Subscription;

/// what the broker decoded, next to what it should have
pub fn same(real: &ControlPacket, want: &RP) -> Result<(), String> {
    let qos = |q: QoS| q as u8;
    let ok = match (real, want) {
        (ControlPacket::Connect(c), RP::Unsupported) => c.version != ProtocolVersion::Mqtt3,
        (ControlPacket::Connect(c), RP::Connect { id, ka, clean, will, user, pass }) => {
            let w = c.will_message.as_ref().map(|m| (m.topic.clone(), m.payload.to_vec(), qos(m.qos), m.retain));
            c.version == ProtocolVersion::Mqtt3
                && c.client_id == *id
                && c.keep_alive_seconds == *ka
                && c.clean_session == *clean
                && w == *will
                && c.user_name == *user
                && c.password == *pass
        }
        (ControlPacket::Publish(p), RP::Publish { dup, qos: q, retain, topic, pid, payload }) => {
            p.dup == *dup && qos(p.message.qos) == *q && p.message.retain == *retain && p.message.topic == *topic && p.packet_id == *pid && p.message.payload[..] == payload[..]
        }
        (ControlPacket::PubAck(p), RP::PubAck(n)) => p.packet_id == *n,
        (ControlPacket::PubRec(p), RP::PubRec(n)) => p.packet_id == *n,
        (ControlPacket::PubRel(p), RP::PubRel(n)) => p.packet_id == *n,
        (ControlPacket::PubComp(p), RP::PubComp(n)) => p.packet_id == *n,
        (ControlPacket::Subscribe(p), RP::Subscribe { pid, subs }) => {
            let want: Vec<Subscription> = subs.iter().map(|(f, q)| Subscription::new(f.clone(), QoS::from_bits(*q))).collect();
            p.packet_id == *pid && p.subscriptions == want
        }
        (ControlPacket::Unsubscribe(p), RP::Unsubscribe { pid, topics }) => p.packet_id == *pid && p.topics == *topics,
        (ControlPacket::PingReq, RP::PingReq) => true,
        (ControlPacket::Disconnect(_), RP::Disconnect) => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        let cut = |s: String| s.chars().take(600).collect::<String>();
        Err(format!("decoded as {} instead of {}", cut(format!("{:?}", real)), cut(format!("{:?}", want))))
    }
}
