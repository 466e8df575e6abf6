//! C14 under a bandwidth cap: acknowledgements of messages which are sent over several flushes.

use crate::ensure_eq;
use crate::fw::*;
use crate::sim::{Ch, Item, parse, with_ch};
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_time::{Real, Time};
use bytes::{Bytes, BytesMut};
use lightyear_connection::prelude::NetworkingMetadata;
use lightyear_core::prelude::LocalTimeline;
use lightyear_link::{Link, LinkMtu, Linked};
use lightyear_transport::channel::ChannelKind;
use lightyear_transport::packet::message::MessageId;
use lightyear_transport::packet::priority_manager::PriorityConfig;
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    dt_ms: u16,
    refill: bool,
    /// channel, length, priority in hundredths
    msgs: Vec<(u8, u16, u16)>,
    /// headers received before the flush: newest packet (counted back from the last one sent) and bits
    acks: Vec<(u8, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mtu: u16,
    burst: u16,
    timeout_ms: u16,
    /// mode, resend delay, whether unsent messages are kept
    chans: Vec<(u8, u16, bool)>,
    steps: Vec<Step>,
}

const RATE: u32 = 2_000_000;

fn strategy() -> BoxedStrategy<Case> {
    let msg = (
        0u8..4,
        prop_oneof![2 => 1u16..60, 3 => 60u16..1500],
        prop_oneof![2 => Just(100u16), 1 => 1u16..400],
    );
    let ack = (prop_oneof![3 => 0u8..4, 1 => 0u8..40], prop_oneof![2 => any::<u32>(), 2 => Just(u32::MAX), 1 => Just(0)]);
    let step = (prop_oneof![4 => 1u16..30, 1 => 30u16..400], proptest::bool::weighted(0.7), vec(msg, 0..5), vec(ack, 0..3))
        .prop_map(|(dt_ms, refill, msgs, acks)| Step { dt_ms, refill, msgs, acks });
    (
        60u16..300,
        0u16..900,
        prop_oneof![Just(10_000u16), 20u16..300],
        vec((prop_oneof![3 => Just(1u8), 1 => 0u8..6], prop_oneof![Just(0u16), 1u16..60], any::<bool>()), 1..4),
        vec(step, 2..14),
    )
        .prop_map(|(mtu, extra, timeout_ms, chans, steps)| Case { mtu, burst: mtu + extra, timeout_ms, chans, steps })
        .boxed()
}

#[derive(Default)]
struct Progress {
    acked: BTreeSet<u64>,
    parts: u64,
    dead: bool,
    done: bool,
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin {
        task_pool_options: TaskPoolOptions::with_num_threads(1),
    });
    app.insert_resource(Time::<Real>::default());
    app.init_resource::<LocalTimeline>();
    app.init_resource::<ChannelRegistry>();
    app.init_resource::<NetworkingMetadata>();
    app.add_plugins(TransportPlugin);
    let timeout = Duration::from_millis(case.timeout_ms as u64);
    let mut t = Transport::new(PriorityConfig::new(RATE).with_burst_size(case.burst as u32)).with_packet_nack_settings(PacketNackSettings {
        minimum_timeout: timeout,
        maximum_timeout: timeout,
        ..Default::default()
    });
    let mut wires = vec![];
    for (i, (mode, delay, retry)) in case.chans.iter().enumerate() {
        let rel = ReliableSettings {
            rtt_resend_factor: 0.0,
            rtt_resend_min_delay: Duration::from_millis(*delay as u64),
        };
        let settings = ChannelSettings {
            mode: match mode {
                0 => ChannelMode::UnorderedUnreliable,
                1 => ChannelMode::UnorderedUnreliableWithAcks,
                2 => ChannelMode::SequencedUnreliable,
                3 => ChannelMode::UnorderedReliable(rel),
                4 => ChannelMode::SequencedReliable(rel),
                _ => ChannelMode::OrderedReliable(rel),
            },
            retry_unsent_messages: *retry,
            ..Default::default()
        };
        with_ch!(i, C => {
            app.add_channel::<C>(settings);
            let reg = app.world().resource::<ChannelRegistry>();
            let id = *reg.get_net_from_kind(&ChannelKind::of::<C>()).unwrap();
            t.add_channel_send::<C>(settings, id);
            wires.push(id);
        });
    }
    app.finish();
    app.cleanup();
    let entity = app
        .world_mut()
        .spawn((Link::default().with_mtu(LinkMtu::new(case.mtu as usize)), Linked, t))
        .id();
    let mut now = Duration::ZERO;
    let mut last: Option<u16> = None;
    // packets in flight: parts (channel, message, index) and time
    type Parts = Vec<(usize, u16, u64)>;
    let mut flight: HashMap<u16, (Parts, Duration)> = HashMap::new();
    let mut msgs: HashMap<(usize, u16), Progress> = HashMap::new();
    let mut header_id = 0u16;
    let (mut n_ack, mut n_loss, mut over, mut multi) = (0u64, 0u64, 0u64, 0u64);
    let mut first_frame: HashMap<(usize, u16), usize> = HashMap::new();
    for (si, s) in case.steps.iter().enumerate() {
        let dt = Duration::from_millis(s.dt_ms as u64);
        now += dt;
        let w = app.world_mut();
        w.resource_mut::<Time<Real>>().advance_by(dt);
        if s.refill {
            std::thread::sleep(Duration::from_micros(case.burst as u64 + 50).mul_f64(1e6 / RATE as f64));
        }
        let mut want_acks: Vec<Vec<u16>> = vec![vec![]; case.chans.len()];
        let mut want_nacks: Vec<Vec<u16>> = vec![vec![]; case.chans.len()];
        {
            let mut em = w.entity_mut(entity);
            let mut link = em.get_mut::<Link>().unwrap();
            let mut acked: Vec<Parts> = vec![];
            for (back, bits) in &s.acks {
                // nothing sent yet: a peer acknowledges the id before the first
                let top = last.unwrap_or(u16::MAX).wrapping_sub(*back as u16);
                let mut d = vec![4u8];
                d.extend(header_id.to_be_bytes());
                header_id = header_id.wrapping_add(1);
                d.extend(top.to_be_bytes());
                d.extend(bits.to_be_bytes());
                d.extend(1000u32.to_be_bytes());
                link.recv.push_raw(BytesMut::from(&d[..]));
                for (i, id) in (0..33u16).map(|i| (i, top.wrapping_sub(i))) {
                    if (i == 0 || bits & (1 << (i - 1)) != 0)
                        && let Some((parts, _)) = flight.remove(&id)
                    {
                        acked.push(parts);
                    }
                }
            }
            let lost: Vec<u16> = flight.iter().filter(|(_, (_, at))| now - *at > timeout).map(|(id, _)| *id).collect();
            for id in lost {
                for (k, m, i) in flight.remove(&id).unwrap().0 {
                    let mode = case.chans[k].0;
                    if matches!(mode, 0 | 2) {
                        continue;
                    }
                    want_nacks[k].push(m);
                    n_loss += 1;
                    if mode == 1 {
                        msgs.get_mut(&(k, m)).unwrap().dead = true;
                    }
                    let _ = i;
                }
            }
            for (k, m, i) in acked.into_iter().flatten() {
                if matches!(case.chans[k].0, 0 | 2) {
                    continue;
                }
                let p = msgs.get_mut(&(k, m)).unwrap();
                p.acked.insert(i);
                if p.acked.len() as u64 == p.parts && !p.dead && !p.done {
                    p.done = true;
                    n_ack += 1;
                    want_acks[k].push(m);
                    if p.parts > 1 && first_frame[&(k, m)] == usize::MAX {
                        multi += 1;
                    }
                }
            }
        }
        w.run_schedule(PreUpdate);
        let mut em = w.entity_mut(entity);
        let mut t = em.get_mut::<Transport>().unwrap();
        let sorted = |v: &[MessageId]| {
            let mut v: Vec<u16> = v.iter().map(|m| m.0).collect();
            v.sort();
            v
        };
        for k in 0..case.chans.len() {
            let kind = with_ch!(k, C => ChannelKind::of::<C>());
            let cs = t.channel_send(kind).unwrap();
            want_acks[k].sort();
            want_nacks[k].sort();
            ensure_eq!(sorted(cs.message_acks()), want_acks[k], "message-ack", "step {si}: acknowledged messages of channel {k} (mode {})", case.chans[k].0);
            ensure_eq!(sorted(cs.message_nacks()), want_nacks[k], "message-nack", "step {si}: lost messages of channel {k} (mode {})", case.chans[k].0);
        }
        for (ch, len, prio) in &s.msgs {
            let k = *ch as usize % case.chans.len();
            with_ch!(k, C => { t.send_mut_with_priority::<C>(Bytes::from(vec![7; *len as usize]), *prio as f32 / 100.0).unwrap(); });
        }
        app.world_mut().run_schedule(PostUpdate);
        let mut sent_ids: Vec<Vec<u16>> = vec![vec![]; case.chans.len()];
        let mut em = app.world_mut().entity_mut(entity);
        let sent: Vec<Bytes> = em.get_mut::<Link>().unwrap().send.drain().collect();
        for b in &sent {
            let p = parse(b).map_err(|e| Fail::new("unreadable-datagram", format!("step {si}: {e}")))?;
            last = Some(p.id);
            if p.kind == 4 {
                continue;
            }
            let mut parts = vec![];
            for it in p.items {
                let (ch, id, i, n) = match it {
                    Item::Single { id: None, .. } => continue,
                    Item::Single { ch, id: Some(id), .. } => (ch, id, 0, 1),
                    Item::Frag { ch, id, idx, n, .. } => (ch, id, idx, n),
                };
                let k = wires.iter().position(|w| *w == ch).unwrap();
                sent_ids[k].push(id);
                msgs.entry((k, id)).or_default().parts = n;
                let first = first_frame.entry((k, id)).or_insert(si);
                if *first != si && *first != usize::MAX {
                    *first = usize::MAX;
                    over += 1;
                }
                parts.push((k, id, i));
            }
            flight.insert(p.id, (parts, now));
        }
        let t = em.get::<Transport>().unwrap();
        for k in 0..case.chans.len() {
            let kind = with_ch!(k, C => ChannelKind::of::<C>());
            sent_ids[k].sort();
            ensure_eq!(sorted(t.channel_send(kind).unwrap().messages_sent()), sent_ids[k], "messages-sent", "step {si}: messages sent on channel {k}");
        }
    }
    obs.count("messages acknowledged", n_ack);
    obs.count("losses reported", n_loss);
    obs.count("messages sent over several flushes", over);
    obs.count("of them acknowledged", multi);
    obs.nontrivial_if(n_ack > 0 && over > 0);
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![sub("C14", "limited", 6_000, 300_000, strategy, check)]
}
