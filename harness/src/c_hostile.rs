//! C15: malformed and forged datagrams.

use crate::fw::{Obs, Res, Sub, sub};
use crate::sim::{Ch, with_ch};
use crate::util::{put_varint, with_alloc_limit};
use crate::{ensure, ensure_eq};
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_time::{Real, Time};
use bytes::{Bytes, BytesMut};
use lightyear_connection::prelude::NetworkingMetadata;
use lightyear_core::prelude::LocalTimeline;
use lightyear_link::{Link, LinkMtu, Linked};
use lightyear_transport::packet::fragment_size_for_min_mtu;
use lightyear_transport::plugin::{PacketReceived, TransportPlugin};
use lightyear_transport::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

const MTU: usize = 200;
const MAX_DECOMPRESSED: usize = 4096;
const ALLOC: usize = 256 * 1024;
const BAD: u8 = 0xee;
const BAD_TICK: u32 = 1 << 24;

/// Content of a well-formed datagram.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum It {
    /// channel 0..6 (0 unordered unreliable, 1 with acks, 2 sequenced, 3 reliable unordered,
    /// 4 reliable sequenced, 5 reliable ordered), message id (where there is one), length
    Single(u8, u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum D {
    Singles(Vec<It>),
    /// channel, message id, length in fragments, which fragment, trailing singles
    Frag(u8, u16, u8, u8, Vec<It>),
    /// header cut short or of an unknown type
    BadHeader(u8, Vec<u8>),
    /// a datagram that only carries marked messages, broken in its body
    BadBody(u8, Vec<It>, u16, Vec<u8>),
    /// impossible fragment: kind, channel, claimed index and count, payload length
    BadFrag(u8, u8, u64, u64, u16),
    /// well-formed, then damaged: (position, xor)
    Damaged(Box<D>, Vec<(u16, u8)>, Option<u16>),
    Noise(u8, Vec<u8>),
    /// compressed type with a forged size
    Bomb(u8, u32, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    lz4: bool,
    acks: Vec<(u16, u32)>,
    frames: Vec<(u16, Vec<D>)>,
}

fn items(chans: &'static [u8]) -> impl Strategy<Value = Vec<It>> {
    vec((proptest::sample::select(chans), 0u16..12, 1u16..30).prop_map(|(c, i, l)| It::Single(c, i, l)), 1..5)
}

const ALL: &[u8] = &[0, 1, 2, 3, 4, 5];
const FREE: &[u8] = &[0, 1, 3, 5];

fn good() -> impl Strategy<Value = D> {
    prop_oneof![
        3 => items(ALL).prop_map(D::Singles),
        2 => (0u8..6, 0u16..12, 2u8..6, any::<u8>(), prop_oneof![3 => Just(vec![]), 1 => items(ALL)])
            .prop_map(|(c, i, n, k, t)| D::Frag(c, i, n, k % n, t)),
    ]
}

fn bad() -> impl Strategy<Value = D> {
    prop_oneof![
        2 => (0u8..14, vec(any::<u8>(), 0..40)).prop_map(|(k, b)| D::BadHeader(k, b)),
        3 => (0u8..6, items(FREE), any::<u16>(), vec(any::<u8>(), 0..20)).prop_map(|(k, i, c, b)| D::BadBody(k, i, c, b)),
        2 => (0u8..4, 0u8..6, prop_oneof![0u64..10, any::<u64>().prop_map(|v| v >> 2), 1u64 << 20..1 << 40], prop_oneof![0u64..10, any::<u64>().prop_map(|v| v >> 2), 1u64 << 20..1 << 40], 0u16..400)
            .prop_map(|(k, c, i, n, l)| D::BadFrag(k, c, i, n, l)),
        1 => (2u8..4, prop_oneof![Just(u32::MAX), 4097u32..10_000, any::<u32>()], vec(any::<u8>(), 0..60)).prop_map(|(k, s, b)| D::Bomb(k, s, b)),
    ]
}

fn hostile() -> impl Strategy<Value = D> {
    prop_oneof![
        3 => bad(),
        4 => (good(), vec((any::<u16>(), any::<u8>()), 0..6), proptest::option::of(any::<u16>())).prop_map(|(d, f, c)| D::Damaged(Box::new(d), f, c)),
        2 => (0u8..6, vec(any::<u8>(), 0..300)).prop_map(|(k, b)| D::Noise(k, b)),
    ]
}

fn case(f: BoxedStrategy<D>) -> BoxedStrategy<Case> {
    (any::<bool>(), vec((any::<u16>(), any::<u32>()), 1..4), vec((0u16..2000, vec(f, 0..8)), 1..8))
        .prop_map(|(lz4, acks, frames)| Case { lz4, acks, frames })
        .boxed()
}

fn single(out: &mut Vec<u8>, ch: u8, id: u16, payload: &[u8]) {
    if ch == 0 {
        out.push(0);
    } else {
        out.push(1);
        out.extend_from_slice(&id.to_be_bytes());
    }
    put_varint(out, payload.len() as u64);
    out.extend_from_slice(payload);
}

/// Content of message `id` on a channel: good messages with the same id are equal.
fn content(ch: u8, id: u16, len: usize, marked: bool) -> Vec<u8> {
    let mut p = vec![if marked { BAD } else { 1 }, ch, id as u8, len as u8];
    p.resize(len.max(4), id as u8 ^ 0x35);
    p
}

fn len_of(ch: u8, id: u16, len: u16) -> usize {
    // the id determines the message, except where there is no id
    if ch == 0 { 4 + len as usize } else { 4 + (id as usize * 7) % 30 }
}

fn singles(out: &mut Vec<u8>, wires: &[u16], its: &[It], marked: bool) {
    for It::Single(c, id, l) in its {
        let id = if marked { *id + 20_000 } else { *id };
        put_varint(out, wires[*c as usize] as u64);
        out.push(1);
        single(out, *c, id, &content(*c, id, len_of(*c, id, *l), marked));
    }
}

fn encode(d: &D, wires: &[u16], seq: u16, tick: u32, ack: (u16, u32), frag: usize) -> Vec<u8> {
    let header = |kind: u8, tick: u32| {
        let mut o = vec![kind];
        o.extend_from_slice(&seq.to_be_bytes());
        o.extend_from_slice(&ack.0.to_be_bytes());
        o.extend_from_slice(&ack.1.to_be_bytes());
        o.extend_from_slice(&tick.to_be_bytes());
        o
    };
    match d {
        D::Singles(its) => {
            let mut o = header(0, tick);
            singles(&mut o, wires, its, false);
            o
        }
        D::Frag(c, id, n, k, its) => {
            // fragmented messages have ids of their own, one length each
            let (id, n) = (*id + 100, 2 + (*id % 4) as u8 + 0 * *n);
            let k = *k % n;
            let len = frag * (n as usize - 1) + 1 + (id as usize * 5) % frag;
            let whole = content(*c, id, len, false);
            let mut o = header(1, tick);
            put_varint(&mut o, wires[*c as usize] as u64);
            o.extend_from_slice(&id.to_be_bytes());
            put_varint(&mut o, k as u64);
            put_varint(&mut o, n as u64);
            if k == 0 {
                o.push(0);
            }
            let part = &whole[k as usize * frag..whole.len().min((k as usize + 1) * frag)];
            put_varint(&mut o, part.len() as u64);
            o.extend_from_slice(part);
            singles(&mut o, wires, its, false);
            o
        }
        D::BadHeader(k, b) => {
            let full = header(0, tick);
            if (*k as usize) < 13 {
                full[..*k as usize].to_vec()
            } else {
                let mut o = header(5 + b.len() as u8 % 250, tick);
                o.extend_from_slice(b);
                o
            }
        }
        D::BadBody(k, its, cut, b) => {
            let mut o = header(0, tick | BAD_TICK);
            match k {
                0 | 1 => {
                    // cut short inside the last message
                    singles(&mut o, wires, its, true);
                    let It::Single(c, i, l) = its.last().unwrap();
                    let last = len_of(*c, *i + 20_000, *l);
                    let keep = o.len() - 1 - *cut as usize % last;
                    o.truncate(keep);
                }
                2 => {
                    // a channel that does not exist
                    singles(&mut o, wires, its, true);
                    put_varint(&mut o, 7000 + *cut as u64 % 9000);
                    o.push(1);
                    single(&mut o, 1, 3, b);
                }
                3 => {
                    // more messages announced than there are
                    put_varint(&mut o, wires[0] as u64);
                    o.push(2 + (*cut % 253) as u8);
                    single(&mut o, 0, 0, &content(0, 0, 5, true));
                }
                4 => {
                    // length beyond the end
                    singles(&mut o, wires, its, true);
                    put_varint(&mut o, wires[0] as u64);
                    o.push(1);
                    o.push(0);
                    put_varint(&mut o, b.len() as u64 + 1 + ((*cut as u64) << (*cut % 40)));
                    o.extend_from_slice(b);
                }
                _ => {
                    // not decompressible
                    o[0] = 2;
                    o.extend_from_slice(&b[..b.len().min(3)]);
                }
            }
            o
        }
        D::BadFrag(k, c, i, n, l) => {
            let mut o = header(1, tick | BAD_TICK);
            // channels on which the id of a dropped fragment has no meaning for other messages
            let c = FREE[*c as usize % FREE.len()];
            let (i, n, len) = match k {
                0 => (*i, 0, *l as usize),
                1 => (i.max(n) + 0, *n.min(i), *l as usize),
                // wrong size of a fragment that is not the last
                2 => (0, (*n).max(2), if *l as usize == frag { frag - 1 } else { *l as usize }),
                // oversized last fragment
                _ => (n.max(&1) - 1, *n.max(&1), frag + 1 + *l as usize),
            };
            put_varint(&mut o, wires[c as usize] as u64);
            o.extend_from_slice(&(21_000 + (i % 500) as u16).to_be_bytes());
            put_varint(&mut o, i);
            put_varint(&mut o, n);
            if i == 0 {
                o.push(0);
            }
            put_varint(&mut o, len as u64);
            o.extend(std::iter::repeat_n(BAD, len));
            o
        }
        D::Damaged(d, flips, cut) => {
            let mut o = encode(d, wires, seq, tick, ack, frag);
            for (p, x) in flips {
                let n = o.len();
                if n > 0 {
                    o[*p as usize % n] ^= x;
                }
            }
            if let Some(c) = cut {
                o.truncate(*c as usize % (o.len() + 1));
            }
            o
        }
        D::Noise(k, b) => {
            let mut o = header(*k, tick);
            o.extend_from_slice(b);
            o
        }
        D::Bomb(k, size, b) => {
            let mut o = header(*k, tick | BAD_TICK);
            o.extend_from_slice(&size.max(&(MAX_DECOMPRESSED as u32 + 1)).to_le_bytes());
            o.extend_from_slice(b);
            o
        }
    }
}

#[derive(Resource, Default)]
struct Ticks(Vec<u32>);

struct Rig {
    app: App,
    entity: Entity,
    wires: Vec<u16>,
}

fn rig(lz4: bool) -> Rig {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin {
        task_pool_options: TaskPoolOptions::with_num_threads(1),
    });
    app.insert_resource(Time::<Real>::default());
    app.init_resource::<LocalTimeline>();
    app.init_resource::<ChannelRegistry>();
    app.init_resource::<NetworkingMetadata>();
    app.init_resource::<Ticks>();
    app.add_plugins(TransportPlugin);
    app.add_observer(|e: On<PacketReceived>, mut l: ResMut<Ticks>| l.0.push(e.remote_tick.0));
    let mut t = Transport::default();
    if lz4 {
        t.set_compression(CompressionConfig {
            max_decompressed_payload_size: MAX_DECOMPRESSED,
            ..CompressionConfig::LZ4
        });
    }
    let wires: Vec<u16> = vec![3, 4, 70, 71, 20_000, 9];
    for i in 0..6 {
        let r = ReliableSettings::default();
        let settings = ChannelSettings {
            mode: match i {
                0 => ChannelMode::UnorderedUnreliable,
                1 => ChannelMode::UnorderedUnreliableWithAcks,
                2 => ChannelMode::SequencedUnreliable,
                3 => ChannelMode::UnorderedReliable(r),
                4 => ChannelMode::SequencedReliable(r),
                _ => ChannelMode::OrderedReliable(r),
            },
            ..Default::default()
        };
        with_ch!(i, C => {
            t.add_channel_send::<C>(settings, wires[i]);
            t.add_channel_receive::<C>(settings, wires[i]);
        });
    }
    app.finish();
    app.cleanup();
    let entity = app
        .world_mut()
        .spawn((Link::default().with_mtu(LinkMtu::new(MTU)), Linked, t))
        .id();
    Rig { app, entity, wires }
}

type Delivered = Vec<Vec<(u32, Bytes)>>;

impl Rig {
    /// One frame; returns what every channel delivered and the ticks of the packets announced.
    fn frame(&mut self, dt_ms: u16, data: &[Vec<u8>], send: bool) -> (Delivered, Vec<u32>) {
        let w = self.app.world_mut();
        w.resource_mut::<Time<Real>>().advance_by(Duration::from_millis(dt_ms as u64));
        w.resource_mut::<Ticks>().0.clear();
        {
            let mut em = w.entity_mut(self.entity);
            let mut link = em.get_mut::<Link>().unwrap();
            for d in data {
                link.recv.push_raw(BytesMut::from(&d[..]));
            }
        }
        with_alloc_limit(ALLOC, || w.run_schedule(PreUpdate));
        let mut out = vec![];
        {
            let mut em = w.entity_mut(self.entity);
            let mut t = em.get_mut::<Transport>().unwrap();
            for wire in &self.wires {
                let c = t.channel_receive_mut(*wire).unwrap();
                let mut l = vec![];
                while let Some((tick, b, _)) = c.read_message() {
                    l.push((tick.0, b));
                }
                out.push(l);
            }
            if send {
                for i in 0..6 {
                    with_ch!(i, C => { t.send_mut::<C>(Bytes::from(vec![7; 60 + 40 * i])).unwrap(); });
                }
            }
        }
        if send {
            w.run_schedule(PostUpdate);
            let mut em = w.entity_mut(self.entity);
            let _ = em.get_mut::<Link>().unwrap().send.drain().count();
        }
        (out, w.resource::<Ticks>().0.clone())
    }
}

fn is_bad(d: &D) -> bool {
    !matches!(d, D::Singles(_) | D::Frag(..))
}

fn isolation(case: &Case, obs: &mut Obs) -> Res {
    let frag = fragment_size_for_min_mtu(MTU).unwrap();
    let (mut a, mut b) = (rig(case.lz4), rig(case.lz4));
    let (mut seq, mut tick) = (0u16, 5u32);
    let (mut n_bad, mut n_good, mut n_del) = (0, 0, 0);
    for (fi, (dt, ds)) in case.frames.iter().enumerate() {
        let (mut all, mut clean) = (vec![], vec![]);
        for d in ds {
            seq += 1;
            tick += 1;
            let e = encode(d, &a.wires, seq, tick, (u16::MAX, 0), frag);
            if is_bad(d) {
                n_bad += 1;
            } else {
                n_good += 1;
                clean.push(e.clone());
            }
            all.push(e);
        }
        let (mut got, ticks) = a.frame(*dt, &all, false);
        let (want, want_ticks) = b.frame(*dt, &clean, false);
        for l in &mut got {
            l.retain(|(t, m)| !(t & BAD_TICK != 0 && m.first() == Some(&BAD)));
        }
        n_del += got.iter().map(|l| l.len()).sum::<usize>();
        for (k, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure_eq!(g, w, "disturbed", "frame {fi}, channel {k}: deliveries with and without the malformed datagrams");
        }
        let ticks: Vec<u32> = ticks.into_iter().filter(|t| t & BAD_TICK == 0).collect();
        ensure_eq!(ticks, want_ticks, "packets-announced", "frame {fi}: PacketReceived with and without the malformed datagrams");
    }
    obs.count("malformed", n_bad);
    obs.count("well-formed", n_good);
    obs.count("delivered", n_del as u64);
    obs.nontrivial_if(n_bad > 0 && n_del > 0);
    Ok(())
}

fn survival(case: &Case, obs: &mut Obs) -> Res {
    let frag = fragment_size_for_min_mtu(MTU).unwrap();
    let mut a = rig(case.lz4);
    let (mut seq, mut tick) = (0u16, 5u32);
    let mut bytes = 0;
    for (fi, (dt, ds)) in case.frames.iter().enumerate() {
        let mut all = vec![];
        for (i, d) in ds.iter().enumerate() {
            seq = seq.wrapping_add(1);
            tick += 1;
            // acknowledgements around what was really sent, and anything else
            let mut ack = case.acks[i % case.acks.len()];
            if ack.0 % 3 != 0 {
                ack.0 = (ack.0 % 16).wrapping_add(fi as u16 * 8).wrapping_sub(4);
            }
            let e = encode(d, &a.wires, seq, tick, ack, frag);
            bytes += e.len();
            all.push(e);
        }
        // a last, valid datagram
        seq = seq.wrapping_add(1);
        tick += 1;
        let mut good = encode(&D::Singles(vec![]), &a.wires, seq, tick, (u16::MAX, 0), frag);
        let payload = [0xabu8, fi as u8, 0xcd, 0xef, 0x17];
        put_varint(&mut good, a.wires[0] as u64);
        good.push(1);
        single(&mut good, 0, 0, &payload);
        all.push(good);
        let (got, ticks) = a.frame(*dt, &all, true);
        ensure!(
            got[0].iter().any(|(t, b)| *t == tick && b[..] == payload),
            "valid-datagram-lost",
            "frame {fi}: the valid datagram after {} hostile ones is not delivered", ds.len()
        );
        ensure!(ticks.last() == Some(&tick), "packets-announced", "frame {fi}: the valid datagram is not announced");
        let total: usize = got.iter().flatten().map(|(_, b)| b.len()).sum();
        ensure!(
            total <= 1 << 20,
            "too-much-delivered",
            "frame {fi}: {total} bytes of messages delivered"
        );
    }
    obs.count("hostile bytes", bytes as u64);
    obs.nontrivial_if(bytes > 20);
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C15", "isolation", 24_000, 2_000_000, || case(prop_oneof![2 => good(), 1 => bad()].boxed()), isolation),
        sub("C15", "survival", 24_000, 2_000_000, || case(hostile().boxed()), survival),
    ]
}
