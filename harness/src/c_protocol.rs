//! C34: a registered protocol means the same to both sides: ids, hashes, settings and directions.

use crate::c_messages::Tl;
use crate::fw::{Obs, Res as Verdict, Sub, sub};
use crate::{ensure, ensure_eq};
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_time::{Real, Time};
use bytes::Bytes;
use lightyear_connection::client::{Client, Connected, ConnectionPlugin};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::direction::NetworkDirection;
use lightyear_connection::server::Started;
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_core::prelude::LocalTimeline;
use lightyear_link::prelude::{LinkOf, Server};
use lightyear_link::{Link, Linked, recv_payload_from_bytes};
use lightyear_messages::plugin::MessagePlugin;
use lightyear_messages::prelude::*;
use lightyear_messages::registry::{MessageKind, MessageRegistry};
use lightyear_serde::reader::{ReadInteger, Reader};
use lightyear_serde::registry::SerializeFns;
use lightyear_serde::writer::{WriteInteger, Writer};
use lightyear_serde::{SerializationError, ToBytes};
use lightyear_transport::channel::ChannelKind;
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

struct Ch<const N: usize>;

/// What message and event type `N` looks like on the wire differs with `N`.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct M<const N: usize>(u32, Vec<u8>);
#[derive(Event, Serialize, Deserialize, Clone, Debug, PartialEq)]
struct E<const N: usize>(u32, Vec<u8>);

impl<const N: usize> ToBytes for M<N> {
    fn bytes_len(&self) -> usize {
        4 + self.1.bytes_len()
    }
    fn to_bytes(&self, w: &mut impl WriteInteger) -> Result<(), SerializationError> {
        w.write_u32(self.0 ^ N as u32)?;
        self.1.to_bytes(w)
    }
    fn from_bytes(r: &mut Reader) -> Result<Self, SerializationError> {
        Ok(Self(r.read_u32()? ^ N as u32, Vec::from_bytes(r)?))
    }
}

fn ser<const N: usize>(m: &E<N>, w: &mut Writer) -> Result<(), SerializationError> {
    m.1.to_bytes(w)?;
    Ok(w.write_u32(m.0 ^ (N as u32 + 7))?)
}

fn de<const N: usize>(r: &mut Reader) -> Result<E<N>, SerializationError> {
    let v = Vec::from_bytes(r)?;
    Ok(E(r.read_u32()? ^ (N as u32 + 7), v))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
enum Dir {
    ToServer,
    ToClient,
    Both,
}

impl Dir {
    fn get(self) -> NetworkDirection {
        match self {
            Dir::ToServer => NetworkDirection::ClientToServer,
            Dir::ToClient => NetworkDirection::ServerToClient,
            Dir::Both => NetworkDirection::Bidirectional,
        }
    }
    /// to the server, to the client
    fn pair(self) -> [bool; 2] {
        [self != Dir::ToClient, self != Dir::ToServer]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Reg {
    Channel { i: u8, mode: u8, freq: u8, timeline: Option<bool>, dir: Option<Dir> },
    Message { i: u8, dir: Option<Dir> },
    Event { i: u8, dir: Option<Dir> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: Vec<Reg>,
    /// what the other side registers instead: 0 the same, then an edit at this place
    edit: u8,
    at: u8,
    other: Reg,
    sends: Vec<(u8, u8, bool, u8)>,
}

const CHANS: usize = 6;
const MSGS: usize = 5;
const EVENTS: usize = 4;

macro_rules! by {
    ($i:expr, $n:ident, $f:expr) => {
        match $i {
            0 => {
                const $n: usize = 0;
                $f
            }
            1 => {
                const $n: usize = 1;
                $f
            }
            2 => {
                const $n: usize = 2;
                $f
            }
            3 => {
                const $n: usize = 3;
                $f
            }
            4 => {
                const $n: usize = 4;
                $f
            }
            _ => {
                const $n: usize = 5;
                $f
            }
        }
    };
}

fn mode(k: u8) -> ChannelMode {
    match k % 5 {
        0 => ChannelMode::UnorderedUnreliable,
        1 => ChannelMode::SequencedUnreliable,
        2 => ChannelMode::UnorderedReliable(Default::default()),
        3 => ChannelMode::SequencedReliable(Default::default()),
        _ => ChannelMode::OrderedReliable(Default::default()),
    }
}

fn settings(k: u8, freq: u8) -> ChannelSettings {
    ChannelSettings {
        mode: mode(k),
        send_frequency: Duration::from_millis(if freq % 3 == 0 { freq as u64 } else { 0 }),
        priority: 1.0 + freq as f32,
        retry_unsent_messages: freq % 2 == 0,
        ..Default::default()
    }
}

#[derive(Resource, Default)]
struct Seen(Vec<(u8, u32, Vec<u8>)>);

fn read<const N: usize>(mut q: Query<&mut MessageReceiver<M<N>>>, mut l: ResMut<Seen>) {
    for mut r in &mut q {
        l.0.extend(r.receive().map(|m| (N as u8, m.0, m.1)));
    }
}

fn register(app: &mut App, r: Reg, seen: &mut BTreeSet<u8>) {
    match r {
        Reg::Channel { i, mode, freq, timeline, dir } => by!(i, N, {
            let s = settings(mode, freq);
            let mut c = match timeline {
                None => app.add_channel::<Ch<N>>(s),
                Some(false) => app.add_channel::<Ch<N>>(s.on_timeline::<Tl<0>>()),
                Some(true) => app.add_channel::<Ch<N>>(s.on_timeline::<Tl<1>>()),
            };
            if let Some(d) = dir {
                c.add_direction(d.get());
            }
        }),
        Reg::Message { i, dir } => by!(i, N, {
            if seen.insert(100 + i) {
                app.add_systems(Update, read::<N>);
            }
            let mut m = if N % 2 == 0 { app.register_message::<M<N>>() } else { app.register_message_to_bytes::<M<N>>() };
            if let Some(d) = dir {
                m.add_direction(d.get());
            }
        }),
        Reg::Event { i, dir } => by!(i, N, {
            if seen.insert(i) {
                app.add_observer(|e: On<RemoteEvent<E<N>>>, mut l: ResMut<Seen>| l.0.push((10 + N as u8, e.trigger.0, e.trigger.1.clone())));
            }
            let mut e = if N % 2 == 0 {
                app.register_event::<E<N>>()
            } else {
                app.register_event_custom_serde::<E<N>>(SerializeFns { serialize: ser::<N>, deserialize: de::<N> })
            };
            if let Some(d) = dir {
                e.add_direction(d.get());
            }
        }),
    }
}

fn new_app(regs: &[Reg]) -> App {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.insert_resource(Time::<Real>::default());
    app.init_resource::<LocalTimeline>();
    app.init_resource::<ChannelRegistry>();
    app.init_resource::<MessageRegistry>();
    app.init_resource::<Seen>();
    app.add_plugins((ConnectionPlugin, TransportPlugin));
    let mut seen = BTreeSet::new();
    for r in regs {
        register(&mut app, *r, &mut seen);
    }
    app.add_plugins(MessagePlugin);
    app.finish();
    app
}

/// First registrations, in order, and directions of everything.
#[derive(Default)]
struct Model {
    chans: Vec<(u8, ChannelSettings, Option<bool>)>,
    /// messages, and events plus 10
    kinds: Vec<u8>,
    dirs: BTreeMap<(bool, u8), [bool; 2]>,
}

fn model(regs: &[Reg]) -> Model {
    let mut m = Model::default();
    for r in regs {
        let (key, dir) = match *r {
            Reg::Channel { i, mode, freq, timeline, dir } => {
                if m.chans.iter().all(|c| c.0 != i) {
                    m.chans.push((i, settings(mode, freq), timeline));
                }
                ((true, i), dir)
            }
            Reg::Message { i, dir } => {
                if !m.kinds.contains(&i) {
                    m.kinds.push(i);
                }
                ((false, i), dir)
            }
            Reg::Event { i, dir } => {
                if !m.kinds.contains(&(10 + i)) {
                    m.kinds.push(10 + i);
                }
                ((false, 10 + i), dir)
            }
        };
        let d = m.dirs.entry(key).or_default();
        if let Some(x) = dir {
            *d = [d[0] || x.pair()[0], d[1] || x.pair()[1]];
        }
    }
    m
}

fn message_kind(k: u8) -> MessageKind {
    if k < 10 { by!(k, N, MessageKind::of::<M<N>>()) } else { by!(k - 10, N, MessageKind::of::<E<N>>()) }
}

fn has_sender(w: &World, e: Entity, k: u8) -> bool {
    if k < 10 {
        by!(k, N, w.entity(e).contains::<MessageSender<M<N>>>())
    } else {
        by!(k - 10, N, w.entity(e).contains::<EventSender<E<N>>>())
    }
}

fn check_registry(app: &App, m: &Model, who: &str) -> Verdict {
    let r = app.world().resource::<ChannelRegistry>();
    for (id, (i, s, tl)) in m.chans.iter().enumerate() {
        let kind = by!(*i, N, ChannelKind::of::<Ch<N>>());
        ensure_eq!(r.get_net_from_kind(&kind).copied(), Some(id as u16), "channel-id", "{who}: channel {i}");
        ensure_eq!(r.get_kind_from_net_id(id as u16).copied(), Some(kind), "channel-kind", "{who}: id {id}");
        let got = *r.settings(kind).unwrap();
        ensure_eq!(got.timeline.is_some(), tl.is_some(), "channel-timeline", "{who}: channel {i}");
        ensure_eq!(ChannelSettings { timeline: None, ..got }, *s, "channel-settings", "{who}: channel {i}");
        let name = by!(*i, N, std::any::type_name::<Ch<N>>());
        ensure_eq!((r.get_name_from_kind(&kind), r.get_name_from_net_id(id as u16)), (name, name), "channel-name", "{who}: channel {i}");
    }
    for i in 0..CHANS as u8 {
        let kind = by!(i, N, ChannelKind::of::<Ch<N>>());
        let known = m.chans.iter().any(|c| c.0 == i);
        ensure_eq!((r.settings(kind).is_some(), r.get_net_from_kind(&kind).is_some()), (known, known), "channel-known", "{who}: channel {i}");
    }
    let n = m.chans.len() as u16;
    ensure!(r.get_kind_from_net_id(n).is_none() && r.get_kind_from_net_id(u16::MAX).is_none(), "channel-known", "{who}: unknown ids");
    let r = app.world().resource::<MessageRegistry>();
    for (id, k) in m.kinds.iter().enumerate() {
        let kind = message_kind(*k);
        ensure_eq!(r.kind_map.net_id(&kind).copied(), Some(id as u16), "message-id", "{who}: kind {k}");
        ensure_eq!(r.kind_map.kind(id as u16).copied(), Some(kind), "message-kind", "{who}: id {id}");
    }
    for i in 0..MSGS as u8 {
        let known = by!(i, N, app.is_message_registered::<M<N>>());
        ensure_eq!(known, m.kinds.contains(&i), "message-known", "{who}: message {i}");
    }
    ensure!(r.kind_map.kind(m.kinds.len() as u16).is_none(), "message-known", "{who}: unknown id");
    Ok(())
}

/// The channels a side may send on, and the messages and events it has a sender for.
fn check_directions(app: &App, e: Entity, m: &Model, to: usize, who: &str) -> Verdict {
    let w = app.world();
    let t = w.get::<Transport>(e).unwrap();
    for i in 0..CHANS as u8 {
        let want = m.dirs.get(&(true, i)).is_some_and(|d| d[to]);
        let got = by!(i, N, t.has_channel_send::<Ch<N>>());
        ensure_eq!(got, want, "channel-direction", "{who}: channel {i} as a sender");
        let want = m.dirs.get(&(true, i)).is_some_and(|d| d[1 - to]);
        let got = by!(i, N, t.has_channel_receive::<Ch<N>>());
        ensure_eq!(got, want, "channel-direction", "{who}: channel {i} as a receiver");
    }
    for k in (0..MSGS as u8).chain(10..10 + EVENTS as u8) {
        let want = m.dirs.get(&(false, k)).is_some_and(|d| d[to]);
        ensure_eq!(has_sender(w, e, k), want, "message-direction", "{who}: kind {k}");
    }
    Ok(())
}

fn run(c: &Case, obs: &mut Obs) -> Verdict {
    let mut b = c.a.clone();
    if !b.is_empty() {
        let at = c.at as usize % b.len();
        match c.edit % 6 {
            1 => drop(b.remove(at)),
            2 => b.swap(at, 0),
            3 => b.insert(at, c.other),
            4 => b[at] = c.other,
            _ => {}
        }
    }
    let (ma, mb) = (model(&c.a), model(&b));
    let mut apps = [new_app(&c.a), new_app(&b)];
    check_registry(&apps[0], &ma, "client")?;
    check_registry(&apps[1], &mb, "server")?;
    let client = apps[0].world_mut().spawn((Client, Link::default(), Linked, Transport::default(), RemoteId(PeerId::Server), Connected)).id();
    let server = apps[1].world_mut().spawn((Server::default(), Started)).id();
    let client_of = apps[1]
        .world_mut()
        .spawn((LinkOf { server }, ClientOf, Link::default(), Linked, Transport::default(), RemoteId(PeerId::Netcode(1)), Connected))
        .id();
    for a in &mut apps {
        a.world_mut().flush();
    }
    check_directions(&apps[0], client, &ma, 0, "client")?;
    check_directions(&apps[1], client_of, &mb, 1, "server")?;
    obs.label_if(c.a != b, "different registrations");
    if c.a == b {
        // both sides registered the same: everything the directions permit arrives as what it is
        let ends = [client, client_of];
        let mut want: [Vec<(u8, u32, Vec<u8>)>; 2] = [vec![], vec![]];
        let mut reliable = BTreeSet::new();
        for (n, (ch, k, to_client, len)) in c.sends.iter().enumerate() {
            if ma.chans.is_empty() || ma.kinds.is_empty() {
                break;
            }
            let to = *to_client as usize;
            let (i, s, tl) = ma.chans[*ch as usize % ma.chans.len()];
            let k = ma.kinds[*k as usize % ma.kinds.len()];
            if tl.is_some() || !ma.dirs[&(true, i)][to] || !ma.dirs[&(false, k)][to] {
                continue;
            }
            // sequenced channels keep only the newest, so one message each
            if matches!(s.mode, ChannelMode::SequencedUnreliable | ChannelMode::SequencedReliable(_)) && !reliable.insert((i, to)) {
                continue;
            }
            let w = apps[to].world_mut();
            let (uid, data) = (n as u32 * 31 + 5, vec![n as u8; *len as usize]);
            let mut e = w.entity_mut(ends[to]);
            by!(i, C, {
                if k < 10 {
                    by!(k, N, e.get_mut::<MessageSender<M<N>>>().unwrap().send::<Ch<C>>(M(uid, data.clone())))
                } else {
                    by!(k - 10, N, e.get_mut::<EventSender<E<N>>>().unwrap().trigger::<Ch<C>>(E(uid, data.clone())))
                }
            });
            want[1 - to].push((k, uid, data));
        }
        let mut got: [Vec<(u8, u32, Vec<u8>)>; 2] = [vec![], vec![]];
        for _ in 0..6 {
            crate::util::clock_advance(Duration::from_millis(300));
            for s in 0..2 {
                apps[s].world_mut().resource_mut::<Time<Real>>().advance_by(Duration::from_millis(300));
                apps[s].update();
                let sent: Vec<Bytes> = apps[s].world_mut().get_mut::<Link>(ends[s]).unwrap().send.drain().collect();
                let mut l = apps[1 - s].world_mut().get_mut::<Link>(ends[1 - s]).unwrap();
                for p in sent {
                    l.recv.push_raw(recv_payload_from_bytes(p));
                }
            }
            for s in 0..2 {
                let w = apps[s].world_mut();
                let events = std::mem::take(&mut w.resource_mut::<Seen>().0);
                got[s].extend(events);
            }
        }
        // messages nobody read in a frame are cleared, so they are read by systems of the app
        for s in 0..2 {
            let mut a: Vec<_> = got[s].clone();
            let mut b = want[s].clone();
            a.sort();
            b.sort();
            ensure_eq!(a, b, "delivery", "received by the {} differs from what was sent", if s == 0 { "client" } else { "server" });
            obs.count("delivered", a.len() as u64);
            obs.nontrivial_if(!a.is_empty());
        }
    } else {
        obs.nontrivial();
    }
    let hash = |a: &mut App| (a.world_mut().resource_mut::<ChannelRegistry>().finish(), a.world_mut().resource_mut::<MessageRegistry>().finish());
    let (ha, hb) = (hash(&mut apps[0]), hash(&mut apps[1]));
    ensure_eq!(hash(&mut apps[0]), ha, "hash", "the hash changes between calls");
    let chans = |m: &Model| m.chans.iter().map(|c| (c.0, c.2)).collect::<Vec<_>>();
    ensure_eq!(ha.0 == hb.0, chans(&ma) == chans(&mb), "channel-hash", "{:?} and {:?}", chans(&ma), chans(&mb));
    if ma.kinds != mb.kinds {
        ensure!(ha.1 != hb.1, "message-hash", "{:?} and {:?} have one hash", ma.kinds, mb.kinds);
    }
    let msgs = |r: &[Reg]| r.iter().filter(|r| !matches!(r, Reg::Channel { .. })).map(|r| match r { Reg::Message { i, .. } => *i, Reg::Event { i, .. } => 10 + i, _ => 0 }).collect::<Vec<_>>();
    if msgs(&c.a) == msgs(&b) {
        ensure!(ha.1 == hb.1, "message-hash", "{:?} has two hashes", msgs(&b));
    }
    Ok(())
}

fn case() -> BoxedStrategy<Case> {
    let dir = || proptest::option::weighted(0.85, prop_oneof![1 => Just(Dir::ToServer), 1 => Just(Dir::ToClient), 2 => Just(Dir::Both)]);
    let reg = move || {
        prop_oneof![
            4 => (0u8..CHANS as u8, 0u8..5, 0u8..12, proptest::option::weighted(0.2, any::<bool>()), dir())
                .prop_map(|(i, mode, freq, timeline, dir)| Reg::Channel { i, mode, freq, timeline, dir }),
            4 => (0u8..MSGS as u8, dir()).prop_map(|(i, dir)| Reg::Message { i, dir }),
            3 => (0u8..EVENTS as u8, dir()).prop_map(|(i, dir)| Reg::Event { i, dir }),
        ]
    };
    (vec(reg(), 1..16), prop_oneof![2 => Just(0u8), 1 => 0u8..6], any::<u8>(), reg(), vec((any::<u8>(), any::<u8>(), any::<bool>(), any::<u8>()), 0..24))
        .prop_map(|(a, edit, at, other, sends)| Case { a, edit, at, other, sends })
        .boxed()
}

pub fn subs() -> Vec<Sub> {
    vec![sub("C34", "protocol", 8_000, 120_000, case, run)]
}
