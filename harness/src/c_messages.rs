//! Typed messages and events between a server, its clients and a host client:
//! C18 delivery and targets, C19 timeline-gated delivery, C20 host-client delivery.

use crate::fw::{Fail, Obs, Res, Sub, sub};
use crate::util::put_varint;
use crate::{ensure, ensure_eq};
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::entity::{Entity, EntityGeneration, EntityIndex, EntityMapper, MapEntities};
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::{ScheduleLabel, SingleThreadedExecutor};
use bevy_ecs::system::SystemState;
use bevy_time::{Real, Time};
use bytes::Bytes;
use lightyear_connection::client::{Client, Connect, Connected, ConnectionPlugin, Disconnect, Disconnected};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::direction::NetworkDirection;
use lightyear_connection::host::{HostClient, HostPlugin};
use lightyear_connection::network_target::{NetworkTarget, Target};
use lightyear_connection::server::Started;
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_core::prelude::{LocalTimeline, NetworkTimeline, Tick};
use lightyear_core::time::{Overstep, TickDelta, TickInstant};
use lightyear_core::timeline::{TimelineConfig, TimelineSystems};
use lightyear_link::prelude::{LinkOf, Server};
use lightyear_link::{Link, Linked, recv_payload_from_bytes};
use lightyear_messages::multi::MultiMessageSender;
use lightyear_messages::plugin::MessagePlugin;
use lightyear_messages::prelude::*;
use lightyear_serde::reader::{ReadInteger, Reader};
use lightyear_serde::registry::SerializeFns;
use lightyear_serde::writer::{WriteInteger, Writer};
use lightyear_serde::{SerializationError, ToBytes};
use lightyear_transport::channel::ChannelKind;
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::time::Duration;

// ---------------------------------------------------------------------------- the protocol

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Body {
    uid: u64,
    data: Vec<u8>,
    ents: Vec<Entity>,
    /// 1: cannot be encoded, 2: cannot be decoded (fallible kinds only)
    fail: u8,
}

/// 0 serde, 1 bytes, 2 serde with entity mapping, 3 fallible bytes with entity mapping
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct M<const N: usize>(Body);
/// 0 serde, 1 bytes with entity mapping, 2 fallible bytes
#[derive(Event, Serialize, Deserialize, Clone, Debug, PartialEq)]
struct E<const N: usize>(Body);

impl Body {
    fn write(&self, w: &mut impl WriteInteger) -> Result<(), SerializationError> {
        w.write_u64(self.uid)?;
        w.write_varint(self.data.len() as u64)?;
        for b in &self.data {
            w.write_u8(*b)?;
        }
        if self.fail == 1 {
            return Err(SerializationError::InvalidValue);
        }
        w.write_u8(self.fail)?;
        w.write_varint(self.ents.len() as u64)?;
        for e in &self.ents {
            e.to_bytes(w)?;
        }
        Ok(())
    }
    fn read(r: &mut Reader) -> Result<Self, SerializationError> {
        use lightyear_serde::reader::ReadVarInt;
        let uid = r.read_u64()?;
        let n = r.read_varint()?;
        let mut data = vec![];
        for _ in 0..n {
            data.push(r.read_u8()?);
        }
        let fail = r.read_u8()?;
        if fail == 2 {
            return Err(SerializationError::InvalidValue);
        }
        let n = r.read_varint()?;
        let mut ents = vec![];
        for _ in 0..n {
            ents.push(Entity::from_bytes(r)?);
        }
        Ok(Body { uid, data, ents, fail })
    }
}

macro_rules! wrappers {
    ($($t:ident),*) => {$(
        impl<const N: usize> MapEntities for $t<N> {
            fn map_entities<X: EntityMapper>(&mut self, m: &mut X) {
                for e in &mut self.0.ents {
                    *e = m.get_mapped(*e);
                }
            }
        }
        impl<const N: usize> ToBytes for $t<N> {
            fn bytes_len(&self) -> usize {
                let mut w = Writer::default();
                let _ = self.0.write(&mut w);
                w.len()
            }
            fn to_bytes(&self, w: &mut impl WriteInteger) -> Result<(), SerializationError> {
                self.0.write(w)
            }
            fn from_bytes(r: &mut Reader) -> Result<Self, SerializationError> {
                Body::read(r).map($t)
            }
        }
    )*};
}
wrappers!(M, E);

fn ser_m(m: &M<3>, w: &mut Writer) -> Result<(), SerializationError> {
    m.0.write(w)
}
fn de_m(r: &mut Reader) -> Result<M<3>, SerializationError> {
    Body::read(r).map(M)
}
fn ser_e(m: &E<2>, w: &mut Writer) -> Result<(), SerializationError> {
    m.0.write(w)
}
fn de_e(r: &mut Reader) -> Result<E<2>, SerializationError> {
    Body::read(r).map(E)
}

/// Message kinds 0..4, event kinds 4..7.
const KINDS: u8 = 7;
fn mapped(kind: u8) -> bool {
    matches!(kind, 2 | 3 | 5)
}
fn fallible(kind: u8) -> bool {
    matches!(kind, 3 | 6)
}

macro_rules! with_m {
    ($n:expr, $t:ident => $e:expr) => {
        match $n {
            0 => { type $t = M<0>; $e }
            1 => { type $t = M<1>; $e }
            2 => { type $t = M<2>; $e }
            _ => { type $t = M<3>; $e }
        }
    };
}
macro_rules! with_e {
    ($n:expr, $t:ident => $e:expr) => {
        match $n {
            4 => { type $t = E<0>; $e }
            5 => { type $t = E<1>; $e }
            _ => { type $t = E<2>; $e }
        }
    };
}

struct Chan<const N: usize>;
const CHANS: u8 = 8;
macro_rules! with_c {
    ($n:expr, $c:ident => $e:expr) => {
        match $n {
            0 => { type $c = Chan<0>; $e }
            1 => { type $c = Chan<1>; $e }
            2 => { type $c = Chan<2>; $e }
            3 => { type $c = Chan<3>; $e }
            4 => { type $c = Chan<4>; $e }
            5 => { type $c = Chan<5>; $e }
            6 => { type $c = Chan<6>; $e }
            _ => { type $c = Chan<7>; $e }
        }
    };
}
fn timeline_of(ch: u8) -> Option<usize> {
    match ch {
        5 | 6 => Some(0),
        7 => Some(1),
        _ => None,
    }
}
fn ordered(ch: u8) -> bool {
    matches!(ch, 4 | 5)
}
fn sequenced(ch: u8) -> bool {
    matches!(ch, 1 | 3)
}

#[derive(Component)]
pub struct TlCfg<const N: usize>;
#[derive(Component, Default)]
pub struct Tl<const N: usize>(TickInstant);
impl<const N: usize> TimelineConfig for TlCfg<N> {
    type Context = ();
    type Timeline = Tl<N>;
}
impl<const N: usize> NetworkTimeline for Tl<N> {
    type Config = TlCfg<N>;
    fn now(&self) -> TickInstant {
        self.0
    }
    fn tick(&self) -> Tick {
        self.0.tick()
    }
    fn overstep(&self) -> Overstep {
        self.0.overstep()
    }
    fn set_now(&mut self, now: TickInstant) {
        self.0 = now;
    }
    fn apply_delta(&mut self, delta: TickDelta) {
        self.0 = self.0 + delta;
    }
}

/// Where timelines move to when they are advanced in the frame.
#[derive(Resource, Default)]
struct Advance(HashMap<Entity, [Option<u32>; 2]>);

fn advance_timelines(mut adv: ResMut<Advance>, mut q: Query<(Entity, Option<&mut Tl<0>>, Option<&mut Tl<1>>)>) {
    for (e, a, b) in &mut q {
        let Some(to) = adv.0.get_mut(&e) else { continue };
        if let (Some(mut a), Some(t)) = (a, to[0].take()) {
            a.set_now(Tick(t).into());
        }
        if let (Some(mut b), Some(t)) = (b, to[1].take()) {
            b.set_now(Tick(t).into());
        }
    }
}

/// kind, event, sender
#[derive(Resource, Default)]
struct Events(Vec<(u8, Body, PeerId)>);

fn new_app(tick: u32) -> App {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.insert_resource(Time::<Real>::default());
    let mut tl = LocalTimeline::default();
    tl.apply_delta(tick as i32);
    app.insert_resource(tl);
    app.init_resource::<ChannelRegistry>();
    app.init_resource::<Events>();
    app.init_resource::<Advance>();
    app.add_plugins((ConnectionPlugin, HostPlugin, TransportPlugin));
    let set = |mode: ChannelMode| ChannelSettings { mode, ..Default::default() };
    let both = NetworkDirection::Bidirectional;
    app.add_channel::<Chan<0>>(set(ChannelMode::UnorderedUnreliable)).add_direction(both);
    app.add_channel::<Chan<1>>(set(ChannelMode::SequencedUnreliable)).add_direction(both);
    app.add_channel::<Chan<2>>(set(ChannelMode::UnorderedReliable(Default::default()))).add_direction(both);
    app.add_channel::<Chan<3>>(set(ChannelMode::SequencedReliable(Default::default()))).add_direction(both);
    app.add_channel::<Chan<4>>(set(ChannelMode::OrderedReliable(Default::default()))).add_direction(both);
    app.add_channel::<Chan<5>>(set(ChannelMode::OrderedReliable(Default::default())).on_timeline::<Tl<0>>()).add_direction(both);
    app.add_channel::<Chan<6>>(set(ChannelMode::UnorderedUnreliable).on_timeline::<Tl<0>>()).add_direction(both);
    app.add_channel::<Chan<7>>(set(ChannelMode::UnorderedReliable(Default::default())).on_timeline::<Tl<1>>()).add_direction(both);
    app.register_message::<M<0>>().add_direction(both);
    app.register_message_to_bytes::<M<1>>().add_direction(both);
    app.register_message::<M<2>>().add_map_entities().add_direction(both);
    app.register_message_custom_serde::<M<3>>(SerializeFns { serialize: ser_m, deserialize: de_m }).add_map_entities().add_direction(both);
    app.register_event::<E<0>>().add_direction(both);
    app.register_event_to_bytes::<E<1>>().add_map_entities().add_direction(both);
    app.register_event_custom_serde::<E<2>>(SerializeFns { serialize: ser_e, deserialize: de_e }).add_direction(both);
    app.add_observer(|e: On<RemoteEvent<E<0>>>, mut l: ResMut<Events>| l.0.push((4, e.trigger.0.clone(), e.from)));
    app.add_observer(|e: On<RemoteEvent<E<1>>>, mut l: ResMut<Events>| l.0.push((5, e.trigger.0.clone(), e.from)));
    app.add_observer(|e: On<RemoteEvent<E<2>>>, mut l: ResMut<Events>| l.0.push((6, e.trigger.0.clone(), e.from)));
    app.add_plugins(MessagePlugin);
    app.add_systems(PreUpdate, advance_timelines.in_set(TimelineSystems::Advance).after(MessageSystems::ReceiveMessages));
    app.finish();
    for l in [PreUpdate.intern(), PostUpdate.intern(), Last.intern()] {
        app.edit_schedule(l, |s| {
            s.set_executor(SingleThreadedExecutor::new());
        });
    }
    app
}

// ---------------------------------------------------------------------------- the case

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    kind: u8,
    chan: u8,
    len: u16,
    ents: Vec<u8>,
    fail: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// link, from the server's end
    Send(u8, bool, Msg),
    /// links
    Multi(Vec<u8>, Msg),
    /// form, peers (5: not connected), message
    Target(u8, Vec<u8>, Msg),
    /// link, server's end, form of undecodable bytes, channel
    Raw(u8, bool, u8, u8),
    /// link, server's end, entity
    Know(u8, bool, u8),
    Forget(u8, bool, u8),
    /// link, with the marker for leaving gracefully
    Break(u8),
    Join(u8),
    /// link, server's end, timeline, Some(offset from the other end's tick) before or while advancing
    Timeline(u8, bool, u8, Option<i16>, bool),
    /// link, server's end: many small messages on a timeline channel
    Flood(u8, bool, u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    app: u8,
    dt_ms: u16,
    ticks: u8,
    ops: Vec<Op>,
    /// frames the datagrams sent in this frame wait at the receiver
    hold: u8,
    /// per message kind: 0 receive, 1 with tick, 2 look at, 3 drop some
    reads: [u8; 4],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    links: u8,
    host: bool,
    ticks: Vec<u16>,
    /// initial offsets of the timelines behind the other end's tick, per end
    timelines: Vec<[Option<i16>; 2]>,
    steps: Vec<Step>,
}

fn msg(chan: BoxedStrategy<u8>) -> BoxedStrategy<Msg> {
    (
        0u8..KINDS,
        chan,
        prop_oneof![6 => 0u16..40, 2 => 40u16..1100, 1 => 1100u16..5000],
        vec(0u8..6, 0..4),
        prop_oneof![3 => Just(0u8), 1 => 1u8..3],
    )
        .prop_map(|(kind, chan, len, ents, fail)| Msg { kind, chan, len, ents, fail })
        .boxed()
}

fn offset() -> BoxedStrategy<Option<i16>> {
    prop_oneof![1 => Just(None), 6 => (-12i16..6).prop_map(Some), 2 => prop_oneof![-105i16..-90].prop_map(Some), 1 => (-300i16..300).prop_map(Some)].boxed()
}

fn case(focus: u8) -> BoxedStrategy<Case> {
    let chan = match focus {
        0 => prop_oneof![6 => 0u8..5, 1 => 5u8..CHANS].boxed(),
        1 => prop_oneof![1 => 0u8..5, 5 => 5u8..CHANS].boxed(),
        _ => prop_oneof![3 => 0u8..5, 1 => 5u8..CHANS].boxed(),
    };
    let link = 0u8..4;
    let side = any::<bool>();
    let m = msg(chan);
    let tl_w = if focus == 0 { 1 } else { 5 };
    let fl_w = if focus == 1 { 1 } else { 0 };
    let op = prop_oneof![
        12 => (link.clone(), side.clone(), m.clone()).prop_map(|(l, s, m)| Op::Send(l, s, m)),
        3 => (vec(link.clone(), 1..4), m.clone()).prop_map(|(l, m)| Op::Multi(l, m)),
        4 => (0u8..6, vec(0u8..6, 0..4), m).prop_map(|(f, p, m)| Op::Target(f, p, m)),
        1 => (link.clone(), side.clone(), 0u8..4, 0u8..CHANS).prop_map(|(l, s, f, c)| Op::Raw(l, s, f, c)),
        2 => (link.clone(), side.clone(), 0u8..4).prop_map(|(l, s, e)| Op::Know(l, s, e)),
        1 => (link.clone(), side.clone(), 0u8..4).prop_map(|(l, s, e)| Op::Forget(l, s, e)),
        1 => link.clone().prop_map(Op::Break),
        2 => link.clone().prop_map(Op::Join),
        tl_w => (link.clone(), side.clone(), 0u8..2, offset(), any::<bool>()).prop_map(|(l, s, t, o, b)| Op::Timeline(l, s, t, o, b)),
        fl_w => (link, side, prop_oneof![9 => 1u16..40, 1 => 4000u16..4300], 5u8..CHANS).prop_map(|(l, s, n, c)| Op::Flood(l, s, n, c)),
    ];
    let step = (
        0u8..4,
        1u16..60,
        prop_oneof![6 => 0u8..4, 1 => 0u8..40],
        vec(op, 0..7),
        prop_oneof![3 => Just(0u8), 1 => 0u8..4],
        [0u8..4, 0u8..4, 0u8..4, 0u8..4],
    )
        .prop_map(|(app, dt_ms, ticks, ops, hold, reads)| Step { app, dt_ms, ticks, ops, hold, reads });
    (
        1u8..4,
        if focus == 2 { Just(true).boxed() } else { proptest::bool::weighted(0.3).boxed() },
        vec(0u16..400, 4),
        vec([offset(), offset()], 8),
        vec(step, 1..30),
    )
        .prop_map(|(links, host, ticks, timelines, steps)| Case { links, host, ticks, timelines, steps })
        .boxed()
}

// ---------------------------------------------------------------------------- the model

#[derive(Clone, Debug)]
struct Exp {
    kind: u8,
    chan: u8,
    body: Body,
    /// shared entity numbers (4 and up: not shared), and whether the sender had a mapping
    ents: Vec<(u8, bool)>,
    tick: u32,
    /// 0 typed sender, 1 multi sender
    api: u8,
    /// handed over without serialization
    local: bool,
    /// the frame it arrived in
    batch: u64,
    /// arrived with others of which only some fit; which ones is not specified
    maybe: bool,
}

/// One end of a link: an entity in an app.
struct EndM {
    app: usize,
    entity: Entity,
    /// messages buffered in typed senders
    queued: Vec<Exp>,
    /// messages already handed to the transport
    handed: Vec<Exp>,
    /// datagrams under way to this end: frames left, datagrams, content
    under_way: VecDeque<(u8, Vec<Bytes>, Vec<Exp>)>,
    known: BTreeSet<u8>,
    tl: [Option<u32>; 2],
    next_tl: [Option<u32>; 2],
    /// gated messages per timeline, in arrival order
    pending: [Vec<Exp>; 2],
    /// readable now
    ready: Vec<Exp>,
    last_seen: HashMap<(u8, u8, u8), u64>,
    /// undecodable or unencodable messages were involved
    peer: PeerId,
    connected: bool,
}

struct Sim {
    focus: &'static str,
    apps: Vec<App>,
    ticks: Vec<u32>,
    multi: SystemState<MultiMessageSender<'static, 'static>>,
    target: SystemState<(ServerMultiMessageSender<'static, 'static>, Query<'static, 'static, &'static Server>)>,
    server: Entity,
    /// ends 2*l (server side) and 2*l+1 (client side); the host client comes last, as one end
    ends: Vec<EndM>,
    links: usize,
    host: bool,
    next: u64,
    delivered: u64,
    frame: u64,
    stats: BTreeMap<&'static str, u64>,
}

fn ent(i: u32) -> Entity {
    Entity::from_index_and_generation(EntityIndex::from_raw_u32(i).unwrap(), EntityGeneration::FIRST)
}

/// The id by which an end knows a shared entity (0..4) or one of its own; numbers overlap between ends.
fn entity_id(end: usize, e: u8) -> Entity {
    if e >= 4 {
        return ent(1000 + e as u32);
    }
    let shift = if end % 2 == 0 { 0 } else { 1 + end as u32 / 2 };
    ent(900 + (e as u32 + shift) % 4)
}

fn tick_of(app: &App) -> u32 {
    app.world().resource::<LocalTimeline>().tick().0
}

impl Sim {
    fn new(c: &Case, focus: &'static str) -> Sim {
        let links = c.links as usize;
        let mut apps: Vec<App> = (0..=links).map(|i| new_app(c.ticks[i % c.ticks.len()] as u32)).collect();
        let ticks: Vec<u32> = apps.iter().map(tick_of).collect();
        let server = apps[0].world_mut().spawn((Server::default(), Started)).id();
        let multi = SystemState::new(apps[0].world_mut());
        let target = SystemState::new(apps[0].world_mut());
        let mut sim = Sim {
            focus, apps, ticks, multi, target, server, ends: vec![], links, host: c.host, next: 1, delivered: 0, frame: 0, stats: BTreeMap::new(),
        };
        for l in 0..links {
            for s in 0..2 {
                let app = if s == 0 { 0 } else { l + 1 };
                let end = EndM {
                    app,
                    entity: Entity::PLACEHOLDER,
                    queued: vec![],
                    handed: vec![],
                    under_way: VecDeque::new(),
                    known: BTreeSet::new(),
                    tl: [None; 2],
                    next_tl: [None; 2],
                    pending: [vec![], vec![]],
                    ready: vec![],
                    last_seen: HashMap::new(),
                    peer: if s == 0 { PeerId::Netcode(l as u64 + 1) } else { PeerId::Server },
                    connected: false,
                };
                sim.ends.push(end);
            }
            sim.join(l);
        }
        if c.host {
            let w = sim.apps[0].world_mut();
            let entity = w.spawn((Client, LinkOf { server }, Link::default(), Linked, Transport::default())).id();
            w.trigger(Connect { entity });
            w.flush();
            sim.ends.push(EndM {
                app: 0,
                entity,
                queued: vec![],
                handed: vec![],
                under_way: VecDeque::new(),
                known: BTreeSet::new(),
                tl: [None; 2],
                next_tl: [None; 2],
                pending: [vec![], vec![]],
                ready: vec![],
                last_seen: HashMap::new(),
                peer: PeerId::Local(0),
                connected: true,
            });
        }
        for i in 0..sim.ends.len() {
            for t in 0..2 {
                if let Some(o) = c.timelines[i % c.timelines.len()][t] {
                    sim.timeline(i, t, Some(o), false);
                }
            }
        }
        sim
    }

    fn join(&mut self, l: usize) {
        if self.ends[2 * l].connected {
            return;
        }
        let server = self.server;
        for s in 0..2 {
            let i = 2 * l + s;
            let e = &mut self.ends[i];
            let w = self.apps[e.app].world_mut();
            if s == 0 {
                e.entity = w
                    .spawn((LinkOf { server }, ClientOf, Link::default(), Linked, Transport::default(), RemoteId(e.peer), Connected))
                    .id();
            } else if e.entity == Entity::PLACEHOLDER {
                e.entity = w.spawn((Client, Link::default(), Linked, Transport::default(), RemoteId(e.peer), Connected)).id();
            } else {
                w.entity_mut(e.entity).insert(Connected);
            }
            w.flush();
            e.connected = true;
        }
    }

    fn leave(&mut self, l: usize) {
        if !self.ends[2 * l].connected {
            return;
        }
        for s in 0..2 {
            let e = &mut self.ends[2 * l + s];
            let w = self.apps[e.app].world_mut();
            w.entity_mut(e.entity).insert(Disconnected::default());
            w.flush();
            w.resource_mut::<Advance>().0.remove(&e.entity);
            e.next_tl = [None; 2];
            if s == 0 {
                w.despawn(e.entity);
                e.tl = [None; 2];
            } else {
                // whatever was under way is gone
                w.entity_mut(e.entity).get_mut::<Link>().unwrap().recv.drain().for_each(drop);
                w.entity_mut(e.entity).get_mut::<Link>().unwrap().send.drain().for_each(drop);
            }
            e.connected = false;
            e.handed.clear();
            e.queued.clear();
            e.under_way.clear();
            e.known.clear();
            e.pending = [vec![], vec![]];
            e.ready.clear();
            e.last_seen.clear();
        }
        // what typed senders of the client still hold goes out later: avoided by draining now
        let e = self.ends[2 * l + 1].entity;
        let w = self.apps[l + 1].world_mut();
        macro_rules! fresh { ($($t:ty),*) => { $( w.entity_mut(e).insert(<$t>::default()); )* } }
        fresh!(MessageSender<M<0>>, MessageSender<M<1>>, MessageSender<M<2>>, MessageSender<M<3>>);
        fresh!(EventSender<E<0>>, EventSender<E<1>>, EventSender<E<2>>);
        w.flush();
        *self.stats.entry("disconnections").or_default() += 1;
    }

    /// The end at the other side.
    fn other(&self, i: usize) -> usize {
        if i == 2 * self.links { i } else { i ^ 1 }
    }

    fn timeline(&mut self, i: usize, t: usize, off: Option<i16>, advance: bool) {
        let o = self.other(i);
        let base = self.ticks[self.ends[o].app] as i64;
        let e = &mut self.ends[i];
        if !e.connected {
            return;
        }
        let to = off.map(|o| (base + o as i64).clamp(0, u32::MAX as i64) as u32);
        let w = self.apps[e.app].world_mut();
        match to {
            None => {
                if t == 0 {
                    w.entity_mut(e.entity).remove::<Tl<0>>();
                } else {
                    w.entity_mut(e.entity).remove::<Tl<1>>();
                }
                e.tl[t] = None;
                e.next_tl[t] = None;
                w.resource_mut::<Advance>().0.entry(e.entity).or_default()[t] = None;
            }
            Some(to) if advance && e.tl[t].is_some() => {
                e.next_tl[t] = Some(to);
                w.resource_mut::<Advance>().0.entry(e.entity).or_default()[t] = Some(to);
            }
            Some(to) => {
                let at: TickInstant = Tick(to).into();
                if t == 0 {
                    w.entity_mut(e.entity).insert(Tl::<0>(at));
                } else {
                    w.entity_mut(e.entity).insert(Tl::<1>(at));
                }
                e.tl[t] = Some(to);
                e.next_tl[t] = None;
                w.resource_mut::<Advance>().0.entry(e.entity).or_default()[t] = None;
            }
        }
    }

    fn body(&mut self, end: usize, m: &Msg) -> Body {
        let uid = self.next;
        self.next += 1;
        let data = (0..m.len).map(|i| (uid as u8).wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(7)) ^ (i >> 8) as u8).collect();
        let ents = m.ents.iter().map(|e| entity_id(end, *e)).collect();
        Body { uid, data, ents, fail: if fallible(m.kind % KINDS) { m.fail } else { 0 } }
    }

    fn exp(&self, end: usize, m: &Msg, body: Body, api: u8) -> Exp {
        Exp {
            kind: m.kind % KINDS,
            chan: m.chan % CHANS,
            body,
            ents: m.ents.iter().map(|e| (*e, self.ends[end].known.contains(e))).collect(),
            tick: 0,
            api,
            local: false,
            batch: 0,
            maybe: false,
        }
    }

    /// Which end an operation on a link means, if it is connected.
    fn pick(&self, l: u8, server_side: bool) -> Option<usize> {
        let n = self.links + self.host as usize;
        let l = l as usize % n;
        let i = if l == self.links { 2 * l } else { 2 * l + !server_side as usize };
        self.ends[i].connected.then_some(i)
    }

    fn op(&mut self, op: &Op) -> Res {
        match op {
            Op::Send(l, s, m) => {
                let Some(i) = self.pick(*l, *s) else { return Ok(()) };
                self.send(i, m);
            }
            Op::Flood(l, s, n, c) => {
                let Some(i) = self.pick(*l, *s) else { return Ok(()) };
                for _ in 0..*n {
                    self.send(i, &Msg { kind: 1, chan: *c, len: 0, ents: vec![], fail: 0 });
                }
            }
            Op::Multi(ls, m) => {
                let kind = m.kind % 4;
                let m = Msg { kind, ..m.clone() };
                let ends: BTreeSet<usize> = ls.iter().filter_map(|l| self.pick(*l, true)).collect();
                let body = self.body(0, &m);
                let entities: bevy_ecs::entity::EntityHashSet = ends.iter().map(|i| self.ends[*i].entity).collect();
                let mut p = self.multi.get_mut(self.apps[0].world_mut()).unwrap();
                let r = with_m!(kind, X => with_c!(m.chan % CHANS, C => {
                    let x: X = M(body.clone());
                    p.send::<_, C>(&x, &entities)
                }));
                self.check_multi(&m, &ends, body, r.is_ok())?;
            }
            Op::Target(form, ps, m) => {
                let kind = m.kind % 4;
                let m = Msg { kind, ..m.clone() };
                let peer = |p: &u8| match *p {
                    0..=2 => PeerId::Netcode(*p as u64 + 1),
                    3 => PeerId::Local(0),
                    4 => PeerId::Server,
                    _ => PeerId::Netcode(77),
                };
                let list: Vec<PeerId> = ps.iter().map(peer).collect();
                let one = list.first().copied().unwrap_or(PeerId::Netcode(1));
                let t: NetworkTarget = match form {
                    0 => Target::None,
                    1 => Target::All,
                    2 => Target::AllExceptSingle(one),
                    3 => Target::AllExcept(list.iter().copied().collect()),
                    4 => Target::Only(list.iter().copied().collect()),
                    _ => Target::Single(one),
                };
                let accepts = |p: PeerId| match form {
                    0 => false,
                    1 => true,
                    2 => p != one,
                    3 => !list.contains(&p),
                    4 => list.contains(&p),
                    _ => p == one,
                };
                let body = self.body(0, &m);
                let ends: BTreeSet<usize> = (0..=self.links)
                    .map(|l| 2 * l)
                    .filter(|i| *i < self.ends.len() && self.ends[*i].connected && accepts(self.ends[*i].peer))
                    .collect();
                let (mut p, q) = self.target.get_mut(self.apps[0].world_mut()).unwrap();
                let server = q.get(self.server).unwrap();
                let r = with_m!(kind, X => with_c!(m.chan % CHANS, C => {
                    let x: X = M(body.clone());
                    p.send::<_, C>(&x, server, &t)
                }));
                *self.stats.entry("targeted").or_default() += ends.len() as u64;
                self.check_multi(&m, &ends, body, r.is_ok())?;
            }
            Op::Raw(l, s, form, c) => {
                let Some(i) = self.pick(*l, *s) else { return Ok(()) };
                let mut b = vec![];
                match form {
                    0 => {}
                    1 => put_varint(&mut b, 9999),
                    2 => b.extend([0u8; 2]),
                    _ => b.extend([0xffu8; 5]),
                }
                let e = &self.ends[i];
                let t = self.apps[e.app].world().entity(e.entity).get::<Transport>().unwrap();
                with_c!(*c % CHANS, C => t.send_erased(ChannelKind::of::<C>(), Bytes::from(b), 1.0))
                    .map_err(|e| Fail::new("raw", format!("{e:?}")))?;
                *self.stats.entry("undecodable sent").or_default() += 1;
            }
            Op::Know(l, s, e) => {
                let Some(i) = self.pick(*l, *s) else { return Ok(()) };
                if i == 2 * self.links {
                    return Ok(());
                }
                let o = self.other(i);
                let x = &mut self.ends[i];
                x.known.insert(*e);
                let mut em = self.apps[x.app].world_mut().entity_mut(x.entity);
                em.get_mut::<MessageManager>().unwrap().entity_mapper.insert(entity_id(o, *e), entity_id(i, *e));
            }
            Op::Forget(l, s, e) => {
                let Some(i) = self.pick(*l, *s) else { return Ok(()) };
                if i == 2 * self.links {
                    return Ok(());
                }
                let o = self.other(i);
                let x = &mut self.ends[i];
                x.known.remove(e);
                let mut em = self.apps[x.app].world_mut().entity_mut(x.entity);
                em.get_mut::<MessageManager>().unwrap().entity_mapper.remove_by_remote(entity_id(o, *e));
            }
            Op::Break(l) => {
                let l = *l as usize % self.links;
                self.leave(l);
            }
            Op::Join(l) => {
                let l = *l as usize % self.links;
                self.join(l);
            }
            Op::Timeline(l, s, t, o, adv) => {
                let Some(i) = self.pick(*l, *s) else { return Ok(()) };
                self.timeline(i, *t as usize % 2, *o, *adv);
            }
        }
        Ok(())
    }

    fn check_multi(&mut self, m: &Msg, ends: &BTreeSet<usize>, body: Body, ok: bool) -> Res {
        let encodable = body.fail != 1;
        if encodable || ends.is_empty() {
            ensure!(ok || body.fail == 1, "multi-error", "sending to {ends:?} failed");
        }
        if !encodable {
            return Ok(());
        }
        for i in ends {
            let mut e = self.exp(*i, m, body.clone(), 1);
            e.tick = self.ticks[0];
            self.ends[*i].handed.push(e);
        }
        Ok(())
    }

    fn send(&mut self, i: usize, m: &Msg) {
        let body = self.body(i, m);
        let host = i == 2 * self.links;
        let mut e = self.exp(i, m, body.clone(), 0);
        e.local = host;
        let x = &mut self.ends[i];
        let mut em = self.apps[x.app].world_mut().entity_mut(x.entity);
        if e.kind < 4 {
            with_m!(e.kind, X => with_c!(e.chan, C => {
                em.get_mut::<MessageSender<X>>().unwrap().send::<C>(M(body))
            }));
        } else {
            with_e!(e.kind, X => with_c!(e.chan, C => {
                em.get_mut::<EventSender<X>>().unwrap().trigger::<C>(E(body))
            }));
        }
        x.queued.push(e);
    }

    /// A message reaches an end.
    fn arrive(&mut self, i: usize, mut x: Exp) {
        if x.body.fail != 0 && !x.local {
            return;
        }
        // entities are mapped on arrival, also in messages which then wait for a timeline
        x.body = self.want_body(i, &x);
        x.batch = self.frame;
        let e = &mut self.ends[i];
        match timeline_of(x.chan) {
            None => e.ready.push(x),
            Some(t) => {
                let Some(cur) = e.tl[t] else {
                    *self.stats.entry("dropped without timeline").or_default() += 1;
                    return;
                };
                if x.tick > cur && x.tick - cur > MAX_TIMELINE_LAG_TICKS {
                    *self.stats.entry("dropped far ahead").or_default() += 1;
                    return;
                }
                // the limit is per message type
                if e.pending[t].iter().filter(|p| p.kind == x.kind).count() >= MAX_PENDING_TIMELINE_PAYLOADS {
                    *self.stats.entry("dropped at the limit").or_default() += 1;
                    // channels and the messages of unordered channels may be read in any order
                    let sure = |p: &Exp| p.batch != x.batch || (p.local && x.local) || (p.chan == x.chan && ordered(x.chan) && !p.local);
                    if e.pending[t].iter().filter(|p| p.kind == x.kind).all(sure) {
                        return;
                    }
                    for p in e.pending[t].iter_mut().filter(|p| p.kind == x.kind && p.batch == x.batch) {
                        p.maybe = true;
                    }
                    x.maybe = true;
                }
                *self.stats.entry("gated").or_default() += 1;
                e.pending[t].push(x);
            }
        }
    }

    fn step(&mut self, st: &Step) -> Res {
        let a = st.app as usize % self.apps.len();
        self.frame += 1;
        {
            let w = self.apps[a].world_mut();
            w.resource_mut::<Time<Real>>().advance_by(Duration::from_millis(st.dt_ms as u64));
            w.resource_mut::<LocalTimeline>().apply_delta(st.ticks as i32);
        }
        self.ticks[a] += st.ticks as u32;
        ensure_eq!(tick_of(&self.apps[a]), self.ticks[a], "tick", "local timeline");
        let mine: Vec<usize> = (0..self.ends.len()).filter(|i| self.ends[*i].app == a && self.ends[*i].connected).collect();
        // datagrams
        for i in &mine {
            let mut arrived = vec![];
            if self.ends[*i].entity == Entity::PLACEHOLDER {
                continue;
            }
            if let Some(f) = self.ends[*i].under_way.front_mut() {
                f.0 = f.0.saturating_sub(1);
            }
            while self.ends[*i].under_way.front().is_some_and(|f| f.0 == 0) {
                let (_, d, x) = self.ends[*i].under_way.pop_front().unwrap();
                if *i != 2 * self.links {
                    let e = self.ends[*i].entity;
                    let mut em = self.apps[a].world_mut().entity_mut(e);
                    let mut link = em.get_mut::<Link>().unwrap();
                    for p in d {
                        link.recv.push_raw(recv_payload_from_bytes(p));
                    }
                }
                arrived.extend(x);
            }
            for x in arrived {
                self.arrive(*i, x);
            }
        }
        self.apps[a].world_mut().run_schedule(PreUpdate);
        self.apps[a].world_mut().flush();
        // timelines moved
        for i in &mine {
            let e = &mut self.ends[*i];
            for t in 0..2 {
                if let Some(n) = e.next_tl[t].take() {
                    e.tl[t] = Some(n);
                }
                let Some(cur) = e.tl[t] else { continue };
                let (mut out, keep): (Vec<Exp>, Vec<Exp>) = std::mem::take(&mut e.pending[t]).into_iter().partition(|x| x.tick <= cur);
                out.sort_by_key(|x| x.tick);
                e.pending[t] = keep;
                e.ready.extend(out);
            }
        }
        self.read_events(a, &mine)?;
        for i in &mine {
            self.read(*i, st.reads)?;
        }
        // what the user does
        for op in &st.ops {
            let before: Vec<bool> = self.ends.iter().map(|e| e.connected).collect();
            self.op_in(a, op)?;
            let _ = before;
        }
        let mine: Vec<usize> = (0..self.ends.len()).filter(|i| self.ends[*i].app == a && self.ends[*i].connected).collect();
        self.apps[a].world_mut().run_schedule(PostUpdate);
        self.apps[a].world_mut().flush();
        for i in &mine {
            let host = *i == 2 * self.links;
            let e = &mut self.ends[*i];
            let tick = self.ticks[a];
            let mut out = std::mem::take(&mut e.handed);
            let mut local = vec![];
            for mut x in std::mem::take(&mut e.queued) {
                x.tick = tick;
                for (en, k) in &mut x.ents {
                    *k = e.known.contains(en);
                }
                if host {
                    local.push(x);
                } else {
                    out.push(x);
                }
            }
            for x in &mut out {
                x.tick = tick;
            }
            let mut d = vec![];
            if !host {
                let ent = e.entity;
                let mut em = self.apps[a].world_mut().entity_mut(ent);
                let mut link = em.get_mut::<Link>().unwrap();
                while let Some(p) = link.send.pop() {
                    d.push(p);
                }
            }
            let o = self.other(*i);
            let hold = if host { 1 } else { st.hold.max(1) };
            self.ends[o].under_way.push_back((hold, d, out));
            // handed over in `Last`, gated ones against the timeline as it is now
            for x in local {
                self.arrive(*i, x);
            }
        }
        self.apps[a].world_mut().run_schedule(Last);
        self.apps[a].world_mut().flush();
        // whatever was not read is gone; what the host client sent to itself is there
        for i in &mine {
            let host = *i == 2 * self.links;
            let e = &self.ends[*i];
            for k in 0..4u8 {
                let n = self.count(*i, k);
                let want = if host { e.ready.iter().filter(|x| x.kind == k).count() } else { 0 };
                ensure_eq!(n, want, "not-cleared", "end {i} kind {k}: readable after the frame");
            }
        }
        self.read_events(a, &mine)?;
        self.apps[a].world_mut().clear_trackers();
        Ok(())
    }

    /// Operations act on ends of the app whose frame it is; others wait for theirs.
    fn op_in(&mut self, a: usize, op: &Op) -> Res {
        let app_of = |s: &Self, l: u8, side: bool| s.pick(l, side).map(|i| s.ends[i].app);
        let mut op = op.clone();
        match &mut op {
            Op::Send(l, s, _) | Op::Raw(l, s, ..) | Op::Know(l, s, _) | Op::Forget(l, s, _) | Op::Timeline(l, s, ..) | Op::Flood(l, s, ..) => {
                if a == 0 {
                    *s = true;
                } else {
                    *s = false;
                    *l = a as u8 - 1;
                }
                let (l, s) = (*l, *s);
                if app_of(self, l, s) != Some(a) {
                    return Ok(());
                }
            }
            Op::Multi(..) | Op::Target(..) if a != 0 => return Ok(()),
            _ => {}
        }
        self.op(&op)
    }

    fn count(&self, i: usize, k: u8) -> usize {
        let e = &self.ends[i];
        let r = self.apps[e.app].world().entity(e.entity);
        with_m!(k, X => r.get::<MessageReceiver<X>>().map_or(0, |r| r.num_messages()))
    }

    fn want_body(&self, i: usize, x: &Exp) -> Body {
        let mut b = x.body.clone();
        if mapped(x.kind) && !x.local {
            let host = i == 2 * self.links;
            for (k, (e, known)) in x.ents.iter().enumerate() {
                let own = entity_id(i, *e);
                b.ents[k] = if host {
                    // one world: the entity itself
                    b.ents[k]
                } else if *e < 4 && (*known || self.ends[i].known.contains(e)) {
                    own
                } else {
                    Entity::PLACEHOLDER
                };
            }
        }
        b
    }

    /// Known finding of C20: what the server sends its host client through a multi-sender
    /// goes through the entity mapping of a receiver which knows none of its own entities.
    fn host_entities(&mut self, i: usize, x: &Exp, body: &Body, want: &mut Body) {
        if i != 2 * self.links || !mapped(x.kind) || x.local || body.ents.len() != want.ents.len() {
            return;
        }
        for (b, w) in body.ents.iter().zip(&mut want.ents) {
            if *b != *w && *b == Entity::PLACEHOLDER {
                *w = *b;
                *self.stats.entry("host client: unmapped entities").or_default() += 1;
            }
        }
    }

    fn in_focus(&self, i: usize, chan: u8) -> bool {
        let p = if i == 2 * self.links { "C20" } else if timeline_of(chan).is_some() { "C19" } else { "C18" };
        p == self.focus
    }

    fn read_events(&mut self, a: usize, mine: &[usize]) -> Res {
        let log = std::mem::take(&mut self.apps[a].world_mut().resource_mut::<Events>().0);
        let mut order: HashMap<(usize, u8, u8), Vec<u64>> = HashMap::new();
        for (kind, body, from) in log {
            let Some(i) = mine.iter().copied().find(|i| self.ends[*i].peer == from) else {
                return Err(Fail::new("event-from", format!("event {} from {from:?}", body.uid)));
            };
            let e = &self.ends[i];
            let Some(p) = e.ready.iter().position(|x| x.kind == kind && x.body.uid == body.uid) else {
                return Err(Fail::new("event-unexpected", format!("end {i}: event kind {kind} number {} triggered, expected {:?}", body.uid, ids(&e.ready))));
            };
            let mut want = self.ends[i].ready[p].body.clone();
            let x = self.ends[i].ready.remove(p);
            self.host_entities(i, &x, &body, &mut want);
            ensure_eq!(body, want, "event-data", "end {i} kind {kind}");
            order.entry((i, kind, x.chan)).or_default().push(x.body.uid);
            self.seen(i, &x)?;
        }
        for i in mine {
            if let Some(x) = self.ends[*i].ready.iter().find(|x| x.kind >= 4 && !sequenced(x.chan) && !x.maybe) {
                return Err(Fail::new(
                    if self.in_focus(*i, x.chan) { "event-lost" } else { "other-event-lost" },
                    format!("end {i}: event kind {} number {} on channel {} not triggered", x.kind, x.body.uid, x.chan),
                ));
            }
            self.ends[*i].ready.retain(|x| x.kind < 4);
        }
        Ok(())
    }

    /// In send order on ordered and sequenced channels.
    fn seen(&mut self, i: usize, x: &Exp) -> Res {
        self.delivered += 1;
        if ordered(x.chan) || sequenced(x.chan) {
            let last = self.ends[i].last_seen.entry((x.kind, x.chan, x.api + 2 * x.local as u8)).or_default();
            ensure!(*last < x.body.uid, "order", "end {i} kind {} channel {}: {} after {}", x.kind, x.chan, x.body.uid, *last);
            *last = x.body.uid;
        }
        Ok(())
    }

    fn read(&mut self, i: usize, how: [u8; 4]) -> Res {
        for k in 0..4u8 {
            let ent = self.ends[i].entity;
            let app = self.ends[i].app;
            // body, tick, channel, whether an id came along
            let mut got: Vec<(Body, Option<(u32, ChannelKind)>)> = vec![];
            let mode = how[k as usize];
            let pending_want: usize = self.ends[i].pending.iter().flatten().filter(|x| x.kind == k).count();
            let vague = self.ends[i].pending.iter().flatten().any(|x| x.kind == k && x.maybe);
            let mut em = self.apps[app].world_mut().entity_mut(ent);
            with_m!(k, X => {
                if let Some(mut r) = em.get_mut::<MessageReceiver<X>>() {
                    let n = r.num_messages();
                    ensure_eq!(r.has_messages(), n > 0, "has-messages", "end {i} kind {k}");
                    if !vague {
                        ensure_eq!(r.num_pending_timeline_messages(), pending_want, "pending", "end {i} kind {k}: gated messages");
                    }
                    ensure!(r.num_pending_timeline_messages() <= 2 * MAX_PENDING_TIMELINE_PAYLOADS, "limit", "end {i} kind {k}: gated messages");
                    match mode {
                        0 => got.extend(r.receive().map(|m| (m.0, None))),
                        1 => got.extend(r.receive_with_tick().map(|m| (m.data.0, Some((m.remote_tick.0, m.channel_kind))))),
                        2 => {
                            r.retain_received_messages(|meta, m| {
                                got.push((m.0.clone(), Some((meta.remote_tick.0, meta.channel_kind))));
                                true
                            });
                            ensure_eq!(r.num_messages(), n, "retain", "end {i} kind {k}");
                        }
                        _ => {
                            r.retain_received_messages(|meta, m| {
                                got.push((m.0.clone(), Some((meta.remote_tick.0, meta.channel_kind))));
                                m.0.data.push(1);
                                m.0.uid % 2 == 0
                            });
                            let rest: Vec<u64> = r.receive().map(|m| {
                                assert_eq!(m.0.data.last(), Some(&1));
                                m.0.uid
                            }).collect();
                            let want: Vec<u64> = got.iter().map(|g| g.0.uid).filter(|u| u % 2 == 0).collect();
                            ensure_eq!(rest, want, "retain", "end {i} kind {k}");
                        }
                    }
                    ensure_eq!(got.len(), n, "count", "end {i} kind {k}");
                } else {
                    ensure_eq!(pending_want, 0, "pending", "end {i} kind {k}: no receiver for gated messages");
                }
            });
            let mut gate: HashMap<usize, u32> = HashMap::new();
            for (body, meta) in got {
                let e = &self.ends[i];
                let Some(p) = e.ready.iter().position(|x| x.kind == k && x.body.uid == body.uid) else {
                    let gated = e.pending.iter().flatten().any(|x| x.body.uid == body.uid);
                    let sig = if gated { "early" } else { "unexpected" };
                    return Err(Fail::new(sig, format!("end {i}: message kind {k} number {} received, expected {:?}", body.uid, ids(&e.ready))));
                };
                let mut want = self.ends[i].ready[p].body.clone();
                let x = self.ends[i].ready.remove(p);
                self.host_entities(i, &x, &body, &mut want);
                ensure_eq!(body, want, "data", "end {i} kind {k} channel {}", x.chan);
                if let Some((tick, chan)) = meta {
                    ensure_eq!(tick, x.tick, "remote-tick", "end {i} kind {k} number {}", x.body.uid);
                    ensure_eq!(chan, with_c!(x.chan, C => ChannelKind::of::<C>()), "channel", "end {i} kind {k} number {}", x.body.uid);
                }
                if let Some(t) = timeline_of(x.chan) {
                    let last = gate.entry(t).or_default();
                    ensure!(*last <= x.tick, "gate-order", "end {i} kind {k}: tick {} released after {}", x.tick, *last);
                    *last = x.tick;
                    *self.stats.entry("released").or_default() += 1;
                }
                self.seen(i, &x)?;
            }
            if let Some(x) = self.ends[i].ready.iter().find(|x| x.kind == k && !sequenced(x.chan) && !x.maybe) {
                return Err(Fail::new(
                    if self.in_focus(i, x.chan) { "lost" } else { "other-lost" },
                    format!("end {i}: message kind {k} number {} (tick {}) on channel {} not received", x.body.uid, x.tick, x.chan),
                ));
            }
            self.ends[i].ready.retain(|x| x.kind != k);
        }
        Ok(())
    }
}

fn ids(v: &[Exp]) -> Vec<(u8, u64)> {
    v.iter().map(|x| (x.kind, x.body.uid)).collect()
}

fn run(c: &Case, focus: &'static str, obs: &mut Obs) -> Res {
    let mut sim = Sim::new(c, focus);
    for st in &c.steps {
        sim.step(st)?;
    }
    for r in 0..2000 {
        if r >= 6 * sim.apps.len() && r % sim.apps.len() == 0 && sim.ends.iter().all(|e| !e.connected || e.under_way.iter().all(|u| u.2.is_empty())) {
            break;
        }
        let app = (r % sim.apps.len()) as u8;
        sim.step(&Step { app, dt_ms: 20, ticks: 1, ops: vec![], hold: 0, reads: [1, 0, 1, 0] })?;
    }
    for (i, e) in sim.ends.iter().enumerate() {
        ensure!(e.under_way.iter().all(|u| u.2.is_empty()), "harness", "end {i}: still under way");
    }
    if sim.host {
        // leaving: no host client any more
        let e = sim.ends[2 * sim.links].entity;
        let w = sim.apps[0].world_mut();
        w.trigger(Disconnect { entity: e });
        w.flush();
        ensure!(!w.entity(e).contains::<HostClient>() && !w.entity(e).contains::<Connected>(), "host-leave", "still connected");
    }
    match focus {
        "C18" => obs.nontrivial_if(sim.delivered > 2),
        "C19" => obs.nontrivial_if(sim.stats.get("gated").is_some_and(|n| *n > 1)),
        _ => obs.nontrivial_if(sim.delivered > 2),
    }
    obs.count("delivered", sim.delivered);
    for (k, n) in &sim.stats {
        obs.count(k, *n);
    }
    if focus == "C20" && sim.stats.contains_key("host client: unmapped entities") {
        return Err(Fail::new("host-client-entities", "entities in a message to the host client arrived as Entity::PLACEHOLDER"));
    }
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C18", "messages", 6000, 200_000, || case(0), |c: &Case, o| run(c, "C18", o)),
        sub("C19", "timeline", 5000, 150_000, || case(1), |c: &Case, o| run(c, "C19", o)),
        sub("C20", "host", 6000, 200_000, || case(2), |c: &Case, o| run(c, "C20", o)),
    ]
}
