//! C42 interpolated entities on a client whose server sends its state late, partly and out of order.

use crate::fw::{Obs, Res as Outcome, Sub, bx, sub};
use crate::{ensure, ensure_eq};
use bevy_app::{App, PreUpdate, TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_replicon::client::UserdataReceived;
use bevy_replicon::client::server_mutate_ticks::ServerMutateTicks;
use bevy_replicon::prelude::{ClientMessages, ClientSystems, ConfirmHistory, Remote, RepliconTick};
use bevy_replicon::shared::backend::channels::ServerChannel;
use bevy_replicon::shared::replication::registry::{stub_despawn, stub_remove, stub_write};
use bevy_time::TimeUpdateStrategy;
use bytes::Bytes;
use lightyear_connection::client::{Client, Connected};
use lightyear_connection::network_topology::{NetworkTopology, NetworkingMetadata};
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::{NetworkTimeline, TimelineSystems};
use lightyear_core::tick::Tick;
use lightyear_core::time::{Overstep, TickInstant};
use lightyear_interpolation::plugin::{InterpolationMarkerPlugin, InterpolationPlugin};
use lightyear_interpolation::prelude::*;
use lightyear_replication::LightyearRepliconClientBackend;
use lightyear_replication::checkpoint::encode_authoritative_tick;
use lightyear_replication::prelude::{AppComponentExt, InterpolatedSend, ReplicationReceiver};
use proptest::prelude::*;
use proptest::collection::vec;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

const TICK: Duration = Duration::from_micros(15_625);
const NA: usize = 0;
const NB: usize = 1;
const ND: usize = 2;

macro_rules! comp {
    ($($n:ident),*) => {$(
        #[derive(Component, Clone, PartialEq, Debug, Serialize, Deserialize)]
        struct $n(u8);
    )*};
}
comp!(A, B, D);

/// entities with it have another rule for A
#[derive(Component)]
struct Special;

fn blend(a: u8, b: u8, t: f32) -> u8 {
    (a as f32 + (b as f32 - a as f32) * t) as u8
}
fn lerp_a(a: A, b: A, t: f32) -> A {
    A(blend(a.0, b.0, t))
}
fn snap_a(a: A, b: A, t: f32) -> A {
    if t < 0.5 { a } else { b }
}
/// depends on the time between the samples
fn lerp_b(a: B, b: B, c: InterpolationSampleContext) -> B {
    let n = c.sample_delta_secs.map_or(0, |s| (s / TICK.as_secs_f32()).round() as u8);
    B(blend(a.0, b.0, c.t).wrapping_add(n))
}

type State = [Option<u8>; 3];

/// what changes at a tick: a new value, or (B only) away and back
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Change {
    Value(u8),
    Toggle,
    Despawn,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Frame {
    server_ticks: u8,
    /// entity, component, change in the frame's first server tick
    changes: Vec<(u8, u8, Change)>,
    send: bool,
    /// which packet carries each entity's mutations, frames until each packet arrives
    split: [u8; 3],
    arrive: [Option<u8>; 3],
    update_arrive: u8,
    ack: Option<u8>,
    /// how far the interpolation time advances, in 1/16 ticks
    advance: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    delay: u8,
    base: u32,
    /// frame of the spawn, values, with the special rule
    ents: Vec<(u8, u8, Option<u8>, u8, bool)>,
    frames: Vec<Frame>,
}

fn frame() -> impl Strategy<Value = Frame> {
    let arrive = || prop_oneof![5 => (0u8..3).prop_map(Some), 3 => (3u8..7).prop_map(Some), 1 => Just(None)];
    let change = (0u8..3, 0u8..3, prop_oneof![12 => (1u8..9).prop_map(Change::Value), 5 => Just(Change::Toggle), 1 => Just(Change::Despawn)]);
    (
        prop_oneof![6 => Just(1u8), 1 => Just(0), 1 => Just(2)],
        vec(change, 0..4),
        prop::bool::weighted(0.7),
        [0u8..3, 0u8..3, 0u8..3],
        [arrive(), arrive(), arrive()],
        0u8..5,
        prop_oneof![4 => (0u8..6).prop_map(Some), 1 => Just(None)],
        prop_oneof![2 => Just(16u8), 4 => 8u8..26, 1 => 0u8..60],
    )
        .prop_map(|(server_ticks, changes, send, split, arrive, update_arrive, ack, advance)| Frame { server_ticks, changes, send, split, arrive, update_arrive, ack, advance })
}

fn case() -> BoxedStrategy<Case> {
    bx((
        prop_oneof![6 => 2u8..12, 1 => 0u8..2],
        30u32..60,
        vec((prop_oneof![3 => Just(0u8), 1 => 0u8..12], any::<u8>(), prop::option::of(any::<u8>()), any::<u8>(), any::<bool>()), 1..=3),
        vec(frame(), 8..40),
    )
        .prop_map(|(delay, base, ents, frames)| Case { delay, base, ents, frames }))
}

#[derive(Debug, Clone)]
struct UpdateMsg {
    r: u32,
    t: u32,
    spawn: Vec<(usize, State)>,
    despawn: Vec<usize>,
    parts: Vec<(usize, Vec<(usize, Option<u8>)>)>,
}

#[derive(Debug, Clone)]
struct MutateMsg {
    r: u32,
    t: u32,
    after_update: usize,
    count: usize,
    parts: Vec<(usize, Vec<(usize, u8)>)>,
    sent: usize,
}

#[derive(Default)]
struct ServerEnt {
    s: Option<State>,
    seen: bool,
    changed: [u32; 3],
    acked: u32,
    told: [bool; 3],
    /// the last value of each component
    last: [u8; 3],
}

#[derive(Resource, Default)]
struct Inbox {
    special: [bool; 3],
    updates: Vec<UpdateMsg>,
    mutations: Vec<MutateMsg>,
    buffered: Vec<MutateMsg>,
    applied_updates: usize,
    ents: [Option<Entity>; 3],
    received: BTreeMap<u32, usize>,
    complete: Option<u32>,
    samples: Vec<(usize, usize, u32, Option<u8>)>,
    despawned: Vec<(usize, u32)>,
    delivered: Vec<MutateMsg>,
}

#[derive(Resource)]
struct Cursor(TickInstant);

fn userdata(w: &mut World, r: u32, t: u32) {
    w.trigger(UserdataReceived { bytes: Bytes::copy_from_slice(&encode_authoritative_tick(Tick(t))), message_tick: RepliconTick::new(r) });
}

fn write(w: &mut World, e: Entity, r: u32, c: usize, v: u8) {
    let r = RepliconTick::new(r);
    let mut b = Bytes::copy_from_slice(&[v]);
    match c {
        NA => stub_write::<A>(w, e, r, &mut b),
        NB => stub_write::<B>(w, e, r, &mut b),
        _ => stub_write::<D>(w, e, r, &mut b),
    }
    .expect("write");
}

/// What replicon's client does with the messages of this frame.
fn receive(w: &mut World) {
    let mut ib = w.remove_resource::<Inbox>().unwrap();
    for u in std::mem::take(&mut ib.updates) {
        ib.applied_updates += 1;
        userdata(w, u.r, u.t);
        for i in u.despawn {
            if let Some(e) = ib.ents[i] {
                stub_despawn(w, e, RepliconTick::new(u.r));
                ib.despawned.push((i, u.t));
            }
        }
        for (i, s) in u.spawn {
            let e = w.spawn((Remote, ConfirmHistory::new(RepliconTick::new(u.r)))).id();
            ib.ents[i] = Some(e);
            if ib.special[i] {
                w.entity_mut(e).insert(Special);
            }
            w.entity_mut(e).insert(InterpolatedSend);
            stub_write::<InterpolatedSend>(w, e, RepliconTick::new(u.r), &mut Bytes::new()).expect("marker");
            for (c, v) in s.iter().enumerate() {
                if let Some(v) = *v {
                    write(w, e, u.r, c, v);
                    ib.samples.push((i, c, u.t, Some(v)));
                }
            }
            w.entity_mut(e).remove::<InterpolatedSend>();
        }
        for (i, parts) in u.parts {
            let Some(e) = ib.ents[i] else { continue };
            w.entity_mut(e).get_mut::<ConfirmHistory>().unwrap().confirm(RepliconTick::new(u.r));
            for (c, v) in parts {
                ib.samples.push((i, c, u.t, v));
                let r = RepliconTick::new(u.r);
                match (v, c) {
                    (Some(v), _) => write(w, e, u.r, c, v),
                    (None, NA) => stub_remove::<A>(w, e, r),
                    (None, NB) => stub_remove::<B>(w, e, r),
                    (None, _) => stub_remove::<D>(w, e, r),
                }
            }
        }
    }
    for m in std::mem::take(&mut ib.mutations) {
        userdata(w, m.r, m.t);
        ib.buffered.push(m);
    }
    ib.buffered.sort_by_key(|m| std::cmp::Reverse(m.r));
    let (now, later): (Vec<_>, Vec<_>) = std::mem::take(&mut ib.buffered).into_iter().partition(|m: &MutateMsg| m.after_update <= ib.applied_updates);
    ib.buffered = later;
    for m in now {
        for (i, parts) in &m.parts {
            let Some(e) = ib.ents[*i].filter(|e| w.get_entity(*e).is_ok()) else { continue };
            if ib.despawned.iter().any(|d| d.0 == *i) || w.get::<ConfirmHistory>(e).unwrap().contains(RepliconTick::new(m.r)) {
                continue;
            }
            w.entity_mut(e).get_mut::<ConfirmHistory>().unwrap().confirm(RepliconTick::new(m.r));
            for (c, v) in parts {
                ib.samples.push((*i, *c, m.t, Some(*v)));
                write(w, e, m.r, *c, *v);
            }
        }
        let n = ib.received.entry(m.r).or_default();
        *n += 1;
        if *n == m.count {
            ib.complete = ib.complete.max(Some(m.r));
        }
        ib.delivered.push(m);
    }
    let complete = ib.complete.map(RepliconTick::new);
    w.resource_mut::<ServerMutateTicks>().stub_set(complete);
    w.resource_mut::<ClientMessages>().received.clear();
    w.insert_resource(ib);
}

fn client(c: &Case) -> App {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.add_plugins(CorePlugins { tick_duration: TICK });
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.init_resource::<bevy_diagnostic::DiagnosticsStore>();
    app.init_resource::<lightyear_transport::prelude::ChannelRegistry>();
    let mut ib = Inbox::default();
    for (i, e) in c.ents.iter().enumerate() {
        ib.special[i] = e.4;
    }
    app.insert_resource(ib);
    app.insert_resource(Cursor(TickInstant::default()));
    app.add_plugins(lightyear_replication::LightyearRepliconBackend);
    app.add_plugins(LightyearRepliconClientBackend);
    app.add_plugins(lightyear_connection::client::ConnectionPlugin);
    app.add_plugins((InterpolationMarkerPlugin, InterpolationPlugin));
    app.component::<A>().replicate();
    app.component::<B>().replicate();
    app.component::<D>().replicate();
    app.interpolate_with::<A>(InterpolationFns::interpolate(lerp_a));
    app.interpolate_with_priority_filtered::<A, With<Special>>(100, InterpolationFns::interpolate(snap_a));
    app.interpolate_with::<B>(InterpolationFns::interpolate_with_context(lerp_b));
    app.interpolate_with::<D>(InterpolationFns::history_only());
    app.add_systems(PreUpdate, receive.in_set(ClientSystems::Receive));
    app.add_systems(PreUpdate, (|c: Res<Cursor>, mut t: ResMut<InterpolationTimeline>| t.set_now(c.0)).after(TimelineSystems::Advance));
    app.finish();
    app.cleanup();
    let link = app.world_mut().spawn((Client::default(), RemoteId(PeerId::Server), Connected, ReplicationReceiver)).id();
    app.world_mut().resource_mut::<NetworkingMetadata>().mode = NetworkTopology::Client(link);
    app.update();
    app
}

/// What the client knows of a component.
type Points = BTreeMap<u32, Option<u8>>;

/// the sample before the time, if it is a value, and the one after
fn around(p: &Points, t: u32) -> Option<Option<(u32, u8, Option<(u32, u8)>)>> {
    let (at, v) = p.range(..=t).next_back()?;
    let Some(v) = v else { return Some(None) };
    let next = p.range(t + 1..).next().and_then(|(n, w)| w.map(|w| (*n, w)));
    Some(Some((*at, *v, next)))
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let mut app = client(c);
    let n = c.ents.len();
    let mut server: [ServerEnt; 3] = Default::default();
    let mut stick = c.base;
    let mut cursor = (c.base as i64 - c.delay as i64) * 16;
    let mut r = 100u32;
    let mut updates_sent = 0usize;
    let mut net_u: Vec<(usize, UpdateMsg)> = vec![];
    let mut net_m: Vec<(usize, MutateMsg)> = vec![];
    let mut acks: Vec<(usize, usize, u32)> = vec![];
    let mut tick_of_r: BTreeMap<u32, u32> = BTreeMap::new();
    let mut last_update_arrival = 0usize;
    let mut known: BTreeMap<(usize, usize), Points> = BTreeMap::new();
    let mut dying: BTreeMap<usize, u32> = BTreeMap::new();
    let mut held: [Option<u8>; 3] = [None; 3];
    let (mut blends, mut late) = (0u64, 0u64);

    for (now, f) in c.frames.iter().enumerate() {
        for k in 0..f.server_ticks {
            stick += 1;
            for i in 0..n {
                let se = &mut server[i];
                if !se.seen && c.ents[i].0 as usize <= now {
                    se.seen = true;
                    let (_, a, b, d, _) = c.ents[i];
                    se.s = Some([Some(a), b, Some(d)]);
                    se.last = [a, b.unwrap_or(0), d];
                    se.changed = [stick; 3];
                    continue;
                }
                let Some(s) = &mut se.s else { continue };
                let mut gone = false;
                for (e, x, ch) in f.changes.iter().filter(|x| k == 0 && x.0 as usize == i) {
                    let _ = e;
                    let x = *x as usize;
                    if se.changed[x] == stick {
                        continue;
                    }
                    // values do not come back, so that no sample stands for two different stretches
                    let next = se.last[x].wrapping_add(match ch { Change::Value(v) => *v, _ => 1 });
                    match ch {
                        Change::Despawn => gone = true,
                        Change::Toggle if s[x].is_some() => {
                            s[x] = None;
                            se.changed[x] = stick;
                        }
                        Change::Value(_) if s[x].is_none() => {}
                        _ => {
                            s[x] = Some(next);
                            se.last[x] = next;
                            se.changed[x] = stick;
                        }
                    }
                }
                if gone {
                    se.s = None;
                }
            }
        }
        for (due, e, t) in &acks {
            if *due <= now && server[*e].s.is_some() {
                server[*e].acked = server[*e].acked.max(*t);
            }
        }
        acks.retain(|a| a.0 > now);
        if f.send && stick > c.base {
            r += 1;
            tick_of_r.insert(r, stick);
            let mut u = UpdateMsg { r, t: stick, spawn: vec![], despawn: vec![], parts: vec![] };
            let mut packets: [Vec<(usize, Vec<(usize, u8)>)>; 3] = Default::default();
            for i in 0..n {
                let se = &mut server[i];
                if !se.seen {
                    continue;
                }
                let Some(s) = se.s else {
                    if se.acked > 0 {
                        u.despawn.push(i);
                        se.acked = 0;
                    }
                    continue;
                };
                let have: [bool; 3] = core::array::from_fn(|x| s[x].is_some());
                if se.acked == 0 {
                    u.spawn.push((i, s));
                    se.told = have;
                    se.acked = stick;
                    continue;
                }
                if have != se.told {
                    let mut parts = vec![];
                    for x in 0..3 {
                        if !have[x] && se.told[x] {
                            parts.push((x, None));
                        } else if have[x] && (!se.told[x] || se.changed[x] > se.acked) {
                            parts.push((x, s[x]));
                        }
                    }
                    u.parts.push((i, parts));
                    se.told = have;
                    se.acked = stick;
                    continue;
                }
                let parts: Vec<(usize, u8)> = (0..3).filter(|x| have[*x] && se.changed[*x] > se.acked).map(|x| (x, s[x].unwrap())).collect();
                if !parts.is_empty() {
                    packets[f.split[i] as usize].push((i, parts));
                }
            }
            if !u.spawn.is_empty() || !u.despawn.is_empty() || !u.parts.is_empty() {
                updates_sent += 1;
                last_update_arrival = last_update_arrival.max(now + f.update_arrive as usize);
                net_u.push((last_update_arrival, u));
            }
            let mut list: Vec<(usize, Vec<_>)> = packets.into_iter().enumerate().filter(|(_, p)| !p.is_empty()).collect();
            if list.is_empty() {
                list.push((0, vec![]));
            }
            let count = list.len();
            for (k, parts) in list {
                if let Some(d) = f.arrive[k] {
                    net_m.push((now + d as usize, MutateMsg { r, t: stick, after_update: updates_sent, count, parts, sent: now }));
                }
            }
        }

        // client
        cursor += f.advance as i64;
        let at = (cursor / 16) as u32;
        let over = (cursor % 16) as f32 / 16.0;
        {
            let mut any = 0;
            let w = app.world_mut();
            let mut ib = w.resource_mut::<Inbox>();
            ib.samples.clear();
            ib.delivered.clear();
            net_u.retain(|(due, u)| {
                if *due <= now {
                    ib.updates.push(u.clone());
                    any += 1;
                }
                *due > now
            });
            net_m.retain(|(due, m)| {
                if *due <= now {
                    ib.mutations.push(m.clone());
                    any += 1;
                }
                *due > now
            });
            for _ in 0..any {
                w.resource_mut::<ClientMessages>().insert_received(ServerChannel::Mutations, Bytes::new());
            }
            w.resource_mut::<Cursor>().0 = TickInstant::from_tick_and_overstep(Tick(at), Overstep::from_f32(over));
        }
        app.update();

        let ib = app.world().resource::<Inbox>();
        for m in &ib.delivered {
            if let Some(d) = c.frames[m.sent].ack {
                for (e, _) in &m.parts {
                    if server[*e].s.is_some() {
                        acks.push((now + 1 + d as usize, *e, m.t));
                    }
                }
            }
        }
        for (i, t) in &ib.despawned {
            dying.insert(*i, *t);
        }
        for (i, x, t, v) in &ib.samples {
            let p = known.entry((*i, *x)).or_default();
            late += p.last_key_value().is_some_and(|l| *l.0 > *t) as u64;
            p.insert(*t, *v);
        }
        let complete = ib.complete.map(|r| tick_of_r[&r]);
        for i in 0..n {
            let Some(e) = ib.ents[i] else { continue };
            if dying.get(&i).is_some_and(|t| at >= *t) {
                ensure!(app.world().get_entity(e).is_err(), "despawn", "frame {now}: entity {i} despawned at {} still there at {at}", dying[&i]);
                continue;
            }
            let Ok(r) = app.world().get_entity(e) else {
                return Err(crate::fw::Fail::new("despawn", format!("frame {now}: entity {i} is gone at {at}+{over}, despawn {:?}", dying.get(&i))));
            };
            let got = [r.get::<A>().map(|x| x.0), r.get::<B>().map(|x| x.0), r.get::<D>().map(|x| x.0)];
            for x in 0..3 {
                let Some(p) = known.get_mut(&(i, x)) else {
                    ensure_eq!(got[x], None, "invented", "frame {now}: entity {i} component {x}");
                    continue;
                };
                // nothing newer came up to the completed tick: unchanged until then
                if let (Some(t), Some((last, Some(v)))) = (complete, p.last_key_value().map(|(a, b)| (*a, *b))) {
                    if t > last {
                        p.insert(t, Some(v));
                    }
                }
                let a = around(p, at).flatten();
                let want = match a {
                    None => None,
                    Some((_, v, _)) if x == ND => {
                        // only put in place
                        held[i] = held[i].or(Some(v));
                        held[i]
                    }
                    Some((_, v, None)) => Some(v),
                    Some((t, v, Some((u, w)))) => {
                        let q = (((at - t) as f32 + over) / (u - t) as f32).clamp(0.0, 1.0);
                        blends += (v != w && q > 0.0) as u64;
                        Some(match x {
                            NA if c.ents[i].4 => snap_a(A(v), A(w), q).0,
                            NA => lerp_a(A(v), A(w), q).0,
                            _ => lerp_b(B(v), B(w), InterpolationSampleContext::new(q, Some(TICK.as_secs_f32() * (u - t) as f32))).0,
                        })
                    }
                };
                if x == ND && a.is_none() {
                    held[i] = None;
                }
                let close = match (got[x], want) {
                    // rounding down of a product in floats
                    (Some(g), Some(w)) => g == w || x != ND && g.abs_diff(w) <= 1 && !(x == NA && c.ents[i].4),
                    (g, w) => g == w,
                };
                ensure!(close, "value", "frame {now}: entity {i} component {x} at {at}+{over} is {:?}, expected {want:?} from {:?}", got[x], p);
            }
        }
    }
    obs.count("blended values", blends);
    obs.count("samples older than one known", late);
    obs.label_if(!dying.is_empty(), "despawn");
    obs.nontrivial_if(blends > 0);
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![sub("C42", "client", 40_000, 800_000, case, check)]
}
