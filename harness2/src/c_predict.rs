//! C40 prediction and rollback on a client whose server sends its state late, partly and out of order.

use crate::fw::{Fail, Obs, Res as Outcome, Sub, bx, sub};
use crate::{ensure, ensure_eq};
use bevy_app::{App, FixedFirst, FixedLast, FixedUpdate, PreUpdate, TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_replicon::client::UserdataReceived;
use bevy_replicon::client::server_mutate_ticks::ServerMutateTicks;
use bevy_replicon::prelude::{ClientMessages, ClientSystems, ConfirmHistory, Remote, RepliconTick};
use bevy_replicon::shared::backend::channels::ServerChannel;
use bevy_replicon::shared::replication::registry::{stub_despawn, stub_remove, stub_write};
use bevy_time::{Fixed, Time, TimeUpdateStrategy};
use bytes::Bytes;
use lightyear_connection::client::{Client, Connected};
use lightyear_connection::network_topology::{NetworkTopology, NetworkingMetadata};
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::Rollback;
use lightyear_core::tick::Tick;
use lightyear_core::timeline::LocalTimeline;
use lightyear_prediction::prelude::*;
use lightyear_replication::ReplicationSystems;
use lightyear_replication::LightyearRepliconClientBackend;
use lightyear_replication::checkpoint::encode_authoritative_tick;
use lightyear_replication::prelude::{AppComponentExt, PredictedSend, ReplicationReceiver};
use lightyear_sync::timeline::input::{InputDelayConfig, InputTimelineConfig, LocalTimelineSync};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

const TICK: Duration = Duration::from_micros(15_625);
const NA: usize = 0;
const NB: usize = 1;
const ND: usize = 2;
const NL: usize = 3;

macro_rules! comp {
    ($($n:ident),*) => {$(
        #[derive(Component, Clone, PartialEq, Debug, Serialize, Deserialize)]
        struct $n(u8);
    )*};
}
comp!(A, B, D, L);

/// the components of an entity: A (changed by B), B (comes and goes), D (on its own), L (not networked)
type State = [Option<u8>; 4];

/// One tick of the simulation both sides run.
fn step(tick: u32, s: &mut State) {
    let [a, b, d, l] = *s;
    if let Some(a) = a {
        s[NA] = Some(a.wrapping_add(b.unwrap_or(0)));
    }
    s[NB] = match (a, b) {
        (Some(a), Some(_)) if a % 8 == 5 && tick % 3 == 0 => None,
        (Some(a), Some(b)) if a % 2 == 1 && tick % 7 == 3 => Some((b + 1) % 4),
        (Some(a), None) if a % 4 == 2 && tick % 11 == 4 => Some(1),
        (_, b) => b,
    };
    if let Some(d) = d
        && tick % 4 == 0
    {
        s[ND] = Some(d.wrapping_add(1));
    }
    if let Some(l) = l {
        s[NL] = Some(l.wrapping_mul(3).wrapping_add(a.unwrap_or(7)).wrapping_add(tick as u8));
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Change {
    A(Option<u8>),
    B(Option<u8>),
    D(Option<u8>),
    Despawn,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Frame {
    server_ticks: u8,
    /// applied to the entity at the end of the frame's first server tick
    changes: Vec<(u8, Change)>,
    send: bool,
    /// which packet carries each entity's mutations
    split: [u8; 3],
    /// frames until each packet arrives
    arrive: [Option<u8>; 3],
    update_arrive: u8,
    ack: Option<u8>,
    client_ticks: u8,
    forced: Option<u8>,
    input: Option<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// 0 check, 1 always, 2 disabled
    mode: u8,
    max: u16,
    delay_max: u16,
    lead: i8,
    base: u32,
    /// frame of the spawn, A, B, D
    ents: Vec<(u8, u8, Option<u8>, u8)>,
    frames: Vec<Frame>,
}

fn change() -> impl Strategy<Value = (u8, Change)> {
    let val = || prop_oneof![3 => any::<u8>().prop_map(Some), 1 => Just(None)];
    let small = prop_oneof![3 => (0u8..4).prop_map(Some), 2 => Just(None)];
    (
        0u8..3,
        prop_oneof![
            4 => val().prop_map(Change::A),
            5 => small.prop_map(Change::B),
            4 => val().prop_map(Change::D),
            1 => Just(Change::Despawn),
        ],
    )
}

fn frame() -> impl Strategy<Value = Frame> {
    let arrive = || prop_oneof![5 => (0u8..3).prop_map(Some), 3 => (3u8..7).prop_map(Some), 1 => Just(None)];
    (
        prop_oneof![6 => Just(1u8), 1 => Just(0), 1 => Just(2)],
        prop_oneof![4 => Just(vec![]), 2 => vec(change(), 1..3)],
        prop::bool::weighted(0.75),
        [0u8..3, 0u8..3, 0u8..3],
        [arrive(), arrive(), arrive()],
        0u8..5,
        prop_oneof![4 => (0u8..6).prop_map(Some), 1 => Just(None)],
        prop_oneof![6 => Just(1u8), 1 => Just(0), 1 => Just(2)],
        (prop::option::weighted(0.03, 0u8..8), prop::option::weighted(0.05, 0u8..8)),
    )
        .prop_map(|(server_ticks, changes, send, split, arrive, update_arrive, ack, client_ticks, (forced, input))| Frame {
            server_ticks,
            changes,
            send,
            split,
            arrive,
            update_arrive,
            ack,
            client_ticks,
            forced,
            input,
        })
}

fn case() -> BoxedStrategy<Case> {
    bx((
        prop_oneof![6 => Just(0u8), 2 => Just(1), 1 => Just(2)],
        prop_oneof![3 => Just(100u16), 2 => 6u16..16],
        prop_oneof![3 => Just(100u16), 1 => 6u16..16, 1 => Just(0)],
        prop_oneof![5 => 4i8..10, 1 => -2i8..4],
        10u32..60,
        vec((prop_oneof![3 => Just(0u8), 1 => 0u8..12], any::<u8>(), prop::option::of(0u8..4), any::<u8>()), 1..=3),
        vec(frame(), 6..32),
    )
        .prop_map(|(mode, max, delay_max, lead, base, ents, frames)| Case { mode, max, delay_max, lead, base, ents, frames }))
}

// ---- messages ----

#[derive(Debug, Clone)]
struct UpdateMsg {
    r: u32,
    t: u32,
    spawn: Vec<(usize, State)>,
    despawn: Vec<usize>,
    /// entity, component, removal or value
    parts: Vec<(usize, Vec<(usize, Option<u8>)>)>,
}

#[derive(Debug, Clone)]
struct MutateMsg {
    r: u32,
    t: u32,
    after_update: usize,
    count: usize,
    parts: Vec<(usize, Vec<(usize, u8)>)>,
    sent: usize,
}

#[derive(Default)]
struct ServerEnt {
    s: Option<State>,
    seen: bool,
    changed: [u32; 3],
    acked: u32,
    /// presence as of the last update message
    told: [bool; 3],
}

// ---- the client ----

#[derive(Resource, Default)]
struct Inbox {
    updates: Vec<UpdateMsg>,
    mutations: Vec<MutateMsg>,
    buffered: Vec<MutateMsg>,
    applied_updates: usize,
    ents: [Option<Entity>; 3],
    received: BTreeMap<u32, usize>,
    complete: Option<u32>,
    any: bool,
    /// what the client was told: entity, component, tick, value, first write of a spawn
    samples: Vec<(usize, usize, u32, Option<u8>, bool)>,
    delivered: Vec<MutateMsg>,
}

type Hist = [BTreeMap<u32, State>; 3];

#[derive(Resource, Default)]
struct Seen {
    hist: Hist,
    before: [Option<State>; 3],
    after: [Option<State>; 3],
    before_hist: Hist,
    /// since when the client keeps a history of a component
    first: [[Option<u32>; 4]; 3],
    had: [[bool; 4]; 3],
    before_had: [[bool; 4]; 3],
    /// earliest entries made in this frame
    fresh: [[Option<u32>; 4]; 3],
    /// was there before the step
    was: [[bool; 4]; 3],
    before_rollbacks: (u32, u32),
    after_rollbacks: (u32, u32),
    tick: u32,
    tick_after: u32,
    still_rolling: bool,
    times: BTreeMap<u32, Duration>,
    bad_time: Option<(u32, Duration, Duration)>,
}

fn live(w: &World, e: Option<Entity>) -> Option<State> {
    let e = w.get_entity(e?).ok()?;
    Some([e.get::<A>().map(|x| x.0), e.get::<B>().map(|x| x.0), e.get::<D>().map(|x| x.0), e.get::<L>().map(|x| x.0)])
}

fn userdata(w: &mut World, r: u32, t: u32) {
    w.trigger(UserdataReceived { bytes: Bytes::copy_from_slice(&encode_authoritative_tick(Tick(t))), message_tick: RepliconTick::new(r) });
}

fn write(w: &mut World, e: Entity, r: u32, c: usize, v: u8) {
    let r = RepliconTick::new(r);
    let mut b = Bytes::copy_from_slice(&[v]);
    match c {
        NA => stub_write::<A>(w, e, r, &mut b),
        NB => stub_write::<B>(w, e, r, &mut b),
        _ => stub_write::<D>(w, e, r, &mut b),
    }
    .expect("write");
}

fn confirm(w: &mut World, e: Entity, r: u32) {
    w.entity_mut(e).get_mut::<ConfirmHistory>().unwrap().confirm(RepliconTick::new(r));
}

/// What replicon's client does with the messages of this frame.
fn receive(w: &mut World) {
    let mut ib = w.remove_resource::<Inbox>().unwrap();
    for u in std::mem::take(&mut ib.updates) {
        ib.applied_updates += 1;
        userdata(w, u.r, u.t);
        for e in u.despawn {
            if let Some(e) = ib.ents[e].take() {
                stub_despawn(w, e, RepliconTick::new(u.r));
            }
        }
        for (i, s) in u.spawn {
            let e = w.spawn((Remote, ConfirmHistory::new(RepliconTick::new(u.r)))).id();
            ib.ents[i] = Some(e);
            w.entity_mut(e).insert(PredictedSend);
            stub_write::<PredictedSend>(w, e, RepliconTick::new(u.r), &mut Bytes::new()).expect("marker");
            for c in 0..3 {
                if let Some(v) = s[c] {
                    write(w, e, u.r, c, v);
                    ib.samples.push((i, c, u.t, Some(v), true));
                }
            }
            w.entity_mut(e).remove::<PredictedSend>();
            w.entity_mut(e).insert(L(i as u8));
        }
        for (i, parts) in u.parts {
            let Some(e) = ib.ents[i] else { continue };
            confirm(w, e, u.r);
            for (c, v) in parts {
                ib.samples.push((i, c, u.t, v, false));
                match v {
                    Some(v) => write(w, e, u.r, c, v),
                    None => {
                        let r = RepliconTick::new(u.r);
                        match c {
                            NA => stub_remove::<A>(w, e, r),
                            NB => stub_remove::<B>(w, e, r),
                            _ => stub_remove::<D>(w, e, r),
                        }
                    }
                }
            }
        }
    }
    for m in std::mem::take(&mut ib.mutations) {
        userdata(w, m.r, m.t);
        ib.buffered.push(m);
    }
    ib.buffered.sort_by_key(|m| std::cmp::Reverse(m.r));
    let (now, later) = std::mem::take(&mut ib.buffered).into_iter().partition(|m: &MutateMsg| m.after_update <= ib.applied_updates);
    ib.buffered = later;
    let now: Vec<MutateMsg> = now;
    for m in now {
        for (i, parts) in &m.parts {
            let Some(e) = ib.ents[*i] else { continue };
            if w.get::<ConfirmHistory>(e).unwrap().contains(RepliconTick::new(m.r)) {
                continue;
            }
            confirm(w, e, m.r);
            for (c, v) in parts {
                ib.samples.push((*i, *c, m.t, Some(*v), false));
                write(w, e, m.r, *c, *v);
            }
        }
        let n = ib.received.entry(m.r).or_default();
        *n += 1;
        if *n == m.count {
            ib.complete = ib.complete.max(Some(m.r));
        }
        ib.delivered.push(m);
    }
    let complete = ib.complete.map(RepliconTick::new);
    w.resource_mut::<ServerMutateTicks>().stub_set(complete);
    w.resource_mut::<ClientMessages>().received.clear();
    w.insert_resource(ib);
}

fn simulate(
    t: Res<LocalTimeline>,
    mut c: Commands,
    mut q: Query<(Entity, Option<&mut A>, Option<&mut B>, Option<&mut D>, Option<&mut L>), With<Predicted>>,
) {
    fn put<C: Component<Mutability = bevy_ecs::component::Mutable>>(c: &mut Commands, e: Entity, at: Option<Mut<C>>, old: Option<u8>, new: Option<u8>, f: fn(u8) -> C) {
        match (at, new) {
            (Some(mut at), Some(n)) => {
                if old != Some(n) {
                    *at = f(n);
                }
            }
            (Some(_), None) => {
                c.entity(e).remove::<C>();
            }
            (None, Some(n)) => {
                c.entity(e).insert(f(n));
            }
            (None, None) => {}
        }
    }
    for (e, a, b, d, l) in &mut q {
        let old: State = [a.as_ref().map(|x| x.0), b.as_ref().map(|x| x.0), d.as_ref().map(|x| x.0), l.as_ref().map(|x| x.0)];
        let mut s = old;
        step(t.tick().0, &mut s);
        put(&mut c, e, a, old[NA], s[NA], A);
        put(&mut c, e, b, old[NB], s[NB], B);
        put(&mut c, e, d, old[ND], s[ND], D);
        put(&mut c, e, l, old[NL], s[NL], L);
    }
}

fn before_step<const RESET: bool>(w: &mut World) {
    let ents = w.resource::<Inbox>().ents;
    let now = ents.map(|e| live(w, e));
    let mut s = w.resource_mut::<Seen>();
    for i in 0..3 {
        for c in 0..4 {
            let there = now[i].is_some_and(|x| x[c].is_some());
            s.was[i][c] = there || (!RESET && s.was[i][c]);
        }
    }
}

fn record(w: &mut World) {
    let t = w.resource::<LocalTimeline>().tick().0;
    let elapsed = w.resource::<Time>().elapsed();
    let ents = w.resource::<Inbox>().ents;
    let now = ents.map(|e| live(w, e));
    let rolling = w.contains_resource::<Rollback>();
    let mut s = w.resource_mut::<Seen>();
    for i in 0..3 {
        if let Some(x) = now[i] {
            s.hist[i].insert(t, x);
            for c in 0..4 {
                s.had[i][c] |= x[c].is_some();
                if x[c].is_some() || s.was[i][c] {
                    s.fresh[i][c] = Some(s.fresh[i][c].map_or(t, |f| f.min(t)));
                }
            }
        }
    }
    match s.times.get(&t).copied() {
        Some(d) if rolling => {
            if d != elapsed {
                s.bad_time = Some((t, d, elapsed));
            }
        }
        _ => {
            s.times.insert(t, elapsed);
        }
    }
}

fn rollbacks(w: &World) -> (u32, u32) {
    let m = w.resource::<PredictionMetrics>();
    (m.rollbacks, m.rollback_ticks)
}

fn before_check(w: &mut World) {
    let ents = w.resource::<Inbox>().ents;
    let now = ents.map(|e| live(w, e));
    let r = rollbacks(w);
    let tick = w.resource::<LocalTimeline>().tick().0;
    let mut s = w.resource_mut::<Seen>();
    s.before = now;
    for i in 0..3 {
        for c in 0..4 {
            s.had[i][c] |= now[i].is_some_and(|x| x[c].is_some());
        }
    }
    s.before_hist = s.hist.clone();
    s.fresh = Default::default();
    s.before_had = s.had;
    s.before_rollbacks = r;
    s.tick = tick;
}

fn after_rollback(w: &mut World) {
    let ents = w.resource::<Inbox>().ents;
    let now = ents.map(|e| live(w, e));
    let r = rollbacks(w);
    let tick = w.resource::<LocalTimeline>().tick().0;
    let rolling = w.contains_resource::<Rollback>() || w.resource::<PredictionManager>().is_rollback();
    let mut s = w.resource_mut::<Seen>();
    s.after = now;
    s.after_rollbacks = r;
    s.tick_after = tick;
    s.still_rolling = rolling;
}

fn d_differs(confirmed: &D, predicted: &D) -> bool {
    confirmed.0 / 2 != predicted.0 / 2
}

fn differs(c: usize, confirmed: Option<u8>, predicted: Option<u8>) -> bool {
    match (confirmed, predicted) {
        (Some(x), Some(y)) if c == ND => x / 2 != y / 2,
        (x, y) => x != y,
    }
}

fn client(c: &Case) -> App {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.add_plugins(CorePlugins { tick_duration: TICK });
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.init_resource::<bevy_diagnostic::DiagnosticsStore>();
    app.init_resource::<lightyear_transport::prelude::ChannelRegistry>();
    app.init_resource::<Inbox>();
    app.init_resource::<Seen>();
    app.add_plugins(lightyear_replication::LightyearRepliconBackend);
    app.add_plugins(LightyearRepliconClientBackend);
    app.add_plugins((PredictionMarkerPlugin, PredictionPlugin));
    app.component::<A>().replicate().predict();
    app.component::<B>().replicate().predict();
    app.component::<D>().replicate().predict().with_rollback_condition(d_differs);
    app.local_rollback::<L>();
    let delay = match c.delay_max {
        0 => InputDelayConfig::no_prediction(),
        100 => InputDelayConfig::no_input_delay(),
        n => InputDelayConfig { maximum_predicted_ticks: n, ..InputDelayConfig::no_input_delay() },
    };
    app.insert_resource(InputTimelineConfig::default().with_input_delay(delay));
    app.insert_resource(PredictionManager {
        rollback_policy: RollbackPolicy {
            state: [RollbackMode::Check, RollbackMode::Always, RollbackMode::Disabled][c.mode as usize],
            input: RollbackMode::Check,
            max_rollback_ticks: c.max,
        },
        ..Default::default()
    });
    app.init_resource::<LastConfirmedInput>();
    let mut sync = LocalTimelineSync::default();
    sync.set_synced(true);
    app.insert_resource(sync);
    app.add_systems(PreUpdate, receive.in_set(ClientSystems::Receive));
    app.add_systems(PreUpdate, before_check.after(ReplicationSystems::Receive).before(PredictionSystems::Rollback));
    app.add_systems(PreUpdate, after_rollback.after(PredictionSystems::Rollback));
    app.add_systems(FixedFirst, before_step::<true>);
    app.add_systems(FixedUpdate, (before_step::<false>, simulate).chain());
    app.add_systems(FixedLast, record);
    app.finish();
    app.cleanup();
    let link = app.world_mut().spawn((Client::default(), RemoteId(PeerId::Server), Connected, ReplicationReceiver)).id();
    app.world_mut().resource_mut::<NetworkingMetadata>().mode = NetworkTopology::Client(link);
    app.update();
    // as if it had run for a while
    app.world_mut().resource_mut::<Time<Fixed>>().advance_by(TICK * 300);
    app.world_mut().resource_mut::<LocalTimeline>().apply_delta(c.base as i32 + c.lead as i32);
    app
}

fn at(h: &BTreeMap<u32, State>, t: u32) -> Option<State> {
    h.range(..=t).next_back().map(|(_, s)| *s)
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let mut app = client(c);
    let max = match c.delay_max {
        0 => c.max,
        n => c.max.min(n),
    } as i64;
    let n = c.ents.len();
    let mut server: [ServerEnt; 3] = Default::default();
    let mut stick = c.base;
    let mut truth: BTreeMap<u32, [Option<State>; 3]> = BTreeMap::new();
    let mut r = 100u32;
    let mut updates_sent = 0usize;
    let mut net_u: Vec<(usize, UpdateMsg)> = vec![];
    let mut net_m: Vec<(usize, MutateMsg)> = vec![];
    let mut acks: Vec<(usize, usize, u32)> = vec![];
    let mut tick_of_r: BTreeMap<u32, u32> = BTreeMap::new();
    let mut last_update_arrival = 0usize;
    // (entity, component) -> samples by tick
    let mut conf: BTreeMap<(usize, usize), BTreeMap<u32, Option<u8>>> = BTreeMap::new();
    let mut tainted = [false; 3];
    let mut processed: Option<u32> = None;
    let mut mismatches: Vec<u32> = vec![];
    let mut known: Option<Fail> = None;

    for (now, f) in c.frames.iter().enumerate() {
        // server
        for k in 0..f.server_ticks {
            stick += 1;
            for i in 0..n {
                let se = &mut server[i];
                if !se.seen && c.ents[i].0 as usize <= now {
                    se.seen = true;
                    let (_, a, b, d) = c.ents[i];
                    se.s = Some([Some(a), b, Some(d), None]);
                    se.changed = [stick; 3];
                    continue;
                }
                let Some(s) = &mut se.s else { continue };
                let old = *s;
                step(stick, s);
                if k == 0 {
                    for (e, ch) in &f.changes {
                        if *e as usize == i {
                            match ch {
                                Change::A(v) => s[NA] = *v,
                                Change::B(v) => s[NB] = *v,
                                Change::D(v) => s[ND] = *v,
                                Change::Despawn => {}
                            }
                        }
                    }
                }
                for x in 0..3 {
                    if s[x] != old[x] {
                        se.changed[x] = stick;
                    }
                }
                if k == 0 && f.changes.iter().any(|(e, ch)| *e as usize == i && matches!(ch, Change::Despawn)) {
                    se.s = None;
                }
            }
            truth.insert(stick, [server[0].s, server[1].s, server[2].s]);
        }
        for (due, e, t) in &acks {
            if *due <= now {
                server[*e].acked = server[*e].acked.max(*t);
            }
        }
        acks.retain(|a| a.0 > now);
        if f.send && truth.contains_key(&stick) {
            r += 1;
            tick_of_r.insert(r, stick);
            let mut u = UpdateMsg { r, t: stick, spawn: vec![], despawn: vec![], parts: vec![] };
            let mut packets: [Vec<(usize, Vec<(usize, u8)>)>; 3] = Default::default();
            for i in 0..n {
                let se = &mut server[i];
                if !se.seen {
                    continue;
                }
                let Some(s) = se.s else {
                    if se.told.iter().any(|x| *x) || se.acked > 0 {
                        u.despawn.push(i);
                        se.told = [false; 3];
                        se.acked = 0;
                    }
                    continue;
                };
                let have: [bool; 3] = core::array::from_fn(|x| s[x].is_some());
                if se.acked == 0 {
                    u.spawn.push((i, s));
                    se.told = have;
                    se.acked = stick;
                    continue;
                }
                if have != se.told {
                    let mut parts = vec![];
                    for x in 0..3 {
                        if !have[x] && se.told[x] {
                            parts.push((x, None));
                        }
                    }
                    for x in 0..3 {
                        if have[x] && (!se.told[x] || se.changed[x] > se.acked) {
                            parts.push((x, s[x]));
                        }
                    }
                    u.parts.push((i, parts));
                    se.told = have;
                    se.acked = stick;
                    continue;
                }
                let parts: Vec<(usize, u8)> = (0..3).filter(|x| have[*x] && se.changed[*x] > se.acked).map(|x| (x, s[x].unwrap())).collect();
                if !parts.is_empty() {
                    packets[f.split[i] as usize].push((i, parts));
                }
            }
            if !u.spawn.is_empty() || !u.despawn.is_empty() || !u.parts.is_empty() {
                updates_sent += 1;
                last_update_arrival = last_update_arrival.max(now + f.update_arrive as usize);
                net_u.push((last_update_arrival, u));
            }
            let mut list: Vec<(usize, Vec<(usize, Vec<(usize, u8)>)>)> = packets.into_iter().enumerate().filter(|(_, p)| !p.is_empty()).collect();
            if list.is_empty() {
                list.push((0, vec![]));
            }
            let count = list.len();
            for (k, parts) in list {
                let m = MutateMsg { r, t: stick, after_update: updates_sent, count, parts, sent: now };
                if let Some(d) = f.arrive[k] {
                    net_m.push((now + d as usize, m));
                }
            }
        }

        // client
        {
            let mut any = 0;
            let w = app.world_mut();
            let mut ib = w.resource_mut::<Inbox>();
            ib.samples.clear();
            ib.delivered.clear();
            net_u.retain(|(due, u)| {
                let go = *due <= now;
                if go {
                    ib.updates.push(u.clone());
                    any += 1;
                }
                !go
            });
            net_m.retain(|(due, m)| {
                let go = *due <= now;
                if go {
                    ib.mutations.push(m.clone());
                    any += 1;
                }
                !go
            });
            ib.any = any > 0;
            for _ in 0..any {
                w.resource_mut::<ClientMessages>().insert_received(ServerChannel::Mutations, Bytes::new());
            }
        }
        let cur = app.world().resource::<LocalTimeline>().tick().0;
        let forced = f.forced.map(|d| cur.saturating_sub(d as u32));
        if let Some(t) = forced {
            app.world_mut().resource_mut::<StateRollbackMetadata>().request_forced_rollback(Tick(t));
        }
        let input = f.input.map(|d| cur.saturating_sub(d as u32));
        if let Some(t) = input {
            let m = app.world_mut().resource_mut::<PredictionManager>();
            m.earliest_mismatch_input.tick.set_if_lower(Tick(t));
            m.earliest_mismatch_input.has_mismatches.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        app.insert_resource(TimeUpdateStrategy::ManualDuration(TICK * f.client_ticks as u32));
        app.update();

        let (samples, delivered, complete, any, ents) = {
            let ib = app.world().resource::<Inbox>();
            (ib.samples.clone(), ib.delivered.clone(), ib.complete, ib.any, ib.ents)
        };
        for m in &delivered {
            if let Some(d) = c.frames[m.sent].ack {
                for (e, _) in &m.parts {
                    if server[*e].s.is_some() {
                        acks.push((now + 1 + d as usize, *e, m.t));
                    }
                }
            }
        }
        let s = app.world().resource::<Seen>();
        ensure_eq!(s.tick, cur, "harness", "tick before the check");
        let live_ent = |i: usize| ents[i].is_some();
        let mut first = s.first;
        let mut seeded = [[false; 4]; 3];
        for (i, x, t, v, spawn) in &samples {
            // a component that was never there was predicted to be absent
            if v.is_some() && !spawn && first[*i][*x].is_none() && s.before[*i].is_some() && !s.before_had[*i][*x] {
                first[*i][*x] = Some((*t).min(cur));
                seeded[*i][*x] = true;
            }
        }
        let predicted = |i: usize, x: usize, t: u32| first[i][x].filter(|f| *f <= t).map(|_| at(&s.before_hist[i], t).and_then(|p| p[x]));
        for (i, x, t, v, spawn) in samples {
            let m = conf.entry((i, x)).or_default();
            // Known finding of C06: an update equal to its predecessor is not kept on its own, so a
            // late one in between changes it.
            if let Some((_, before)) = m.range(..t).next_back()
                && m.range(t + 1..).any(|(_, a)| a == before)
                && *before != v
            {
                tainted[i] = true;
                obs.label("late sample between equal ones");
            }
            m.insert(t, v);
            let p = at(&s.before_hist[i], t).and_then(|p| p[x]);
            if !spawn && t <= cur && differs(x, v, p) {
                mismatches.push(t);
            }
        }
        for i in 0..3 {
            if ents[i].is_none() {
                conf.retain(|k, _| k.0 != i);
            }
        }
        let completed = complete.map(|r| tick_of_r[&r]);
        let rolled = s.after_rollbacks.0 - s.before_rollbacks.0;
        let depth = (s.after_rollbacks.1 - s.before_rollbacks.1) as i64;
        ensure!(rolled <= 1, "rollback-count", "frame {now}: {rolled} rollbacks");
        let rolled = rolled == 1;
        ensure_eq!(s.tick_after, cur, "tick-after", "frame {now}: the tick after the rollback phase");
        ensure!(!s.still_rolling, "still-rolling", "frame {now}: the rollback ended, and is still marked");
        if let Some((t, a, b)) = s.bad_time {
            return Err(Fail::new("time", format!("frame {now}: tick {t} was simulated at {a:?} and replayed at {b:?}")));
        }

        // what must, and what may, happen
        let in_range = |t: u32| (0..=max).contains(&(cur as i64 - t as i64));
        let any_ent = (0..n).any(live_ent);
        let mut start = None;
        let mut must = false;
        let mut may = false;
        let mut why = "";
        let any_tainted = (0..n).any(|i| tainted[i] && live_ent(i));
        if let Some(t) = forced {
            start = Some(t);
            must = in_range(t);
            may = must;
            why = "forced";
        } else {
            match (c.mode, completed) {
                (0, Some(t)) if processed.is_none_or(|p| t > p) && t <= cur => {
                    why = "completed tick";
                    start = Some(t);
                    let mut need = vec![];
                    for i in 0..n {
                        if !live_ent(i) || tainted[i] {
                            continue;
                        }
                        let Some(st) = truth[&t][i] else { continue };
                        for x in 0..3 {
                            let told = conf.get(&(i, x)).is_some_and(|m| m.range(..=t).next().is_some());
                            let (Some(p), true) = (predicted(i, x, t), told) else { continue };
                            if differs(x, st[x], p) {
                                need.push((i, x, st[x], p));
                            }
                        }
                    }
                    must = !need.is_empty() && in_range(t);
                    may = in_range(t) && (must || mismatches.iter().any(|m| *m <= t));
                    processed = Some(t);
                    obs.label_if(must, "mismatch at a completed tick");
                    obs.label_if(!may, "prediction confirmed");
                    ensure!(!must || rolled, "missed", "frame {now}, tick {cur}: no rollback at completed tick {t}, although {need:?}");
                }
                (1, Some(t)) if any && any_ent => {
                    why = "received state";
                    start = Some(t);
                    may = in_range(t);
                    must = may && (0..n).any(|i| live_ent(i) && (0..3).any(|x| s.had[i][x]));
                }
                _ => {}
            }
            if !must && !(may && rolled && start.is_some()) && let Some(t) = input {
                if rolled || !may {
                    why = "input";
                    start = t.checked_sub(1);
                    must = start.is_some_and(in_range);
                    may = must;
                }
            }
        }
        obs.label_if(start.is_some_and(|t| !in_range(t)), "out of range");
        if must {
            ensure!(rolled, "missed", "frame {now}, tick {cur}: no rollback to {start:?} ({why})");
        }
        if rolled && !any_tainted {
            ensure!(may, "spurious", "frame {now}, tick {cur}: a rollback of {depth} ticks without cause ({why})");
        }
        if rolled {
            let Some(mut t) = start else { return Ok(()) };
            if (!must || any_tainted) && input.is_some_and(|i| i.checked_sub(1) == Some(t)) && (why != "input" || completed == Some(t)) {
                // either of two causes
                return Ok(());
            }
            if depth != cur as i64 - t as i64 && input.is_some() && forced.is_none() {
                // a state mismatch that needed no rollback, and an input that did
                t = input.unwrap().saturating_sub(1);
                why = "input";
            }
            if any_tainted && depth != cur as i64 - t as i64 {
                obs.label("given up: late sample between equal ones");
                return Ok(());
            }
            ensure_eq!(depth, cur as i64 - t as i64, "depth", "frame {now}, tick {cur}: rollback ({why})");
            obs.nontrivial();
            obs.label(&format!("rollback: {why}"));
            if why == "completed tick" {
                mismatches.clear();
            }
            let comparable = why == "completed tick" || why == "received state" || processed.or(completed).is_none_or(|p| t >= p);
            if why != "completed tick" && why != "received state" && !comparable {
                obs.label("rollback before the completed tick");
            }
            let before_all = s.before;
            let mut unsure = [false; 3];
            let mut restored = [[false; 4]; 3];
            let mut restored_all: [Option<State>; 3] = [None; 3];
            for i in 0..n {
                if !live_ent(i) {
                    continue;
                }
                let before = s.before[i].unwrap();
                let mut st = before;
                for x in 0..4 {
                    let known_here = conf.get(&(i, x)).and_then(|m| m.range(..=t).next_back());
                    let has_history = first[i][x].is_some() || s.had[i][x];
                    restored[i][x] = has_history
                        && if why != "input" && conf.get(&(i, x)).is_some_and(|m| !m.is_empty()) { known_here.is_some() } else { predicted(i, x, t).is_some() };
                    st[x] = match (why, known_here) {
                        ("completed tick" | "received state", Some((_, v))) => {
                            let want = truth[&t][i].expect("server entity")[x];
                            ensure!(tainted[i] || want == *v, "harness", "told {v:?} about {i}.{x} at {t}, server has {want:?}");
                            want
                        }
                        ("forced", Some((_, v))) => *v,
                        ("completed tick" | "received state" | "forced", None) if conf.get(&(i, x)).is_some_and(|m| !m.is_empty()) => {
                            obs.label("confirmed only after the rollback");
                            if before[x].is_none() && predicted(i, x, t).flatten().is_some() {
                                unsure[i] = true;
                            }
                            before[x]
                        }
                        _ => predicted(i, x, t).unwrap_or(before[x]),
                    };
                }
                restored_all[i] = Some(st);
                if tainted[i] || !comparable {
                    continue;
                }
                let mut late = st;
                let mut early = st;
                let mut newer = false;
                for k in t + 1..=cur {
                    let snap: Vec<(usize, Option<u8>)> = (0..3).filter_map(|x| Some((x, *conf.get(&(i, x))?.get(&k)?))).collect();
                    newer |= !snap.is_empty();
                    for (x, v) in &snap {
                        early[*x] = *v;
                    }
                    step(k, &mut early);
                    step(k, &mut late);
                    for (x, v) in &snap {
                        late[*x] = *v;
                    }
                }
                obs.label_if(newer, "newer samples");
                obs.label_if(t < cur, "replayed");
                let got = s.after[i].unwrap();
                if got == early && got != late {
                    known = Some(Fail::new("newer-sample-stepped-again", format!("frame {now}, tick {cur}, rollback to {t}: entity {i} is {got:?} instead of {late:?}")));
                    continue;
                }
                ensure!(got == late, "state", "frame {now}, tick {cur}: rollback to {t} ({why}) gave entity {i} {got:?}, expected {late:?} (not {early:?}) from {st:?}; told {:?}", conf.range((i, 0)..(i + 1, 0)).collect::<Vec<_>>());
            }
            let mut sm = app.world_mut().resource_mut::<Seen>();
            for i in 0..n {
                tainted[i] |= unsure[i];
                if let Some(st) = restored_all[i] {
                    sm.hist[i].insert(t, st);
                    for x in 0..4 {
                        first[i][x] = match first[i][x] {
                            Some(f) if f <= t => Some(f),
                            _ if st[x].is_some() || restored[i][x] => Some(t),
                            _ => None,
                        };
                    }
                }
            }
        } else {
            for i in 0..n {
                ensure_eq!(s.after[i], s.before[i], "touched", "frame {now}, tick {cur}: entity {i} changed without a rollback");
            }
        }
        let mut sm = app.world_mut().resource_mut::<Seen>();
        for i in 0..3 {
            for x in 0..4 {
                sm.had[i][x] |= seeded[i][x];
                sm.first[i][x] = first[i][x].into_iter().chain(sm.fresh[i][x]).min();
            }
            if ents[i].is_none() {
                sm.hist[i].clear();
                sm.first[i] = [None; 4];
                sm.had[i] = [false; 4];
                tainted[i] = false;
            }
        }
    }
    match known {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

pub fn subs() -> Vec<Sub> {
    vec![sub("C40", "client", 40_000, 800_000, case, check)]
}

