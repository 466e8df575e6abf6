//! C39 inputs over a network, from the clients to the server and from there to other clients.

use crate::fw::{Obs, Res as Outcome, Sub, bx, sub};
use crate::{ensure, ensure_eq};
use bevy_app::{App, FixedPreUpdate, FixedUpdate, TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::entity::{EntityMapper, MapEntities};
use bevy_ecs::prelude::*;
use bevy_reflect::Reflect;
use bevy_time::TimeUpdateStrategy;
use bytes::Bytes;
use lightyear_connection::ConnectionPlugin;
use lightyear_connection::client::{Client, Connected};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::host::HostPlugin;
use lightyear_connection::server::Started;
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::tick::Tick;
use lightyear_core::timeline::LocalTimeline;
use lightyear_inputs::client::InputSystems as ClientInputs;
use lightyear_inputs::config::InputConfig;
use lightyear_inputs::server::{InputSystems as ServerInputs, InputValidationAppExt, authorize_controlled_targets};
use lightyear_inputs_native::plugin::InputPlugin;
use lightyear_inputs_native::prelude::{ActionState, InputMarker, NativeBuffer, NativeStateSequence};
use lightyear_interpolation::timeline::InterpolationTimeline;
use lightyear_link::server::{LinkOf, Server};
use lightyear_link::{Link, Linked, recv_payload_from_bytes};
use lightyear_messages::MessageManager;
use lightyear_messages::plugin::MessagePlugin;
use lightyear_prediction::manager::PredictionManager;
use lightyear_replication::control::{ControlledBy, Lifetime};
use lightyear_sync::timeline::input::{InputDelayConfig, InputTimelineConfig, LocalTimelineSync};
use lightyear_sync::timeline::sync::{SyncConfig, TimelineSync};
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::{ChannelRegistry, Transport};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::time::Duration;

macro_rules! eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)+) => {
        ensure_eq!($a, $b, $sig, $($arg)+)
    };
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug, Default, Reflect)]
pub struct In(u8);
impl MapEntities for In {
    fn map_entities<M: EntityMapper>(&mut self, _: &mut M) {}
}

const TICK: Duration = Duration::from_micros(15_625);

/// What the player does at the next ticks; the value of any other marked entity.
#[derive(Resource, Default)]
struct Script {
    mine: Option<Entity>,
    values: VecDeque<u8>,
    current: u8,
}

/// tick, entity, value at the simulation of that tick
#[derive(Resource, Default)]
struct Log(Vec<(u32, Entity, u8)>);

fn write_inputs(mut s: ResMut<Script>, mut q: Query<(Entity, &mut ActionState<In>), With<InputMarker<In>>>) {
    if let Some(v) = s.values.pop_front() {
        s.current = v;
    }
    for (e, mut a) in &mut q {
        a.0 = In(if Some(e) == s.mine { s.current } else { 200 });
    }
}

fn log_inputs(t: Res<LocalTimeline>, mut l: ResMut<Log>, q: Query<(Entity, &ActionState<In>)>) {
    for (e, a) in &q {
        l.0.push((t.tick().0, e, a.0.0));
    }
}

fn new_app(tick: u32, redundancy: u16, rebroadcast: bool, validate: bool) -> App {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.add_plugins(CorePlugins { tick_duration: TICK });
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.init_resource::<ChannelRegistry>();
    app.init_resource::<Script>();
    app.init_resource::<Log>();
    app.init_resource::<InterpolationTimeline>();
    app.add_plugins((ConnectionPlugin, HostPlugin, TransportPlugin));
    app.add_plugins(lightyear_sync::client::ClientPlugin);
    app.add_plugins(InputPlugin::<In> {
        config: InputConfig { packet_redundancy: redundancy, rebroadcast_inputs: rebroadcast, ..Default::default() },
    });
    if validate {
        app.add_input_validator(authorize_controlled_targets::<NativeStateSequence<In>>);
    }
    app.add_plugins(MessagePlugin);
    app.add_systems(FixedPreUpdate, write_inputs.in_set(ClientInputs::WriteClientInputs));
    app.add_systems(FixedUpdate, log_inputs);
    // The two halves of the plugin do not order the applied input after the buffered one by name only.
    app.configure_sets(FixedPreUpdate, ServerInputs::UpdateActionState.after(ClientInputs::BufferClientInputs));
    app.finish();
    app.cleanup();
    app.world_mut().resource_mut::<LocalTimeline>().apply_delta(tick as i32);
    app
}

fn run(app: &mut App, ticks: u8) {
    app.insert_resource(TimeUpdateStrategy::ManualDuration(TICK * ticks as u32));
    app.update();
}

fn tick_of(app: &App) -> u32 {
    app.world().resource::<LocalTimeline>().tick().0
}

fn drain(app: &mut App, link: Entity) -> Vec<Bytes> {
    app.world_mut().entity_mut(link).get_mut::<Link>().unwrap().send.drain().map(|p| Bytes::copy_from_slice(p.as_ref())).collect()
}

fn deliver(app: &mut App, link: Entity, data: &[Bytes]) {
    let mut em = app.world_mut().entity_mut(link);
    let mut l = em.get_mut::<Link>().unwrap();
    for p in data {
        l.recv.push_raw(recv_payload_from_bytes(p.clone()));
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sent {
    /// frames until it arrives, or never
    arrives: Option<u8>,
    again: Option<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Frame {
    server_ticks: u8,
    client_ticks: [u8; 2],
    values: [u8; 2],
    up: [Sent; 2],
    down: [Sent; 2],
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct NetCase {
    base: u16,
    lead: [u8; 2],
    delay: [u8; 2],
    redundancy: u8,
    rebroadcast: bool,
    validate: bool,
    /// the second client also sends inputs for the first one's entity
    foreign: bool,
    /// whether the server's entities have a buffer from the start
    buffered: bool,
    frames: Vec<Frame>,
}

fn sent() -> BoxedStrategy<Sent> {
    bx((
        prop_oneof![12 => (0u8..3).prop_map(Some), 2 => (0u8..12).prop_map(Some), 2 => Just(None)],
        prop_oneof![8 => Just(None), 1 => (0u8..14).prop_map(Some)],
    )
        .prop_map(|(arrives, again)| Sent { arrives, again }))
}

fn net_case() -> BoxedStrategy<NetCase> {
    let steps = || prop_oneof![12 => Just(1u8), 1 => Just(0u8), 2 => Just(2u8), 1 => Just(3u8)];
    let frame = (steps(), [steps(), steps()], [0u8..4, 0u8..4], [sent(), sent()], [sent(), sent()]).prop_map(
        |(server_ticks, client_ticks, values, up, down)| Frame { server_ticks, client_ticks, values, up, down },
    );
    let lead = || prop_oneof![8 => 0u8..12, 1 => 55u8..75];
    bx((
        prop_oneof![0u16..4, 300u16..400],
        [lead(), lead()],
        [prop_oneof![2 => Just(0u8), 1 => 1u8..6], prop_oneof![2 => Just(0u8), 1 => 1u8..6]],
        prop_oneof![Just(5u8), 1u8..8],
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
        vec(frame, 5..50),
    )
        .prop_map(|(base, lead, delay, redundancy, (rebroadcast, validate, foreign, buffered), frames)| NetCase {
            base,
            lead,
            delay,
            redundancy,
            rebroadcast,
            validate,
            foreign: foreign && validate,
            buffered,
            frames,
        }))
}

/// What a receiver of one player's inputs knows.
#[derive(Default, Clone)]
struct Known {
    newest: Option<u32>,
    /// received, or repeated over a gap
    at: BTreeMap<u32, (u8, bool)>,
}

impl Known {
    fn take(&mut self, m: &Msg, inputs: &BTreeMap<u32, u8>) -> bool {
        if self.newest.is_some_and(|n| n >= m.end) {
            return false;
        }
        let from = self.newest.map_or(m.start, |n| m.start.max(n + 1));
        if let Some(n) = self.newest {
            let repeated = self.at[&n].0;
            for t in n + 1..from {
                self.at.insert(t, (repeated, false));
            }
        }
        for t in from..=m.end {
            self.at.insert(t, (inputs[&t], true));
        }
        self.newest = Some(m.end);
        true
    }
}

/// The ticks a message says something about.
#[derive(Clone, Copy, Debug)]
struct Msg {
    start: u32,
    end: u32,
}

struct Bundle {
    due: u64,
    data: Vec<Bytes>,
    /// player, message
    said: Vec<(usize, Msg)>,
}

fn post(wire: &mut Vec<Bundle>, now: u64, fate: &Sent, data: Vec<Bytes>, said: Vec<(usize, Msg)>) {
    if let Some(n) = fate.arrives {
        wire.push(Bundle { due: now + n as u64, data: data.clone(), said: said.clone() });
        if let Some(m) = fate.again {
            wire.push(Bundle { due: now + n as u64 + m as u64, data, said });
        }
    }
}

fn arrivals(wire: &mut Vec<Bundle>, now: u64) -> Vec<Bundle> {
    let (mut due, rest): (Vec<_>, Vec<_>) = std::mem::take(wire).into_iter().partition(|b| b.due <= now);
    due.sort_by_key(|b| b.due);
    *wire = rest;
    due
}

fn check_net(c: &NetCase, obs: &mut Obs) -> Outcome {
    let base = c.base as u32;
    let mut server = new_app(base, 5, c.rebroadcast, c.validate);
    let server_entity = server.world_mut().spawn((Server::default(), Started)).id();
    let mut clients = vec![];
    // link and player entity on the server; link, player entity on the client
    let (mut links, mut on_server, mut client_links, mut mine) = (vec![], vec![], vec![], vec![]);
    for i in 0..2 {
        let peer = PeerId::Netcode(i as u64 + 1);
        let w = server.world_mut();
        let link = w
            .spawn((LinkOf { server: server_entity }, ClientOf, Link::default(), Linked, Transport::default(), RemoteId(peer), Connected))
            .id();
        let e = w.spawn((ActionState(In(0)), ControlledBy { owner: link, lifetime: Lifetime::Persistent })).id();
        if c.buffered {
            w.entity_mut(e).insert(NativeBuffer::<In>::default());
        }
        w.flush();
        links.push(link);
        on_server.push(e);
    }
    for i in 0..2 {
        let mut app = new_app(base + c.lead[i] as u32, c.redundancy as u16, c.rebroadcast, false);
        let w = app.world_mut();
        w.insert_resource(PredictionManager::default());
        let link = w.spawn((Client, Link::default(), Linked, Transport::default(), RemoteId(PeerId::Server), Connected)).id();
        let e = w.spawn((ActionState(In(0)), InputMarker::<In>::default())).id();
        w.resource_mut::<Script>().mine = Some(e);
        w.flush();
        w.entity_mut(link).get_mut::<MessageManager>().unwrap().entity_mapper.insert(on_server[i], e);
        client_links.push(link);
        mine.push(e);
        clients.push(app);
    }
    // The other player on each client.
    let mut others = vec![];
    for i in 0..2 {
        let w = clients[i].world_mut();
        let e = w.spawn_empty().id();
        if c.foreign && i == 1 {
            w.entity_mut(e).insert((ActionState(In(0)), InputMarker::<In>::default()));
        }
        w.flush();
        let link = client_links[i];
        w.entity_mut(link).get_mut::<MessageManager>().unwrap().entity_mapper.insert(on_server[1 - i], e);
        others.push(e);
    }
    for i in 0..2 {
        run(&mut clients[i], 0);
        let w = clients[i].world_mut();
        w.insert_resource(
            InputTimelineConfig::default()
                .with_input_delay(InputDelayConfig::fixed_input_delay(c.delay[i] as u16))
                // The schedule of ticks is the case's.
                .with_sync_config(SyncConfig { error_margin: 1e9, max_error_margin: 1e9, ..Default::default() }),
        );
        w.flush();
        w.resource_mut::<LocalTimelineSync>().set_synced(true);
        w.resource_mut::<InterpolationTimeline>().set_synced(true);
        ensure_eq!(w.resource::<LocalTimelineSync>().input_delay(), c.delay[i] as u16, "harness", "input delay");
        drain(&mut clients[i], client_links[i]);
    }
    run(&mut server, 0);
    for l in &links {
        drain(&mut server, *l);
    }

    let mut inputs = [BTreeMap::new(), BTreeMap::new()];
    let mut known = [Known::default(), Known::default()];
    let mut remote = [Known::default(), Known::default()];
    let mut applied = [0u8; 2];
    let (mut up, mut down) = ([vec![], vec![]], [vec![], vec![]]);
    for (now, f) in c.frames.iter().enumerate() {
        let now = now as u64;
        for i in 0..2 {
            let before = tick_of(&clients[i]);
            for b in arrivals(&mut down[i], now) {
                deliver(&mut clients[i], client_links[i], &b.data);
                // The channel is unordered: of several messages sent at once, the one with the newest
                // inputs may be read first, and the others then only fill ticks that were repeated.
                let newest = b.said.iter().max_by_key(|(_, m)| m.end);
                if let Some((p, m)) = newest {
                    // A player's own messages do not come back.
                    ensure!(*p != i, "harness", "own message");
                    if remote[i].take(m, &inputs[*p]) {
                        obs.label("input rebroadcast");
                    }
                }
            }
            clients[i].world_mut().resource_mut::<Script>().values.push_back(f.values[i]);
            run(&mut clients[i], f.client_ticks[i]);
            let after = tick_of(&clients[i]);
            ensure_eq!(after, before + f.client_ticks[i] as u32, "harness", "client ticks");
            clients[i].world_mut().resource_mut::<Script>().values.clear();
            let delay = c.delay[i] as u32;
            for t in before + 1..=after {
                inputs[i].insert(t + delay, f.values[i]);
            }
            // The player's own simulation uses the input of the tick.
            let (me, other) = (mine[i], others[i]);
            for (t, e, v) in std::mem::take(&mut clients[i].world_mut().resource_mut::<Log>().0) {
                if e == me && let Some(want) = inputs[i].get(&t) {
                    eq!(v, *want, "own-input", "client {i} simulated tick {t}");
                    obs.label_if(delay > 0, "input delayed");
                }
                if e == other && !(c.foreign && i == 1) && let Some((want, true)) = remote[i].at.get(&t) {
                    eq!(v, *want, "remote-input", "client {i} simulated the other player at tick {t}");
                    obs.label("remote input known in time");
                }
            }
            if f.client_ticks[i] > 0 {
                let v = clients[i].world().get::<ActionState<In>>(me).unwrap().0.0;
                eq!(v, f.values[i], "restored", "client {i}'s current action after tick {after}");
            }
            if let Some(b) = clients[i].world().get::<NativeBuffer<In>>(other)
                && !c.foreign
            {
                let from = after.saturating_sub(19);
                for (t, (v, received)) in remote[i].at.range(from..) {
                    if *received {
                        eq!(b.get(Tick(*t)).map(|a| a.0.0), Some(*v), "remote-buffer", "client {i} (tick {after}), tick {t} of the other player");
                    }
                }
            }
            let data = drain(&mut clients[i], client_links[i]);
            let mut said = vec![];
            if let Some((first, _)) = inputs[i].first_key_value() {
                let end = after + delay;
                said.push((i, Msg { start: (end + 1).saturating_sub(c.redundancy as u32).max(*first), end }));
            }
            post(&mut up[i], now, &f.up[i], data, said);
        }

        let before = tick_of(&server);
        let mut passed_on = [vec![], vec![]];
        for i in 0..2 {
            for b in arrivals(&mut up[i], now) {
                deliver(&mut server, links[i], &b.data);
                for (p, m) in b.said {
                    if m.end > before + 64 || m.end + 256 < before {
                        obs.label("outside the window");
                        continue;
                    }
                    let stale = !known[p].take(&m, &inputs[p]);
                    obs.label_if(stale, "older message");
                    obs.label_if(m.end <= before, "late message");
                    passed_on[1 - p].push((p, m));
                }
            }
        }
        run(&mut server, f.server_ticks);
        let after = tick_of(&server);
        ensure_eq!(after, before + f.server_ticks as u32, "harness", "server ticks");
        let log = std::mem::take(&mut server.world_mut().resource_mut::<Log>().0);
        for t in before + 1..=after {
            for i in 0..2 {
                let k = &known[i];
                let newest = k.newest.unwrap_or(0);
                if let Some((v, received)) = k.at.get(&t.min(newest)) {
                    applied[i] = *v;
                    if t <= newest && *received {
                        obs.label("input in time");
                        obs.nontrivial();
                    } else {
                        obs.label("input repeated");
                    }
                }
                let got = log.iter().find(|(lt, e, _)| *lt == t && *e == on_server[i]).map(|l| l.2);
                if std::env::var_os("DBG").is_some() { eprintln!("server tick {t} player {i} got {got:?} buf {:?}", server.world().get::<NativeBuffer<In>>(on_server[i])); }
                eq!(got, Some(applied[i]), "server-input", "player {i} at server tick {t} (known up to {:?})", k.newest);
            }
        }
        for i in 0..2 {
            let data = drain(&mut server, links[i]);
            let said = if c.rebroadcast { std::mem::take(&mut passed_on[i]) } else { vec![] };
            post(&mut down[i], now, &f.down[i], data, said);
        }
    }
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![sub("C39", "server", 12_000, 200_000, net_case, check_net)]
}
