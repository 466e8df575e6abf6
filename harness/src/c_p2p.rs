//! Peer-to-peer start barrier (C30): a mesh of complete applications over a simulated network.

use crate::ensure;
use crate::fw::{Obs, Res as Verdict, Sub, sub};
use crate::util::clock_set;
use aeronet_io::connection::LocalAddr;
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::{ScheduleLabel, SingleThreadedExecutor};
use bevy_time::{Real, Time, TimeUpdateStrategy};
use lightyear_connection::client::{Connected, ConnectionPlugin};
use lightyear_connection::network_topology::{NetworkTopology, NetworkingMetadata};
use lightyear_connection::p2p::P2P;
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::{LocalTimeline, Tick, TimelineSystems};
use lightyear_core::timeline::LocalTimelineShift;
use lightyear_link::prelude::{Unlink, UnlinkReason, Unlinked};
use lightyear_link::{Link, LinkPlugin, Linked, recv_payload_from_bytes};
use lightyear_messages::plugin::MessagePlugin;
use lightyear_p2p::prelude::*;
use lightyear_raw_connection::client::{RawClient, RawConnectionPlugin};
use lightyear_sync::client::ClientPlugin;
use lightyear_sync::prelude::*;
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Start,
    Stop { unlink: bool },
    /// stop and start again at once
    Rematch,
    /// both ends of the link to this peer fail
    Drop(u8),
    /// both ends of the link to this peer are up again
    Restore(u8),
    /// the entity of the link to this peer is despawned
    Despawn(u8),
    /// a link to a peer nobody knows is declared
    Declare,
    /// the application freezes for this long (ms)
    Stall(u16),
    /// nothing arrives anywhere for this long (ms)
    Blackout(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Timed {
    ms: u16,
    peer: u8,
    /// run inside Update rather than between two frames
    inside: bool,
    op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    /// when each peer starts (ms into the round), if it does
    starts: Vec<Option<u16>>,
    /// links left out of the cohort: (peer, other)
    without: Vec<(u8, u8)>,
    /// links that are still down when the round begins: (peer, other, up again after)
    late: Vec<(u8, u8, u16)>,
    faults: Vec<Timed>,
    inside: bool,
    length_ms: u16,
    unlink: bool,
    /// the previous session is left to run, and everyone stops and starts again at once
    rematch: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    n: u8,
    tick_us: u32,
    /// frame durations in percent of a tick
    frames: Vec<Vec<u16>>,
    clocks: Vec<u32>,
    delay_ticks: Vec<u16>,
    timeout_ms: u16,
    latency_us: Vec<u32>,
    jitter_us: u32,
    loss_permille: u16,
    duplicate_permille: u16,
    rounds: Vec<Round>,
    dice: Vec<u16>,
}

fn starts(n: usize) -> BoxedStrategy<Vec<Option<u16>>> {
    let together = vec(0u16..40, n).prop_map(|v| v.into_iter().map(Some).collect::<Vec<_>>());
    let spread = vec(0u16..1500, n).prop_map(|v| v.into_iter().map(Some).collect::<Vec<_>>());
    let partial = vec(prop::option::weighted(0.8, 0u16..3000), n);
    prop_oneof![3 => together, 3 => spread, 1 => partial].boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => Just(Op::Start),
        2 => any::<bool>().prop_map(|unlink| Op::Stop { unlink }),
        2 => Just(Op::Rematch),
        3 => (0u8..4).prop_map(Op::Drop),
        2 => (0u8..4).prop_map(Op::Restore),
        1 => (0u8..4).prop_map(Op::Despawn),
        1 => Just(Op::Declare),
        2 => (20u16..1500).prop_map(Op::Stall),
        1 => (20u16..1500).prop_map(Op::Blackout),
    ]
    .boxed()
}

fn round(n: usize, calm: bool) -> BoxedStrategy<Round> {
    let timed = (0u16..6000, 0u8..n as u8, any::<bool>(), op()).prop_map(|(ms, peer, inside, op)| Timed { ms, peer, inside, op });
    let pair = move || (0u8..n as u8, 0u8..n as u8);
    let (without, faults) = if calm {
        (Just(vec![]).boxed(), Just(vec![]).boxed())
    } else {
        (
            prop_oneof![3 => Just(vec![]).boxed(), 1 => vec(pair(), 1..4).boxed()].boxed(),
            prop_oneof![1 => Just(vec![]).boxed(), 3 => vec(timed, 1..5).boxed()].boxed(),
        )
    };
    let late = prop_oneof![3 => Just(vec![]).boxed(), 1 => vec((pair(), 0u16..1200).prop_map(|((a, b), t)| (a, b, t)), 1..3).boxed()];
    (starts(n), without, late, faults, any::<bool>(), 500u16..6000, prop::bool::weighted(0.2), prop::bool::weighted(0.3))
        .prop_map(|(starts, without, late, faults, inside, length_ms, unlink, rematch)| {
            Round { starts, without, late, faults, inside, length_ms, unlink, rematch }
        })
        .boxed()
}

fn case(calm: bool) -> BoxedStrategy<Case> {
    prop_oneof![3 => Just(2usize), 3 => Just(3usize), 1 => Just(4usize)]
        .prop_flat_map(move |n| {
            let frames = vec(
                prop_oneof![3 => vec(Just(100u16), 1..2), 2 => vec(60u16..140, 2..5), 1 => vec(20u16..60, 2..5), 1 => vec(prop_oneof![50u16..150, 300u16..600], 2..5)],
                n,
            );
            let clocks = prop_oneof![
                2 => vec(0u32..20, n).boxed(),
                2 => vec(0u32..2000, n).boxed(),
                1 => vec(1_000_000u32..1_002_000, n).boxed(),
            ];
            let delay = prop_oneof![2 => Just(vec![120u16; n]).boxed(), 3 => vec(0u16..60, n).boxed(), 1 => (20u16..100).prop_map(move |d| vec![d; n]).boxed()];
            let lat = vec(prop_oneof![2 => Just(0u32), 4 => 1000u32..60_000, 1 => 60_000u32..250_000], n * n);
            (
                (prop_oneof![Just(10_000u32), Just(20_000), Just(50_000)], frames, clocks, delay, prop_oneof![2 => Just(5000u16), 1 => 300u16..6000]),
                (lat, prop_oneof![1 => Just(0u32), 2 => 1000u32..20_000], prop_oneof![2 => Just(0u16), 1 => 10u16..200], prop_oneof![2 => Just(0u16), 1 => 10u16..300]),
                (vec(round(n, calm), 1..4), vec(any::<u16>(), 8..40)),
            )
                .prop_map(move |((tick_us, frames, clocks, delay_ticks, timeout_ms), (latency_us, jitter_us, loss_permille, duplicate_permille), (rounds, dice))| Case {
                    n: n as u8,
                    tick_us,
                    frames,
                    clocks,
                    delay_ticks,
                    timeout_ms,
                    latency_us,
                    jitter_us,
                    loss_permille,
                    duplicate_permille,
                    rounds,
                    dice,
                })
        })
        .boxed()
}

#[derive(Clone, Debug)]
struct StartSeen {
    /// number of starts accepted so far
    attempt: usize,
    tick: u32,
    clock: u32,
    mode: NetworkTopology,
    states: Vec<(Entity, P2P, bool)>,
}

#[derive(Resource, Default)]
struct Log {
    started: Vec<StartSeen>,
    stopped: u32,
    /// ticks of FixedUpdate runs with whether the session was started
    ran: Vec<(u32, bool)>,
    shifts: Vec<(i32, bool)>,
    in_fixed_first: bool,
    accepted: usize,
    outside: u32,
}

#[derive(Resource, Default)]
struct Todo(Vec<Op>);
#[derive(Resource, Default)]
struct Done(Vec<(Op, Before, After)>);

#[derive(Clone, Debug)]
struct Before {
    state: P2PSessionState,
    inactive: BTreeMap<Entity, Option<PeerId>>,
    stopped: u32,
    real: Duration,
}
#[derive(Clone, Debug)]
struct After {
    state: P2PSessionState,
    links: Vec<(Entity, P2P, bool)>,
    stopped: u32,
}

fn snapshot(w: &mut World) -> Before {
    let mut q = w.query::<(Entity, &P2P, Option<&RemoteId>)>();
    Before {
        state: w.resource::<P2PSession>().state(),
        inactive: q.iter(w).filter(|(_, p, _)| **p == P2P::Inactive).map(|(e, _, r)| (e, r.map(|r| r.0))).collect(),
        stopped: w.resource::<Log>().stopped,
        real: w.resource::<Time<Real>>().elapsed(),
    }
}

fn perform(w: &mut World, op: Op) {
    if let Op::Rematch = op {
        perform(w, Op::Stop { unlink: false });
        perform(w, Op::Start);
        return;
    }
    let before = snapshot(w);
    if matches!(op, Op::Start) && before.state == P2PSessionState::Stopped && !before.inactive.is_empty() {
        w.resource_mut::<Log>().accepted += 1;
    }
    match op {
        Op::Start => w.trigger(P2PStart),
        Op::Stop { unlink } => w.trigger(P2PStop { unlink }),
        _ => unreachable!(),
    }
    w.flush();
    let mut q = w.query::<(Entity, &P2P, Has<Unlinked>)>();
    let after = After {
        state: w.resource::<P2PSession>().state(),
        links: q.iter(w).map(|(e, p, u)| (e, *p, u)).collect(),
        stopped: w.resource::<Log>().stopped,
    };
    w.resource_mut::<Done>().0.push((op, before, after));
}

fn todo(w: &mut World) {
    for op in std::mem::take(&mut w.resource_mut::<Todo>().0) {
        perform(w, op);
    }
}

fn app(c: &Case, i: usize) -> App {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.add_plugins(CorePlugins { tick_duration: Duration::from_micros(c.tick_us as u64) });
    app.init_resource::<ChannelRegistry>();
    app.init_resource::<Log>();
    app.init_resource::<Todo>();
    app.init_resource::<Done>();
    app.add_plugins((LinkPlugin, lightyear_connection::ConnectionPlugin, ConnectionPlugin, TransportPlugin));
    app.add_plugins(RawConnectionPlugin);
    app.add_plugins(ClientPlugin);
    app.add_plugins(P2PSessionPlugin);
    app.insert_resource(P2PSession::default().with_start_delay_ticks(c.delay_ticks[i]).with_start_timeout(Duration::from_millis(c.timeout_ms as u64)));
    app.add_plugins(MessagePlugin);
    app.add_systems(Update, todo);
    app.add_systems(FixedFirst, (|mut l: ResMut<Log>| l.in_fixed_first = true).before(TimelineSystems::IncrementLocal));
    app.add_systems(FixedPreUpdate, |mut l: ResMut<Log>| l.in_fixed_first = false);
    app.add_systems(FixedUpdate, |s: Res<P2PSession>, t: Res<LocalTimeline>, mut l: ResMut<Log>| {
        let e = (t.tick().0, s.is_started());
        l.ran.push(e)
    });
    app.add_observer(
        |e: On<P2PStarted>, t: Res<LocalTimeline>, m: Res<NetworkingMetadata>, q: Query<(Entity, &P2P, Has<Connected>)>, mut l: ResMut<Log>| {
            let seen = StartSeen {
                attempt: l.accepted,
                tick: e.start_tick.0,
                clock: t.tick().0,
                mode: m.mode.clone(),
                states: q.iter().map(|(e, p, c)| (e, *p, c)).collect(),
            };
            l.started.push(seen);
            if !l.in_fixed_first {
                l.outside += 1;
            }
        },
    );
    app.add_observer(|_: On<P2PStopped>, mut l: ResMut<Log>| l.stopped += 1);
    app.add_observer(|t: On<LocalTimelineShift>, s: Res<P2PSession>, mut l: ResMut<Log>| {
        let e = (t.delta, s.is_started());
        l.shifts.push(e)
    });
    app.finish();
    app.cleanup();
    for l in [PreUpdate.intern(), Update.intern(), PostUpdate.intern(), First.intern(), Last.intern(), FixedFirst.intern()] {
        app.edit_schedule(l, |s| {
            s.set_executor(SingleThreadedExecutor::new());
        });
    }
    app.world_mut().resource_mut::<LocalTimeline>().apply_delta(c.clocks[i] as i32);
    app
}

fn id(i: usize) -> PeerId {
    PeerId::Entity(i as u64)
}

struct Packet {
    from: usize,
    to: usize,
    at: u64,
    epoch: u32,
    bytes: Vec<u8>,
}

#[derive(Clone, Debug)]
struct Attempt {
    roster: BTreeSet<usize>,
    /// agreed start tick as observed in the public state
    seen: Option<u32>,
    started: Option<u32>,
    began: Duration,
    aborted: Option<String>,
}

struct Mesh<'a> {
    c: &'a Case,
    n: usize,
    apps: Vec<App>,
    /// link entity of peer i to peer j
    links: Vec<Vec<Option<Entity>>>,
    up: Vec<Vec<bool>>,
    epoch: Vec<Vec<u32>>,
    now: u64,
    next: Vec<u64>,
    last: Vec<u64>,
    nframe: Vec<usize>,
    flight: Vec<Packet>,
    die: usize,
    blackout_until: u64,
    extra: u8,
    /// one entry per accepted start of each peer
    attempts: Vec<Vec<Attempt>>,
    /// any event this round that may legitimately end an attempt
    disturbed: bool,
    stalled: bool,
    prev: Vec<P2PSessionState>,
    lossy: bool,
    alone: Vec<bool>,
    packets: u64,
}

impl<'a> Mesh<'a> {
    fn new(c: &'a Case) -> Mesh<'a> {
        let n = c.n as usize;
        let mut m = Mesh {
            c,
            n,
            apps: (0..n).map(|i| app(c, i)).collect(),
            links: vec![vec![None; n]; n],
            up: vec![vec![false; n]; n],
            epoch: vec![vec![0; n]; n],
            now: 0,
            next: (0..n).map(|i| i as u64 * 137).collect(),
            last: vec![0; n],
            nframe: vec![0; n],
            flight: vec![],
            die: 0,
            blackout_until: 0,
            extra: 0,
            attempts: vec![vec![]; n],
            disturbed: false,
            stalled: false,
            prev: vec![P2PSessionState::Stopped; n],
            lossy: c.loss_permille > 0,
            alone: vec![false; n],
            packets: 0,
        };
        for i in 0..n {
            for j in 0..n {
                m.declare(i, j);
            }
        }
        for i in 0..n {
            for j in 0..i {
                m.restore(i, j);
            }
        }
        m
    }

    fn declare(&mut self, i: usize, j: usize) {
        if i != j && self.links[i][j].is_none() {
            let addr = LocalAddr(format!("127.0.0.1:{}", 10_000 + i * 16 + j).parse().unwrap());
            let e = self.apps[i]
                .world_mut()
                .spawn((P2P::Inactive, RawClient, LocalId(id(i)), RemoteId(id(j)), addr, PingManager::default(), Link::default(), Transport::default()))
                .id();
            self.links[i][j] = Some(e);
        }
    }

    fn drop_link(&mut self, i: usize, j: usize) {
        if i == j || !self.up[i][j] {
            return;
        }
        for (a, b) in [(i, j), (j, i)] {
            self.up[a][b] = false;
            self.epoch[a][b] += 1;
            if let Some(e) = self.links[a][b] {
                let w = self.apps[a].world_mut();
                w.trigger(Unlink { entity: e, reason: UnlinkReason::UserRequested(None) });
                w.flush();
            }
        }
        self.flight.retain(|p| (p.from, p.to) != (i, j) && (p.from, p.to) != (j, i));
    }

    fn restore(&mut self, i: usize, j: usize) {
        if i == j || self.up[i][j] || self.links[i][j].is_none() || self.links[j][i].is_none() {
            return;
        }
        for (a, b) in [(i, j), (j, i)] {
            self.up[a][b] = true;
            let e = self.links[a][b].unwrap();
            let w = self.apps[a].world_mut();
            let mut l = w.get_mut::<Link>(e).unwrap();
            l.recv.drain().for_each(drop);
            l.send.drain().for_each(drop);
            w.entity_mut(e).insert(Linked);
            w.flush();
        }
    }

    fn roll(&mut self) -> u32 {
        self.die += 1;
        let a = self.c.dice[self.die % self.c.dice.len()] as u32;
        let b = (self.die as u32).wrapping_mul(2654435761) >> 16;
        (a ^ b) & 0xffff
    }

    fn clock(&self, i: usize) -> u32 {
        self.apps[i].world().resource::<LocalTimeline>().tick().0
    }

    fn max_frame(&self, i: usize) -> u64 {
        (*self.c.frames[i].iter().max().unwrap() as u64 * self.c.tick_us as u64 / 100).max(1000)
    }

    fn apply(&mut self, t: &Timed) {
        let i = t.peer as usize;
        match &t.op {
            Op::Start | Op::Stop { .. } | Op::Rematch => {
                if t.inside {
                    self.apps[i].world_mut().resource_mut::<Todo>().0.push(t.op.clone());
                } else {
                    perform(self.apps[i].world_mut(), t.op.clone());
                }
            }
            Op::Drop(j) => {
                self.disturbed = true;
                self.drop_link(i, *j as usize % self.n)
            }
            Op::Restore(j) => self.restore(i, *j as usize % self.n),
            Op::Despawn(j) => {
                self.disturbed = true;
                let j = *j as usize % self.n;
                self.drop_link(i, j);
                if let Some(e) = self.links[i][j].take() {
                    self.apps[i].world_mut().despawn(e);
                }
            }
            Op::Declare => {
                self.extra += 1;
                self.disturbed = true;
                let who = PeerId::Entity(100 + self.extra as u64);
                self.apps[i].world_mut().spawn((P2P::Inactive, LocalId(id(i)), RemoteId(who), Link::default(), Phantom));
            }
            Op::Stall(ms) => {
                self.stalled = true;
                self.next[i] = self.next[i].max(self.now + *ms as u64 * 1000);
            }
            Op::Blackout(ms) => {
                self.lossy = true;
                self.blackout_until = self.blackout_until.max(self.now + *ms as u64 * 1000);
            }
        }
    }

    fn due(&self) -> usize {
        (0..self.n).min_by_key(|i| self.next[*i]).unwrap()
    }

    fn frame(&mut self, i: usize) -> Verdict {
        self.now = self.next[i];
        clock_set(Duration::from_secs(1000) + Duration::from_micros(self.now));
        let mut due: Vec<Packet> = vec![];
        let mut k = 0;
        while k < self.flight.len() {
            if self.flight[k].to == i && self.flight[k].at <= self.now {
                due.push(self.flight.swap_remove(k));
            } else {
                k += 1;
            }
        }
        due.sort_by_key(|p| p.at);
        let w = self.apps[i].world_mut();
        for p in due {
            if let Some(e) = self.links[i][p.from]
                && self.up[i][p.from]
                && p.epoch == self.epoch[i][p.from]
            {
                w.get_mut::<Link>(e).unwrap().recv.push_raw(recv_payload_from_bytes(p.bytes.into()));
            }
        }
        *w.resource_mut::<TimeUpdateStrategy>() = TimeUpdateStrategy::ManualDuration(Duration::from_micros(self.now - self.last[i]));
        self.last[i] = self.now;
        self.apps[i].update();
        for j in 0..self.n {
            let Some(e) = self.links[i][j] else { continue };
            if !self.up[i][j] {
                continue;
            }
            // a link the session unlinked is closed by its transport, at both ends
            if self.apps[i].world().get::<Unlinked>(e).is_some() {
                self.disturbed = true;
                self.drop_link(i, j);
                continue;
            }
            let sent: Vec<Vec<u8>> = self.apps[i].world_mut().get_mut::<Link>(e).unwrap().send.drain().map(|b| b.to_vec()).collect();
            for bytes in sent {
                self.packets += 1;
                let r = self.roll();
                if r * 1000 / 65536 < self.c.loss_permille as u32 || self.now < self.blackout_until {
                    continue;
                }
                let copies = 1 + (self.roll() * 1000 / 65536 < self.c.duplicate_permille as u32) as usize;
                for _ in 0..copies {
                    let jit = self.roll() as u64 * self.c.jitter_us as u64 / 65536;
                    let at = self.now + self.c.latency_us[i * self.n + j] as u64 + jit;
                    let epoch = self.epoch[j][i];
                    self.flight.push(Packet { from: i, to: j, at, epoch, bytes: bytes.clone() });
                }
            }
        }
        let f = &self.c.frames[i];
        let d = f[self.nframe[i] % f.len()] as u64 * self.c.tick_us as u64 / 100;
        self.nframe[i] += 1;
        self.next[i] = self.now + d.max(1000);
        self.check(i)
    }

    /// What every frame of peer `i` must satisfy.
    fn check(&mut self, i: usize) -> Verdict {
        let tick = self.c.tick_us as u64;
        let max_frame = self.max_frame(i);
        let who: BTreeMap<Entity, usize> = (0..self.n).filter_map(|j| self.links[i][j].map(|e| (e, j))).collect();
        let w = self.apps[i].world_mut();
        let done = std::mem::take(&mut w.resource_mut::<Done>().0);
        let acted = !done.is_empty();
        let mut stopped_here = false;
        let started = std::mem::take(&mut w.resource_mut::<Log>().started);
        let mut state = self.prev[i];
        // a start tick that was reached came before the operations, which run later in the frame
        // or after the previous one
        for (op, b, a) in &done {
            if let (P2PSessionState::Starting { start_tick: Some(t) }, Some(at)) = (b.state, self.attempts[i].last_mut()) {
                ensure!(at.seen.is_none_or(|s| s == t.0), "start-tick-changed", "peer {i}: the start tick changed from {:?} to {}", at.seen, t.0);
                at.seen = Some(t.0);
            }
            match op {
                Op::Start => {
                    let eligible = b.state == P2PSessionState::Stopped && !b.inactive.is_empty();
                    if eligible {
                        ensure!(a.state == P2PSessionState::Starting { start_tick: None }, "start-state", "peer {i}: P2PStart with {} inactive links left the session {:?}", b.inactive.len(), a.state);
                        for (e, p, _) in &a.links {
                            let want = if b.inactive.contains_key(e) { P2P::Candidate } else { *p };
                            ensure!(*p == want, "start-links", "peer {i}: link {e} is {p:?} after P2PStart");
                        }
                        let roster = b
                            .inactive
                            .values()
                            .map(|r| match r {
                                Some(PeerId::Entity(k)) => *k as usize,
                                _ => usize::MAX,
                            })
                            .collect();
                        self.alone[i] = false;
                        self.attempts[i].push(Attempt { roster, seen: None, started: None, began: b.real, aborted: None });
                        state = a.state;
                    } else {
                        ensure!(a.state == b.state, "start-rejected", "peer {i}: P2PStart in state {:?} changed it to {:?}", b.state, a.state);
                        let now: BTreeSet<Entity> = a.links.iter().filter(|(_, p, _)| *p == P2P::Inactive).map(|(e, ..)| *e).collect();
                        ensure!(now == b.inactive.keys().copied().collect(), "start-rejected", "peer {i}: a rejected P2PStart changed the links");
                    }
                }
                Op::Stop { unlink } => {
                    stopped_here = true;
                    self.disturbed = true;
                    ensure!(a.state == P2PSessionState::Stopped, "stop-state", "peer {i}: P2PStop left the session {:?}", a.state);
                    let was = b.state != P2PSessionState::Stopped;
                    ensure!(a.stopped == b.stopped + was as u32, "stop-event", "peer {i}: P2PStopped was triggered {} times for a session that was {:?}", a.stopped - b.stopped, b.state);
                    for (e, p, u) in &a.links {
                        ensure!(*p == P2P::Inactive, "stop-links", "peer {i}: link {e} is {p:?} after P2PStop");
                        ensure!(!unlink || *u, "stop-unlink", "peer {i}: P2PStop with unlink left link {e} up");
                    }
                    state = P2PSessionState::Stopped;
                }
                _ => {}
            }
        }
        let w = self.apps[i].world_mut();
        let now_state = w.resource::<P2PSession>().state();
        let clock = w.resource::<LocalTimeline>().tick().0;
        let real = w.resource::<Time<Real>>().elapsed();
        let connected: Vec<(Entity, P2P, bool)> = w.query::<(Entity, &P2P, Has<Connected>)>().iter(w).map(|(e, p, c)| (e, *p, c)).collect();
        let mode = w.resource::<NetworkingMetadata>().mode.clone();
        let (ran, shifts, outside) = {
            let mut l = w.resource_mut::<Log>();
            (std::mem::take(&mut l.ran), std::mem::take(&mut l.shifts), l.outside)
        };
        ensure!(outside == 0, "started-schedule", "peer {i}: P2PStarted was triggered outside FixedFirst");
        ensure!(started.len() <= 1, "started-once", "peer {i}: P2PStarted was triggered {} times in a frame", started.len());
        for s in &started {
            ensure!(s.clock.wrapping_add(1) == s.tick, "started-tick", "peer {i}: P2PStarted for tick {} was triggered at tick {}", s.tick, s.clock);
            ensure!(s.attempt >= 1, "started-nothing", "peer {i}: P2PStarted without an attempt");
            let k = s.attempt - 1;
            let a = &mut self.attempts[i][k];
            ensure!(a.seen.is_none_or(|t| t == s.tick), "start-tick-changed", "peer {i}: the agreed start tick was {:?} and P2PStarted says {}", a.seen, s.tick);
            ensure!(a.started.is_none() && a.aborted.is_none(), "started-once", "peer {i}: attempt {} started although it had started ({:?}) or ended ({:?})", k + 1, a.started, a.aborted);
            a.seen = Some(s.tick);
            a.started = Some(s.tick);
            let mut want: Vec<Entity> = vec![];
            for (e, p, con) in &s.states {
                let inside = who.get(e).is_some_and(|j| a.roster.contains(j));
                if *p == P2P::Joined {
                    ensure!(*con, "joined-disconnected", "peer {i}: started with link {e} not connected");
                    want.push(*e);
                }
                ensure!(inside == (*p == P2P::Joined), "joined-cohort", "peer {i}: at the start link {e} (in the cohort: {inside}) is {p:?}");
            }
            ensure!(want.len() == a.roster.len(), "joined-cohort", "peer {i}: started with {} of {} peers", want.len(), a.roster.len());
            want.sort_by_key(|e| e.index_u32());
            ensure!(s.mode == NetworkTopology::P2P(want.iter().copied().collect()), "start-topology", "peer {i}: topology {:?} at the start with joined links {want:?}", s.mode);
            ensure!(
                ran.iter().any(|(t, st)| *t == s.tick && *st),
                "first-tick",
                "peer {i}: the start tick {} was not simulated right after P2PStarted (ran {:?})",
                s.tick,
                ran
            );
        }
        // a running session never simulates a tick before the agreed one, and its clock never jumps
        if let Some(a) = self.attempts[i].last() {
            for (t, st) in &ran {
                ensure!(!*st || a.started.is_none() || (t.wrapping_sub(a.started.unwrap()) as i32) >= 0 || acted, "early", "peer {i}: simulated tick {t} in a session that starts at {:?}", a.started);
            }
        }
        for (d, st) in &shifts {
            ensure!(*d == 0 || !*st || self.alone[i], "running-shift", "peer {i}: the tick clock jumped by {d} in a running session");
        }
        // state machine
        let links_of = |st: P2P| connected.iter().filter(|(_, p, _)| *p == st).count();
        match now_state {
            P2PSessionState::Stopped => {
                ensure!(links_of(P2P::Candidate) + links_of(P2P::Joined) == 0, "stopped-links", "peer {i}: stopped with links {connected:?}");
                if !stopped_here && state != P2PSessionState::Stopped {
                    let was_started = matches!(state, P2PSessionState::Started { .. });
                    ensure!(!was_started && started.is_empty(), "stopped-itself", "peer {i}: a running session stopped by itself");
                    let a = self.attempts[i].last_mut().unwrap();
                    let elapsed = real.saturating_sub(a.began);
                    a.aborted = Some(format!("after {elapsed:?}, start tick {:?}, tick {clock}", a.seen));
                    let timed_out = elapsed >= Duration::from_millis(self.c.timeout_ms as u64);
                    let (roster, seen) = (a.roster.clone(), a.seen);
                    let g = self.attempts[i].len();
                    let late = seen.is_some_and(|t| clock as i64 + 1 >= t as i64);
                    let same = |j: usize| {
                        let mut r = self.attempts[j][g - 1].roster.clone();
                        r.insert(j);
                        let mut mine = roster.clone();
                        mine.insert(i);
                        r == mine
                    };
                    let mismatch = roster.iter().any(|j| *j >= self.n || (self.attempts[*j].len() >= g && !same(*j)));
                    // A peer may be told a start tick after it passed: the delay was too short.
                    let could_be_late = seen.is_none();
                    ensure!(
                        timed_out || late || could_be_late || mismatch || self.disturbed,
                        "aborted",
                        "peer {i}: attempt {g} ended after {elapsed:?} (time-out {} ms) with start tick {seen:?} at tick {clock}, with its cohort intact and every roster equal",
                        self.c.timeout_ms
                    );
                }
            }
            P2PSessionState::Starting { start_tick } => {
                let a = self.attempts[i].last_mut().unwrap();
                let elapsed = real.saturating_sub(a.began);
                if let Some(t) = start_tick {
                    ensure!(a.seen.is_none_or(|s| s == t.0), "start-tick-changed", "peer {i}: the start tick changed from {:?} to {}", a.seen, t.0);
                    a.seen = Some(t.0);
                }
                if !acted {
                    let timeout = Duration::from_millis(self.c.timeout_ms as u64);
                    let waits = start_tick.is_some_and(|t| (t.0 as i64) > clock as i64 - 2);
                    ensure!(elapsed < timeout + Duration::from_micros(max_frame) || waits || self.stalled, "time-out", "peer {i}: still starting after {elapsed:?} (time-out {timeout:?}), start tick {start_tick:?}, tick {clock}");
                    let cand: BTreeSet<usize> = connected.iter().filter(|(_, p, _)| *p == P2P::Candidate).filter_map(|(e, ..)| who.get(e).copied()).collect();
                    let real_roster: BTreeSet<usize> = a.roster.iter().copied().filter(|j| *j < self.n).collect();
                    ensure!(cand == real_roster || self.disturbed, "candidates", "peer {i}: starting with candidates {cand:?} of cohort {:?}", a.roster);
                    ensure!(links_of(P2P::Joined) == 0, "candidates", "peer {i}: joined links while starting");
                }
            }
            P2PSessionState::Started { start_tick } => {
                let a = self.attempts[i].last().unwrap();
                ensure!(a.started == Some(start_tick.0), "started-silent", "peer {i}: session started at {start_tick:?}, P2PStarted seen: {:?}", a.started);
                ensure!(links_of(P2P::Candidate) == 0, "started-links", "peer {i}: candidate links in a running session");
                let mut want: Vec<Entity> = connected.iter().filter(|(_, p, c)| *p == P2P::Joined && *c).map(|(e, ..)| *e).collect();
                want.sort_by_key(|e| e.index_u32());
                let want = if want.is_empty() { NetworkTopology::Undefined } else { NetworkTopology::P2P(want.into_iter().collect()) };
                // with every peer gone there is no session left to protect
                self.alone[i] |= !mode.is_p2p();
                ensure!(mode == want || acted, "running-topology", "peer {i}: topology {mode:?}, joined and connected links give {want:?}");
            }
        }
        let _ = tick;
        if std::env::var_os("P2PDBG").is_some() { let w = self.apps[i].world_mut(); let sy=w.resource::<lightyear_sync::prelude::client::LocalTimelineSync>().is_synced(); eprintln!("{} p{i} tick {clock} {now_state:?} synced {sy} shifts {shifts:?} {:?}", self.now/1000, connected.iter().map(|c| (c.1,c.2)).collect::<Vec<_>>()); }
        self.prev[i] = now_state;
        self.agreement()
    }

    /// No two peers ever start one attempt at different ticks, and nobody starts without the rest.
    fn agreement(&self) -> Verdict {
        for i in 0..self.n {
            for (g, a) in self.attempts[i].iter().enumerate() {
                let Some(t) = a.started else { continue };
                let mut mine = a.roster.clone();
                mine.insert(i);
                for j in &a.roster {
                    let Some(b) = self.attempts.get(*j).and_then(|v| v.get(g)) else {
                        return Err(crate::fw::Fail::new("absent", format!("peer {i} started attempt {} at tick {t}, and peer {j} never began it", g + 1)));
                    };
                    let mut theirs = b.roster.clone();
                    theirs.insert(*j);
                    ensure!(theirs == mine, "rosters", "peer {i} started attempt {} of {mine:?}, for peer {j} it is {theirs:?}", g + 1);
                    ensure!(b.seen == Some(t), "agreement", "attempt {}: peer {i} started at tick {t}, peer {j} knows {:?} (started {:?})", g + 1, b.seen, b.started);
                }
            }
        }
        Ok(())
    }
}

#[derive(Component)]
struct Phantom;

fn run(c: &Case, obs: &mut Obs) -> Verdict {
    crate::util::reset_globals();
    let mut m = Mesh::new(c);
    let n = m.n;
    let mut total_started = 0;
    for (rn, r) in c.rounds.iter().enumerate() {
        // between rounds: everything is declared again and every link comes up
        m.disturbed = r.rematch;
        m.stalled = false;
        m.lossy = c.loss_permille > 0;
        let mut late: Vec<(usize, usize, u64)> = vec![];
        for i in 0..n {
            let w = m.apps[i].world_mut();
            let ph: Vec<Entity> = w.query_filtered::<Entity, With<Phantom>>().iter(w).collect();
            for e in ph {
                w.despawn(e);
            }
            for j in 0..n {
                if !r.without.contains(&(i as u8, j as u8)) {
                    m.declare(i, j);
                } else {
                    m.drop_link(i, j);
                    if let Some(e) = m.links[i][j].take() {
                        m.apps[i].world_mut().despawn(e);
                    }
                }
            }
        }
        for i in 0..n {
            for j in 0..i {
                match r.late.iter().find(|(a, b, _)| (*a as usize, *b as usize) == (i, j) || (*a as usize, *b as usize) == (j, i)) {
                    Some((_, _, t)) => {
                        m.drop_link(i, j);
                        late.push((i, j, m.now + 1_000_000 + *t as u64 * 1000));
                    }
                    None => m.restore(i, j),
                }
            }
        }
        // the clients have been connected for a while
        let begin = m.now + 1_000_000;
        while m.next[m.due()] < begin {
            let i = m.due();
            m.frame(i)?;
        }
        let mut script: Vec<Timed> = r.faults.clone();
        for (i, s) in r.starts.iter().enumerate() {
            if let Some(ms) = s {
                script.push(Timed { ms: *ms, peer: i as u8, inside: r.inside, op: if r.rematch { Op::Rematch } else { Op::Start } });
            }
        }
        script.sort_by_key(|t| t.ms);
        let before: Vec<usize> = m.attempts.iter().map(|a| a.len()).collect();
        let last_start = r.starts.iter().flatten().max().copied().unwrap_or(0) as u64;
        let first_start = r.starts.iter().flatten().min().copied().unwrap_or(0) as u64;
        let last_up = late.iter().map(|l| l.2.saturating_sub(begin) / 1000).max().unwrap_or(0);
        let max_delay = *c.delay_ticks.iter().max().unwrap() as u64;
        let min_delay = *c.delay_ticks.iter().min().unwrap() as u64;
        let length = (r.length_ms as u64).max(last_start.max(last_up) + 3000 + max_delay * c.tick_us as u64 / 1000);
        let end = begin + length * 1000;
        let mut k = 0;
        loop {
            let i = m.due();
            let t = m.next[i];
            if t >= end {
                break;
            }
            while k < script.len() && begin + script[k].ms as u64 * 1000 <= t {
                m.now = m.now.max(begin + script[k].ms as u64 * 1000);
                let s = script[k].clone();
                m.apply(&s);
                k += 1;
            }
            late.retain(|(a, b, at)| {
                let up = *at <= t;
                if up {
                    m.restore(*a, *b);
                }
                !up
            });
            let i = m.due();
            m.frame(i)?;
        }
        // every peer asked for one attempt, nothing was disturbed: all of them must be running
        let everyone = r.starts.iter().all(|s| s.is_some()) && r.without.is_empty() && r.faults.is_empty();
        let aligned = before.iter().all(|b| *b == before[0]);
        let worst = c.latency_us.iter().max().unwrap() + c.jitter_us;
        let frame = (0..n).map(|i| m.max_frame(i)).max().unwrap();
        let slack = 5 * worst as u64 + 10 * frame + 200_000;
        let ready = last_start.max(last_up);
        let patient = c.timeout_ms as u64 * 1000 >= (ready - first_start) * 1000 + slack + 1_500_000;
        if everyone && aligned && !m.lossy && patient && min_delay * c.tick_us as u64 >= slack {
            obs.count("attempts that had to start", 1);
            for i in 0..n {
                let a = m.attempts[i].last().unwrap();
                ensure!(
                    a.started.is_some() && m.attempts[i].len() == before[i] + 1,
                    "never-started",
                    "round {rn}: peer {i} did not start ({:?}), all links up and nothing lost; start tick {:?}, now at tick {}, state {:?}",
                    a.aborted,
                    a.seen,
                    m.clock(i),
                    m.prev[i]
                );
            }
        }
        for i in 0..n {
            for a in &m.attempts[i][before[i]..] {
                obs.label_if(a.started.is_some(), "started");
                obs.label_if(a.aborted.is_some() && a.seen.is_none(), "gave up waiting");
                obs.label_if(a.aborted.is_some() && a.seen.is_some(), "gave up after the tick was known");
                total_started += a.started.is_some() as u32;
            }
        }
        // and everyone stops
        if c.rounds.get(rn + 1).is_some_and(|r| r.rematch) {
            continue;
        }
        for i in 0..n {
            let t = Timed { ms: 0, peer: i as u8, inside: r.inside, op: Op::Stop { unlink: r.unlink } };
            m.apply(&t);
        }
        let frames = m.nframe.clone();
        let until = m.now + 60_000;
        while m.next[m.due()] < until || (0..n).any(|i| m.nframe[i] < frames[i] + 2) {
            let i = m.due();
            m.frame(i)?;
        }
    }
    obs.count("packets", m.packets);
    obs.count("starts", total_started as u64);
    obs.label_if(m.attempts.iter().any(|a| a.len() > 1), "several attempts");
    obs.nontrivial_if(total_started > 0);
    let _ = Tick(0);
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C30", "calm", 1200, 20_000, || case(true), run),
        sub("C30", "rough", 1500, 40_000, || case(false), run),
    ]
}
