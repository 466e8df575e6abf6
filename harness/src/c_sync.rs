//! Latency estimation (C31), local timeline synchronisation (C32), input delay and prediction
//! window (C37).

use crate::fw::{Obs, Res as Verdict, Sub, sub};
use crate::util::{clock_advance, clock_set};
use crate::{ensure, ensure_eq};
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::{ScheduleLabel, SingleThreadedExecutor};
use bevy_time::{Fixed, Time, TimeUpdateStrategy, Virtual};
use lightyear_connection::client::{Client, Connected, ConnectionPlugin, Disconnected};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::direction::NetworkDirection;
use lightyear_connection::server::Started;
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_core::plugin::CorePlugins;
use lightyear_core::prelude::{LocalTimeline, Tick};
use lightyear_connection::network_topology::{NetworkTopology, NetworkingMetadata};
use lightyear_connection::p2p::P2P;
use lightyear_core::prelude::NetworkTimeline;
use lightyear_core::time::{Overstep, PositiveTickDelta, TickDelta, TickInstant};
use lightyear_core::timeline::{LocalTimelineShift, SetTickDuration, TimelineConfig};
use lightyear_link::prelude::{LinkOf, Server};
use lightyear_link::{Link, Linked, recv_payload_from_bytes};
use lightyear_messages::plugin::MessagePlugin;
use lightyear_messages::prelude::*;
use lightyear_sync::client::ClientPlugin;
use lightyear_sync::ping::estimator::RttEstimatorEwma;
use lightyear_sync::ping::store::PingId;
use lightyear_sync::prelude::client::{InputDelayConfig, RemoteTimeline};
use lightyear_sync::prelude::*;
use lightyear_sync::server::ServerPlugin;
use lightyear_sync::timeline::sync::{LocalTimelineSyncPlugin, SyncTargetTimeline};
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

// ------------------------------------------------------------------------- C31: the estimator

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stretch {
    base_us: u32,
    spread_us: u32,
    n: u16,
    reset: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EstCase {
    stretches: Vec<Stretch>,
    noise: Vec<u16>,
    last_us: u32,
}

fn rtt_us() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => Just(0u32),
        2 => 1u32..1000,
        4 => 1000u32..60_000,
        4 => 60_000u32..600_000,
        2 => 600_000u32..5_000_000,
    ]
    .boxed()
}

fn est_case() -> BoxedStrategy<EstCase> {
    let stretch = (rtt_us(), prop_oneof![2 => Just(0u32), 2 => 1u32..5000, 2 => 5000u32..400_000], 0u16..60, prop::bool::weighted(0.1))
        .prop_map(|(base_us, spread_us, n, reset)| Stretch { base_us, spread_us, n, reset });
    (vec(stretch, 0..6), vec(any::<u16>(), 1..40), rtt_us())
        .prop_map(|(stretches, noise, last_us)| EstCase { stretches, noise, last_us })
        .boxed()
}

/// Samples after which a constant latency must have been learnt, whatever came before.
const LEARN: usize = 250;

fn estimator(c: &EstCase, obs: &mut Obs) -> Verdict {
    let mut e = RttEstimatorEwma::new();
    let mut k = 0;
    let (mut lo, mut hi, mut n) = (u64::MAX, 0u64, 0u64);
    let mut total = 0u64;
    let mut step = |e: &mut RttEstimatorEwma, us: u64, lo: &mut u64, hi: &mut u64, n: &mut u64| -> Verdict {
        let before = e.final_stats.clone();
        e.update_with_new_sample(Duration::from_micros(us));
        let after = e.final_stats.clone();
        *lo = (*lo).min(us);
        *hi = (*hi).max(us);
        *n += 1;
        total += 1;
        let r = after.rtt.as_nanos() as i128;
        ensure!(
            r >= *lo as i128 * 1000 - 1000 && r <= *hi as i128 * 1000 + 1000,
            "bounds",
            "after {} samples between {lo} and {hi} us the estimate is {:?}",
            *n,
            after.rtt
        );
        ensure!(after.jitter <= Duration::from_micros(*hi + 1), "jitter-bound", "jitter {:?} exceeds every sample (largest {hi} us)", after.jitter);
        if *n == 1 {
            let d = (r - us as i128 * 1000).abs();
            ensure!(d <= 1000, "first", "first sample {us} us gives {:?}", after.rtt);
        }
        if *n > 3 {
            let b = before.rtt.as_nanos() as i128;
            ensure!(
                (r - b).abs() <= b / 4 + 1_000_000,
                "outlier",
                "one sample of {us} us moved the estimate from {:?} to {:?}",
                before.rtt,
                after.rtt
            );
        }
        // moves towards the sample, never past it
        if *n > 1 {
            let b = before.rtt.as_nanos() as i128;
            let s = us as i128 * 1000;
            ensure!(r >= b.min(s) - 1000 && r <= b.max(s) + 1000, "direction", "sample {us} us moved the estimate from {:?} to {:?}", before.rtt, after.rtt);
        }
        Ok(())
    };
    for s in &c.stretches {
        if s.reset {
            e.reset();
            ensure_eq!((e.final_stats.rtt, e.final_stats.jitter), (Duration::ZERO, Duration::ZERO), "reset", "stats after a reset");
            (lo, hi, n) = (u64::MAX, 0, 0);
        }
        for _ in 0..s.n {
            let z = c.noise[k % c.noise.len()] as u64;
            k += 1;
            step(&mut e, s.base_us as u64 + s.spread_us as u64 * z / 65535, &mut lo, &mut hi, &mut n)?;
        }
    }
    for _ in 0..LEARN {
        step(&mut e, c.last_us as u64, &mut lo, &mut hi, &mut n)?;
    }
    let tol = (c.last_us as f64 * 0.05).max(1000.0);
    let r = e.final_stats.rtt.as_secs_f64() * 1e6;
    ensure!(
        (r - c.last_us as f64).abs() <= tol,
        "convergence",
        "after {LEARN} samples of {} us the estimate is {:?}",
        c.last_us,
        e.final_stats.rtt
    );
    ensure!(
        e.final_stats.jitter.as_secs_f64() * 1e6 <= tol,
        "jitter-convergence",
        "after {LEARN} equal samples of {} us the jitter is {:?}",
        c.last_us,
        e.final_stats.jitter
    );
    obs.count("samples", total);
    obs.label_if(c.stretches.iter().any(|s| s.n > 0 && s.base_us == 0), "latency too small to measure");
    obs.label_if(c.stretches.iter().any(|s| s.reset), "reset");
    obs.nontrivial_if(c.stretches.iter().map(|s| s.n as u32).sum::<u32>() > 2);
    Ok(())
}

// --------------------------------------------------------------- two applications and a network

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Traffic(u32);
struct TrafficChannel;

#[derive(Resource, Default)]
struct Log {
    /// (tick carried, tick of the receiver)
    seen: Vec<(u32, u32)>,
    ran: u32,
    shifts: Vec<i32>,
    work: Duration,
    traffic: bool,
}

fn count_fixed(mut l: ResMut<Log>) {
    l.ran += 1;
}

fn read_traffic(mut q: Query<&mut MessageReceiver<Traffic>>, tl: Res<LocalTimeline>, mut l: ResMut<Log>) {
    for mut r in &mut q {
        for m in r.receive() {
            l.seen.push((m.0, tl.tick().0));
        }
    }
}

fn send_traffic(mut q: Query<&mut MessageSender<Traffic>, With<Connected>>, tl: Res<LocalTimeline>, l: Res<Log>) {
    if l.traffic {
        for mut s in &mut q {
            s.send::<TrafficChannel>(Traffic(tl.tick().0));
        }
    }
}

fn work(l: Res<Log>) {
    clock_advance(l.work);
}

fn app(client: bool, tick: Duration, start: u32, work_us: u32) -> App {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.add_plugins(CorePlugins { tick_duration: tick });
    app.init_resource::<ChannelRegistry>();
    app.insert_resource(Log { work: Duration::from_micros(work_us as u64), traffic: true, ..Default::default() });
    app.add_plugins((lightyear_connection::ConnectionPlugin, ConnectionPlugin, TransportPlugin));
    app.add_channel::<TrafficChannel>(ChannelSettings { mode: ChannelMode::UnorderedUnreliable, ..Default::default() })
        .add_direction(NetworkDirection::Bidirectional);
    app.register_message::<Traffic>().add_direction(NetworkDirection::Bidirectional);
    if client {
        app.add_plugins(ClientPlugin);
    } else {
        app.add_plugins(ServerPlugin);
    }
    app.add_plugins(MessagePlugin);
    app.add_systems(PreUpdate, read_traffic.after(MessageSystems::Receive));
    app.add_systems(FixedFirst, count_fixed);
    app.add_systems(Update, work);
    app.add_systems(PostUpdate, send_traffic.before(MessageSystems::Send));
    app.add_observer(|t: On<LocalTimelineShift>, mut l: ResMut<Log>| l.shifts.push(t.delta));
    app.finish();
    app.cleanup();
    for l in [PreUpdate.intern(), Update.intern(), PostUpdate.intern(), First.intern(), Last.intern(), FixedFirst.intern()] {
        app.edit_schedule(l, |s| {
            s.set_executor(SingleThreadedExecutor::new());
        });
    }
    app.world_mut().resource_mut::<LocalTimeline>().apply_delta(start as i32);
    app
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Event {
    Nothing,
    ServerStall(u16),
    ClientStall(u16),
    Blackout(u16),
    /// reconnects to a server whose clock differs by this many ticks
    Reconnect(i32),
    /// the client answers pings that were or were not sent, with any processing time
    Pongs(Vec<(u16, u32, u8)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Phase {
    /// one way, client to server and back
    latency_us: [u32; 2],
    jitter_us: u32,
    loss_permille: u16,
    duplicate_permille: u16,
    event: Event,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SyncSettings {
    jitter_multiple: u8,
    /// all of these in tenths
    jitter_margin: u8,
    error_margin: u8,
    max_error_margin: u8,
    threshold: u8,
    handshake: u8,
    /// percent above 100
    speedup: u8,
    /// minimum, maximum before prediction, maximum predicted
    delay: Option<(u8, u8, u8)>,
}

impl SyncSettings {
    fn config(&self) -> SyncConfig {
        SyncConfig {
            jitter_multiple: self.jitter_multiple,
            jitter_margin: self.jitter_margin as f32 / 10.0,
            handshake_pings: self.handshake,
            error_margin: self.error_margin as f32 / 10.0,
            max_error_margin: self.max_error_margin as f32 / 10.0,
            consecutive_errors_threshold: self.threshold,
            speedup_factor: 1.0 + self.speedup as f32 / 100.0,
        }
    }
    fn input(&self) -> InputTimelineConfig {
        let mut c = InputTimelineConfig::default().with_sync_config(self.config());
        if let Some((a, b, p)) = self.delay {
            c = c.with_input_delay(InputDelayConfig {
                minimum_input_delay_ticks: a as u16,
                maximum_input_delay_before_prediction: a as u16 + b as u16,
                maximum_predicted_ticks: p as u16,
            });
        }
        c
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NetCase {
    tick_us: u32,
    /// frame durations, in percent of a tick
    frames: [Vec<u16>; 2],
    work_us: [u32; 2],
    start: [u32; 2],
    settings: SyncSettings,
    phases: Vec<Phase>,
    dice: Vec<u16>,
    /// the tick duration was changed after the applications were built
    retimed: Option<u32>,
}

fn settings() -> BoxedStrategy<SyncSettings> {
    (
        (prop_oneof![Just(4u8), 2u8..6], prop_oneof![Just(10u8), 5u8..30], prop_oneof![Just(10u8), 5u8..20], prop_oneof![Just(100u8), 50u8..150]),
        (prop_oneof![Just(3u8), 1u8..5], prop_oneof![Just(3u8), 0u8..8], prop_oneof![Just(5u8), 4u8..20]),
        prop::option::weighted(0.4, (0u8..6, 0u8..6, prop_oneof![Just(0u8), 1u8..12, Just(100u8)])),
    )
        .prop_map(|((jitter_multiple, jitter_margin, error_margin, max_error_margin), (threshold, handshake, speedup), delay)| SyncSettings {
            jitter_multiple,
            jitter_margin,
            error_margin,
            max_error_margin,
            threshold,
            handshake,
            speedup,
            delay,
        })
        .boxed()
}

fn phase(calm: bool) -> BoxedStrategy<Phase> {
    let lat = || prop_oneof![2 => Just(0u32), 2 => 0u32..5000, 4 => 5000u32..60_000, 2 => 60_000u32..200_000];
    let event = if calm {
        prop_oneof![
            4 => Just(Event::Nothing),
            1 => (100u16..1500).prop_map(Event::ServerStall),
            1 => (100u16..1500).prop_map(Event::ClientStall),
            1 => (100u16..3000).prop_map(Event::Blackout),
            2 => prop_oneof![-500i32..500, -200_000i32..200_000].prop_map(Event::Reconnect),
        ]
        .boxed()
    } else {
        prop_oneof![
            3 => Just(Event::Nothing),
            1 => (100u16..1500).prop_map(Event::ServerStall),
            1 => (100u16..1500).prop_map(Event::ClientStall),
            1 => (100u16..2000).prop_map(Event::Blackout),
            1 => (-500i32..500).prop_map(Event::Reconnect),
            3 => vec((prop_oneof![0u16..60, any::<u16>()], prop_oneof![0u32..4, any::<u32>(), Just(0x8000_0000), Just(u32::MAX)], any::<u8>()), 1..6).prop_map(Event::Pongs),
        ]
        .boxed()
    };
    let rough = if calm { (0u32..3000, 0u16..50, 0u16..100).boxed() } else { (0u32..40_000, 0u16..400, 0u16..400).boxed() };
    ([lat().boxed(), lat().boxed()], rough, event)
        .prop_map(|(latency_us, (jitter_us, loss_permille, duplicate_permille), event)| Phase { latency_us, jitter_us, loss_permille, duplicate_permille, event })
        .boxed()
}

fn net_case(calm: bool) -> BoxedStrategy<NetCase> {
    let frames = move || {
        if calm {
            prop_oneof![Just(vec![100u16]), (30u16..=100).prop_map(|f| vec![f]), vec(40u16..=100, 2..5)].boxed()
        } else {
            prop_oneof![Just(vec![100u16]), (20u16..=300).prop_map(|f| vec![f]), vec(10u16..=300, 2..6)].boxed()
        }
    };
    (
        prop_oneof![Just(10_000u32), Just(15_625), Just(16_667), Just(20_000), 8_000u32..34_000],
        [frames(), frames()],
        [prop_oneof![Just(0u32), 0u32..4000], prop_oneof![Just(0u32), 0u32..4000]],
        [prop_oneof![0u32..100, 0u32..1_000_000], prop_oneof![0u32..100, 0u32..1_000_000]],
        settings(),
        vec(phase(calm), 1..=2),
        vec(any::<u16>(), 20..200),
        prop::option::weighted(0.15, 5_000u32..40_000),
    )
        .prop_map(|(tick_us, frames, work_us, start, settings, phases, dice, retimed)| NetCase { tick_us, frames, work_us, start, settings, phases, dice, retimed })
        .boxed()
}

struct Packet {
    to: usize,
    at: u64,
    bytes: Vec<u8>,
}

struct Net {
    apps: [App; 2],
    ents: [Entity; 2],
    server: Entity,
    now: u64,
    next: [u64; 2],
    last: [u64; 2],
    nframe: [usize; 2],
    flight: Vec<Packet>,
    die: usize,
    blackout_until: u64,
    stats: [u64; 4],
    connected: bool,
}

const S: usize = 0;
const C: usize = 1;

impl Net {
    fn new(c: &NetCase) -> Net {
        let tick = Duration::from_micros(c.tick_us as u64);
        let built = c.retimed.map_or(tick, |t| Duration::from_micros(t as u64));
        let mut apps = [app(false, built, c.start[0], c.work_us[0]), app(true, built, c.start[1], c.work_us[1])];
        if c.retimed.is_some() {
            for a in &mut apps {
                a.world_mut().trigger(SetTickDuration(tick));
            }
        }
        let mut n = Net {
            apps,
            ents: [Entity::PLACEHOLDER; 2],
            server: Entity::PLACEHOLDER,
            now: 0,
            next: [0, 137],
            last: [0, 0],
            nframe: [0, 0],
            flight: vec![],
            die: 0,
            blackout_until: 0,
            stats: [0; 4],
            connected: false,
        };
        n.server = n.apps[S].world_mut().spawn((Server::default(), Started)).id();
        n.ents[C] = n.apps[C].world_mut().spawn((Client, Link::default(), Linked, Transport::default(), RemoteId(PeerId::Server))).id();
        n.apps[C].world_mut().insert_resource(c.settings.input());
        n
    }

    fn connect(&mut self) {
        let server = self.server;
        let w = self.apps[S].world_mut();
        self.ents[S] = w
            .spawn((LinkOf { server }, ClientOf, Link::default(), Linked, Transport::default(), RemoteId(PeerId::Netcode(1)), Connected))
            .id();
        w.flush();
        let w = self.apps[C].world_mut();
        w.entity_mut(self.ents[C]).insert(Connected);
        w.flush();
        self.connected = true;
    }

    fn disconnect(&mut self) {
        let w = self.apps[S].world_mut();
        w.entity_mut(self.ents[S]).insert(Disconnected::default());
        w.despawn(self.ents[S]);
        let w = self.apps[C].world_mut();
        let e = self.ents[C];
        w.entity_mut(e).insert(Disconnected::default());
        w.flush();
        let mut l = w.get_mut::<Link>(e).unwrap();
        l.recv.drain().for_each(drop);
        l.send.drain().for_each(drop);
        w.entity_mut(e).insert((MessageSender::<Traffic>::default(), MessageSender::<Ping>::default(), MessageSender::<Pong>::default()));
        self.flight.clear();
        self.connected = false;
    }

    fn roll(&mut self, c: &NetCase) -> u32 {
        self.die += 1;
        // spread a short list of dice over a long run
        let a = c.dice[self.die % c.dice.len()] as u32;
        let b = (self.die as u32).wrapping_mul(2654435761) >> 16;
        (a ^ b) & 0xffff
    }

    /// Runs the next frame of whichever application is due and returns which it was.
    fn frame(&mut self, c: &NetCase, p: &Phase) -> usize {
        let i = if self.next[S] <= self.next[C] { S } else { C };
        self.now = self.next[i];
        clock_set(Duration::from_secs(1000) + Duration::from_micros(self.now));
        let mut due: Vec<Packet> = vec![];
        let mut k = 0;
        while k < self.flight.len() {
            if self.flight[k].to == i && self.flight[k].at <= self.now {
                due.push(self.flight.swap_remove(k));
            } else {
                k += 1;
            }
        }
        due.sort_by_key(|p| p.at);
        let w = self.apps[i].world_mut();
        if self.connected {
            let mut link = w.get_mut::<Link>(self.ents[i]).unwrap();
            for p in due {
                link.recv.push_raw(recv_payload_from_bytes(p.bytes.into()));
            }
        }
        *w.resource_mut::<TimeUpdateStrategy>() = TimeUpdateStrategy::ManualDuration(Duration::from_micros(self.now - self.last[i]));
        self.last[i] = self.now;
        self.apps[i].update();
        // the frame took this long before its packets left
        let left = self.now + c.work_us[i] as u64;
        let sent: Vec<Vec<u8>> = if self.connected {
            self.apps[i].world_mut().get_mut::<Link>(self.ents[i]).unwrap().send.drain().map(|b| b.to_vec()).collect()
        } else {
            vec![]
        };
        for bytes in sent {
            let r = self.roll(c);
            self.stats[0] += 1;
            if r * 1000 / 65536 < p.loss_permille as u32 || self.now < self.blackout_until {
                self.stats[1] += 1;
                continue;
            }
            let copies = 1 + (self.roll(c) * 1000 / 65536 < p.duplicate_permille as u32) as usize;
            self.stats[2] += copies as u64 - 1;
            for _ in 0..copies {
                let j = self.roll(c) as u64 * p.jitter_us as u64 / 65536;
                self.flight.push(Packet { to: 1 - i, at: left + p.latency_us[if i == C { 0 } else { 1 }] as u64 + j, bytes: bytes.clone() });
            }
        }
        let f = &c.frames[i];
        let d = f[self.nframe[i] % f.len()] as u64 * c.tick_us as u64 / 100;
        self.nframe[i] += 1;
        self.next[i] = self.now + d.max(500).max(c.work_us[i] as u64);
        i
    }

    /// The simulation instant of an application, extrapolated to the current moment.
    fn instant(&self, i: usize, c: &NetCase) -> f64 {
        let w = self.apps[i].world();
        let t = w.resource::<LocalTimeline>().tick().0 as f64;
        let o = w.resource::<Time<Fixed>>().overstep().as_secs_f64();
        let speed = if i == S { 1.0 } else { w.resource::<Time<Virtual>>().relative_speed() as f64 };
        let since = (self.now - self.last[i]) as f64 / 1e6;
        t + (o + since * speed) / (c.tick_us as f64 / 1e6)
    }
}

fn max_frame(c: &NetCase, i: usize) -> u64 {
    (*c.frames[i].iter().max().unwrap() as u64 * c.tick_us as u64 / 100).max(500).max(c.work_us[i] as u64)
}

fn run_net(c: &NetCase, focus: &'static str, calm: bool, obs: &mut Obs) -> Verdict {
    let mut n = Net::new(c);
    let cfg = c.settings.config();
    let d = c.tick_us as f64;
    let margin = cfg.error_margin as f64;
    let speed_cap = 1.0 + 2.0 * (cfg.speedup_factor as f64 - 1.0) + 1e-4;
    // time after which a steady network must have been learnt and followed
    let ticks = cfg.max_error_margin as f64 / (2.0 * (cfg.speedup_factor as f64 - 1.0)) * (cfg.max_error_margin as f64 / margin).max(1.0).ln().max(1.0);
    let frame_scale = (max_frame(c, C) as f64 / d).max(1.0);
    let settle = 15_000_000 + (1.5 * ticks * d * frame_scale) as u64;
    let measure = 2_000_000u64;
    // bounds on any honest round-trip sample of this session
    let (mut rtt_lo, mut rtt_hi) = (u64::MAX, 0u64);
    let mut samples_before;
    let mut checked = 0u64;
    let mut newest: Option<Tick> = None;
    for (pi, p) in c.phases.iter().enumerate() {
        let mut hostile = false;
        let mut hold = 0u64;
        match &p.event {
            Event::Reconnect(shift) if n.connected => {
                n.disconnect();
                for _ in 0..6 {
                    n.frame(c, p);
                }
                for a in &mut n.apps {
                    let mut l = a.world_mut().resource_mut::<Log>();
                    (l.ran, l.shifts, l.seen) = (0, vec![], vec![]);
                }
                ensure!(!n.apps[C].world().resource::<LocalTimelineSync>().is_synced() || focus != "C32", "synced-while-disconnected", "phase {pi}");
                let mut tl = n.apps[S].world_mut().resource_mut::<LocalTimeline>();
                // ticks saturate at 0, where a shift would not be exact
                let s = (*shift).max((100 - tl.tick().0 as i32).min(0));
                tl.apply_delta(s);
            }
            Event::ServerStall(ms) => hold = *ms as u64 * 1000,
            Event::ClientStall(ms) => hold = *ms as u64 * 1000,
            Event::Blackout(ms) => n.blackout_until = n.now + *ms as u64 * 1000,
            _ => {}
        }
        match p.event {
            Event::ServerStall(_) => n.next[S] += hold,
            Event::ClientStall(_) => n.next[C] += hold,
            _ => {}
        }
        let fresh = !n.connected;
        if fresh {
            (rtt_lo, rtt_hi) = (u64::MAX, 0);
            n.connect();
            let m = n.apps[C].world().get::<PingManager>(n.ents[C]).unwrap();
            if focus == "C31" {
                ensure_eq!((m.rtt(), m.jitter(), m.latency_samples_recv()), (Duration::ZERO, Duration::ZERO, 0), "fresh", "latency of a new connection");
            } else {
                ensure!(!n.apps[C].world().resource::<LocalTimelineSync>().is_synced(), "synced-at-connect", "phase {pi}");
            }
        }
        // packets still under way from the previous phase keep its latency
        let base = p.latency_us[0] as u64 + p.latency_us[1] as u64;
        rtt_lo = rtt_lo.min(base);
        let waits = max_frame(c, S) + max_frame(c, C) + 2 * p.jitter_us as u64 + c.work_us[0] as u64 + c.work_us[1] as u64 + hold;
        rtt_hi = rtt_hi.max(base + waits);
        if pi > 0 {
            let q = &c.phases[pi - 1];
            let mix = (q.latency_us[0].max(p.latency_us[0]) + q.latency_us[1].max(p.latency_us[1])) as u64 + 2 * q.jitter_us.max(p.jitter_us) as u64;
            rtt_hi = rtt_hi.max(mix + waits);
            rtt_lo = rtt_lo.min((q.latency_us[0].min(p.latency_us[0]) + q.latency_us[1].min(p.latency_us[1])) as u64);
        }
        let began = n.now;
        let until = if focus == "C31" && !calm { began + 4_000_000 + hold } else { began + settle + measure + hold };
        let mut shifts_in_measure = 0;
        let (mut inputs, mut late) = (0u64, 0u64);
        // margins are statistical: they hold for each input only when they cover what the network
        // and the frames may add
        let wobble = (2 * p.jitter_us as u64 + max_frame(c, S) + max_frame(c, C) + c.work_us[0] as u64 + c.work_us[1] as u64) as f64 / d;
        let strict = wobble <= cfg.jitter_margin as f64;
        let mut synced_at = None;
        if fresh {
            newest = None;
        }
        samples_before = n.apps[C].world().get::<PingManager>(n.ents[C]).unwrap().latency_samples_recv();
        let _ = samples_before;
        while n.now < until {
            if let Event::Pongs(list) = &p.event
                && n.now > began + 500_000
                && !hostile
            {
                hostile = true;
                let e = n.ents[C];
                let mut s = n.apps[C].world_mut().get_mut::<MessageSender<Pong>>(e).unwrap();
                for (id, ticks, frac) in list {
                    let frame_time = pos(*ticks, *frac);
                    s.send::<PingChannel>(Pong { ping_id: PingId(*id), frame_time });
                }
            }
            let tick_before = n.apps[C].world().resource::<LocalTimeline>().tick().0;
            let i = n.frame(c, p);
            let steady = n.now >= until - measure;
            if focus == "C31" {
                for (k, side) in [(S, "server"), (C, "client")] {
                    let e = n.ents[k];
                    let m = n.apps[k].world().get::<PingManager>(e).unwrap();
                    let stats = n.apps[k].world().get::<Link>(e).unwrap().stats;
                    if k == i {
                        ensure_eq!((stats.rtt, stats.jitter), (m.rtt(), m.jitter()), "link-stats", "latency of the link of the {side}");
                    }
                    if m.latency_samples_recv() > 0 {
                        let r = m.rtt().as_micros() as u64;
                        let lo = if hostile_seen(c, pi) && k == S { 0 } else { rtt_lo.saturating_sub(c.tick_us as u64 / 200 + 200) };
                        ensure!(
                            r >= lo && r <= rtt_hi + 200,
                            "rtt-bounds",
                            "the {side} estimates {r} us; every honest sample lies in {rtt_lo}..{rtt_hi} us"
                        );
                    } else {
                        ensure_eq!(m.rtt(), Duration::ZERO, "unsampled", "latency without a sample");
                    }
                    if steady && calm {
                        ensure!(m.latency_samples_recv() > 20, "samples", "the {side} has {} samples after {} s", m.latency_samples_recv(), (n.now - began) / 1_000_000);
                        let r = m.rtt().as_micros() as f64;
                        let slack = 0.05 * base as f64 + 1000.0;
                        ensure!(
                            r >= base as f64 - slack && r <= base as f64 + waits as f64 - hold as f64 + slack,
                            "rtt-converged",
                            "the {side} estimates {r} us on a network of {base} us and at most {} us of waiting",
                            waits - hold
                        );
                        checked += 1;
                    }
                }
                continue;
            }
            // ------------------------------------------------------------------ C32
            if i == S {
                let mut l = n.apps[S].world_mut().resource_mut::<Log>();
                let seen = std::mem::take(&mut l.seen);
                l.ran = 0;
                let delay = n.apps[C].world().resource::<LocalTimelineSync>().input_delay() as u32;
                if steady && calm {
                    for (t, at) in seen {
                        checked += 1;
                        inputs += 1;
                        late += (t + delay <= at) as u64;
                        ensure!(
                            t + delay > at || !strict,
                            "late-input",
                            "an input of tick {t} with input delay {delay} reached the server when it had already simulated tick {at}"
                        );
                    }
                }
                continue;
            }
            let w = n.apps[C].world_mut();
            let mut l = w.resource_mut::<Log>();
            let (ran, shifts) = (std::mem::take(&mut l.ran), std::mem::take(&mut l.shifts));
            let tick = w.resource::<LocalTimeline>().tick().0;
            let want = tick_before as i64 + ran as i64 + shifts.iter().map(|s| *s as i64).sum::<i64>();
            ensure_eq!(tick as i64, want, "tick-steps", "tick {tick_before}, {ran} fixed steps, shifts {shifts:?}");
            let sync = w.resource::<LocalTimelineSync>();
            let (synced, speed, delay) = (sync.is_synced(), sync.relative_speed() as f64, sync.input_delay());
            ensure!(speed <= speed_cap && speed >= 1.0 / speed_cap, "speed-bound", "relative speed {speed}, speed-up factor {}", cfg.speedup_factor);
            let v = w.resource::<Time<Virtual>>().relative_speed() as f64;
            let wantv = if synced { speed } else { 1.0 };
            ensure!((v - wantv).abs() < 1e-6, "applied-speed", "virtual time runs at {v}, synchronisation wants {wantv} (synced {synced})");
            let m = w.get::<PingManager>(n.ents[C]).unwrap();
            let rem = w.get::<RemoteTimeline>(n.ents[C]).unwrap();
            ensure!(
                rem.last_received_tick() >= newest,
                "older-packet",
                "the newest tick received from the server went from {newest:?} to {:?}",
                rem.last_received_tick()
            );
            newest = rem.last_received_tick();
            let est = {
                let i = rem.current_estimate();
                i.tick().0 as f64 + i.overstep().to_f32() as f64
            };
            let (rtt, jit) = (m.rtt().as_micros() as f64, m.jitter().as_micros() as f64);
            if !shifts.is_empty() {
                ensure!(
                    m.latency_samples_recv() >= cfg.handshake_pings as u32 && rem.last_received_tick().is_some(),
                    "shift-before-handshake",
                    "{} samples, last tick {:?}",
                    m.latency_samples_recv(),
                    rem.last_received_tick()
                );
            }
            if synced && synced_at.is_none() {
                synced_at = Some(n.now);
                ensure!(m.latency_samples_recv() >= cfg.handshake_pings as u32 && rem.last_received_tick().is_some(), "synced-early", "{} samples", m.latency_samples_recv());
                if fresh {
                    // half a round trip more or less than the packet took, and frames at both ends
                    let truth = n.instant(S, c);
                    let fuzz = (rtt_hi + 2 * (max_frame(c, S) + max_frame(c, C))) as f64 / d + 1.0;
                    ensure!((est - truth).abs() <= fuzz, "first-estimate", "newly synchronised with a server at {truth:.2}, estimated at {est:.2}; unobservable {fuzz:.2} ticks");
                    obs.label("estimate at the first synchronisation");
                }
            }
            if synced_at.is_some() {
                ensure!(synced, "sync-lost", "no longer synchronised while connected");
            }
            if steady && calm {
                shifts_in_measure += shifts.len();
                ensure!(synced, "never-synced", "not synchronised {} s after the network became steady", (n.now - began) / 1_000_000);
                let truth = n.instant(S, c);
                // what cannot be observed: asymmetry of the routes, frames, jitter
                let fuzz = ((p.latency_us[0].abs_diff(p.latency_us[1])) as f64 / 2.0 + p.jitter_us as f64 + (max_frame(c, S) + max_frame(c, C)) as f64 + (c.work_us[0] + c.work_us[1]) as f64) / d;
                ensure!((est - truth).abs() <= fuzz + 0.6, "remote-estimate", "the server is at {truth:.2}, the client estimates {est:.2}; unobservable {fuzz:.2} ticks");
                let lead = n.instant(C, c) - truth;
                let ideal = rtt / 2.0 / d + cfg.jitter_multiple as f64 * jit / d + cfg.jitter_margin as f64 + 1.0 + margin - delay as f64;
                obs.count("lead samples", 1);
                checked += 1;
                ensure!(
                    (lead - ideal).abs() <= margin + fuzz + 0.6,
                    "lead",
                    "the client leads the server by {lead:.2} ticks, wanted {ideal:.2} within {margin} + {fuzz:.2}"
                );
            }
        }
        if focus == "C32" && calm {
            if inputs >= 50 {
                // frames and jitter beyond the margins make inputs late by design, and frames in step
                // with the ticks keep their phase: how many can be bounded only near the margins
                let near = wobble <= cfg.jitter_margin as f64 + 0.5;
                obs.label_if(near, "margins nearly cover the wobble");
                ensure!(!near || late * 4 <= inputs, "late-inputs", "{late} of {inputs} inputs reached the server after it had simulated their tick");
            }
            obs.count("late inputs", late);
            obs.label_if(strict, "margins cover the wobble");
            ensure_eq!(shifts_in_measure, 0, "shifts-when-steady", "phase {pi}: clock jumps in a steady network");
        }
    }
    obs.count("packets", n.stats[0]);
    obs.count("lost", n.stats[1]);
    obs.count("duplicated", n.stats[2]);
    obs.count("steady observations", checked);
    for p in &c.phases {
        obs.label(match p.event {
            Event::Nothing => "steady",
            Event::ServerStall(_) => "server stall",
            Event::ClientStall(_) => "client stall",
            Event::Blackout(_) => "blackout",
            Event::Reconnect(_) => "reconnect",
            Event::Pongs(_) => "forged pongs",
        });
    }
    obs.label_if(c.settings.delay.is_some(), "input delay");
    obs.label_if(c.retimed.is_some(), "tick duration changed");
    obs.nontrivial_if(n.stats[0] > 100);
    Ok(())
}

fn pos(ticks: u32, frac: u8) -> PositiveTickDelta {
    let inst = TickInstant::from_tick_and_overstep(Tick(ticks), Overstep::from_u8(frac));
    PositiveTickDelta { value: inst.value }
}

fn hostile_seen(c: &NetCase, upto: usize) -> bool {
    c.phases[..=upto].iter().any(|p| matches!(p.event, Event::Pongs(_)))
}

// ------------------------------------------- C32: the controller against scripted remote clocks

#[derive(Component, Default)]
struct ScriptCfg;
#[derive(Component, Default)]
struct Script {
    now: TickInstant,
    estimate: TickInstant,
    initialized: bool,
    fresh: bool,
}
impl TimelineConfig for ScriptCfg {
    type Context = ();
    type Timeline = Script;
}
impl NetworkTimeline for Script {
    type Config = ScriptCfg;
    fn now(&self) -> TickInstant {
        self.now
    }
    fn tick(&self) -> Tick {
        self.now.tick()
    }
    fn overstep(&self) -> Overstep {
        self.now.overstep()
    }
    fn set_now(&mut self, now: TickInstant) {
        self.now = now;
    }
    fn apply_delta(&mut self, d: TickDelta) {
        self.now = self.now + d;
    }
}
impl SyncTargetTimeline for Script {
    fn current_estimate(&self) -> TickInstant {
        self.estimate
    }
    fn is_initialized(&self) -> bool {
        self.initialized
    }
    fn received_packet(&self) -> bool {
        self.fresh
    }
}

#[derive(Resource, Default)]
struct Told {
    shifts: Vec<i32>,
    diverged: Vec<(Entity, f32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    /// link, local lead in eighths of a tick, fresh, initialised
    Clock(u8, i16, bool, bool),
    /// the same, on every link
    Clocks(i16, bool),
    /// this many further frames, with new packets or without
    Frames(u8, bool),
    Connect(u8),
    Disconnect(u8),
    Candidate(u8),
    Join(u8),
    Leave(u8),
    /// which topology the application reports: 0 none, 1 client, 2 peers, 3 invalid
    Mode(u8),
    /// local tick advance, confirmed input behind the local tick (if any), window
    Window(u8, Option<i8>, u8),
    WindowReset,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CtlCase {
    settings: SyncSettings,
    p2p: bool,
    links: u8,
    ops: Vec<COp>,
}

fn ctl_case() -> BoxedStrategy<CtlCase> {
    let lead = || prop_oneof![3 => -24i16..24, 4 => -80i16..80, 2 => -160i16..160, 1 => -8000i16..8000];
    let op = prop_oneof![
        6 => (0u8..3, lead(), prop::bool::weighted(0.8), prop::bool::weighted(0.8)).prop_map(|(l, d, f, i)| COp::Clock(l, d, f, i)),
        4 => (lead(), prop::bool::weighted(0.85)).prop_map(|(d, f)| COp::Clocks(d, f)),
        6 => (1u8..8, prop::bool::weighted(0.8)).prop_map(|(n, f)| COp::Frames(n, f)),
        2 => (0u8..3).prop_map(COp::Connect),
        1 => (0u8..3).prop_map(COp::Disconnect),
        1 => (0u8..3).prop_map(COp::Candidate),
        2 => (0u8..3).prop_map(COp::Join),
        1 => (0u8..3).prop_map(COp::Leave),
        2 => (0u8..4).prop_map(COp::Mode),
        2 => (0u8..12, prop::option::of(-3i8..12), 0u8..9).prop_map(|(a, b, c)| COp::Window(a, b, c)),
        1 => Just(COp::WindowReset),
    ];
    (settings(), any::<bool>(), 1u8..=3, vec(op, 1..60), prop_oneof![1 => Just(0u8), 1 => Just(1), 3 => Just(2)], -40i16..40)
        .prop_map(|(settings, p2p, links, ops, begun, at)| {
            let mut all = vec![];
            if begun > 0 {
                for l in 0..links {
                    all.extend([COp::Candidate(l), COp::Connect(l)]);
                }
                all.push(COp::Clocks(at, true));
            }
            if begun > 1 {
                all.extend((0..links).map(COp::Join));
                all.push(COp::Mode(2));
            }
            all.extend(ops);
            (settings, p2p, links, all)
        })
        .prop_map(|(settings, p2p, links, ops)| CtlCase { settings: SyncSettings { handshake: 0, delay: None, ..settings }, p2p, links, ops })
        .boxed()
}

fn controller(c: &CtlCase, obs: &mut Obs) -> Verdict {
    let d = Duration::from_millis(10);
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.add_plugins((CorePlugins { tick_duration: d }, LocalTimelineSyncPlugin::<Script>::default()));
    app.insert_resource(TimeUpdateStrategy::ManualDuration(Duration::ZERO));
    app.init_resource::<NetworkingMetadata>();
    app.init_resource::<Told>();
    app.add_observer(|t: On<LocalTimelineShift>, mut l: ResMut<Told>| l.shifts.push(t.delta));
    app.add_observer(|t: On<P2PTimelineDiverged>, mut l: ResMut<Told>| l.diverged.push((t.limiting_link, t.lead)));
    for l in [PostUpdate.intern(), Last.intern()] {
        app.edit_schedule(l, |s| {
            s.set_executor(SingleThreadedExecutor::new());
        });
    }
    app.insert_resource(c.settings.input());
    app.world_mut().resource_mut::<LocalTimeline>().apply_delta(100_000);
    app.world_mut().run_schedule(PostUpdate);
    let cfg = c.settings.config();
    let (margin, max) = (cfg.error_margin, cfg.max_error_margin);
    let cap = 1.0 + 2.0 * (cfg.speedup_factor - 1.0);
    let n = if c.p2p { c.links as usize } else { 1 };
    #[derive(Clone, Copy, PartialEq)]
    enum St {
        Out,
        Candidate,
        Joined,
    }
    let mut links = vec![];
    for i in 0..n {
        let e = app.world_mut().spawn((Client, RemoteId(PeerId::Local(i as u64)), Script::default(), PingManager::default())).id();
        links.push(e);
    }
    app.world_mut().flush();
    // the model
    let mut lead = vec![0f32; n];
    let mut fresh = vec![false; n];
    let mut init = vec![false; n];
    let mut conn = vec![false; n];
    let mut st = vec![St::Out; n];
    let mut mode;
    let mut meta = None;
    let mut peers: Vec<usize> = vec![];
    let mut changed = true;
    let mut synced = false;
    let mut waiting = false;
    let mut window_origin: Option<u32> = None;
    // consecutive fresh observations outside the dead band on one side
    let mut run = (0u32, true);
    // a recent observation on an edge of the dead band may have counted
    let mut edge = false;
    let (mut n_shift, mut n_div, mut n_slow, mut n_fast, mut n_wait, mut frames) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for op in &c.ops {
        let mut steps = 1;
        let mut keep_fresh = None;
        match *op {
            COp::Clock(l, x, f, i) => {
                let l = l as usize % n;
                (lead[l], fresh[l], init[l]) = (x as f32 / 8.0, f, i);
            }
            COp::Clocks(x, f) => {
                for l in 0..n {
                    (lead[l], fresh[l], init[l]) = (x as f32 / 8.0, f, true);
                }
            }
            COp::Frames(k, f) => {
                steps = k;
                keep_fresh = Some(f);
            }
            COp::Connect(l) => {
                let l = l as usize % n;
                if !conn[l] {
                    app.world_mut().entity_mut(links[l]).insert(Connected);
                    conn[l] = true;
                    if st[l] == St::Out {
                        // a conventional session starts over
                        synced = false;
                        run = (0, true);
                    }
                }
            }
            COp::Disconnect(l) => {
                let l = l as usize % n;
                if conn[l] {
                    app.world_mut().entity_mut(links[l]).insert(Disconnected::default());
                    conn[l] = false;
                    if st[l] == St::Out {
                        synced = false;
                    }
                }
            }
            COp::Candidate(l) if c.p2p => {
                let l = l as usize % n;
                app.world_mut().entity_mut(links[l]).insert(P2P::Candidate);
                st[l] = St::Candidate;
                changed = true;
            }
            COp::Join(l) if c.p2p => {
                let l = l as usize % n;
                app.world_mut().entity_mut(links[l]).insert(P2P::Joined);
                st[l] = St::Joined;
            }
            COp::Leave(l) if c.p2p => {
                let l = l as usize % n;
                app.world_mut().entity_mut(links[l]).remove::<P2P>();
                st[l] = St::Out;
            }
            COp::Mode(m) => {
                let peers: Vec<usize> = (0..n).filter(|l| st[*l] == St::Joined && conn[*l]).collect();
                let m = match m {
                    1 if c.p2p => 2,
                    2 if !c.p2p => 1,
                    m => m,
                };
                app.world_mut().resource_mut::<NetworkingMetadata>().mode = match m {
                    1 => NetworkTopology::Client(links[0]),
                    2 => NetworkTopology::P2P(peers.iter().map(|l| links[*l]).collect()),
                    _ => NetworkTopology::Undefined,
                };
            }
            COp::Window(adv, confirmed, max) => {
                app.world_mut().resource_mut::<LocalTimeline>().apply_delta(adv as i32);
                let t = app.world().resource::<LocalTimeline>().tick().0;
                let conf = confirmed.map(|b| Tick((t as i64 - b as i64) as u32));
                app.world_mut().resource_mut::<PredictionWindowWait>().update(Tick(t), conf, max as u16);
                window_origin.get_or_insert(t);
                waiting = app.world().resource::<PredictionWindowWait>().is_waiting();
            }
            COp::WindowReset => {
                app.world_mut().resource_mut::<PredictionWindowWait>().reset();
                waiting = false;
                window_origin = None;
            }
            _ => {}
        }
        app.world_mut().flush();
        {
            // connection hooks may have recomputed it
            let m = app.world().get_resource_ref::<NetworkingMetadata>().unwrap();
            if Some(m.last_changed()) != meta {
                meta = Some(m.last_changed());
                changed = true;
            }
            mode = match &m.mode {
                NetworkTopology::Client(_) => 1,
                NetworkTopology::P2P(p) => {
                    peers = p.iter().map(|e| links.iter().position(|l| l == e).unwrap()).collect();
                    2
                }
                _ => 0,
            };
        }
        for k in 0..steps {
            if k > 0 || keep_fresh.is_some() {
                for l in 0..n {
                    fresh[l] = keep_fresh == Some(true);
                }
            }
            let now = TickInstant::from(app.world().resource::<LocalTimeline>().tick());
            for l in 0..n {
                let mut s = app.world_mut().get_mut::<Script>(links[l]).unwrap();
                let x = TickDelta::from_duration(Duration::from_micros((lead[l].abs() * 10_000.0) as u64), d);
                s.estimate = if lead[l] >= 0.0 { now - x } else { now + x };
                s.initialized = init[l];
                s.fresh = fresh[l];
            }
            let before = app.world().resource::<LocalTimelineSync>().relative_speed();
            app.world_mut().run_schedule(PostUpdate);
            app.world_mut().run_schedule(Last);
            frames += 1;
            let told = std::mem::take(&mut *app.world_mut().resource_mut::<Told>());
            let sync = app.world().resource::<LocalTimelineSync>();
            let (is, speed) = (sync.is_synced(), sync.relative_speed());
            let after = app.world().resource::<LocalTimeline>().tick();
            let virt = app.world().resource::<Time<Virtual>>().relative_speed();
            ensure_eq!((after - now.tick()) as i64, told.shifts.iter().map(|s| *s as i64).sum::<i64>(), "tick-steps", "shifts {:?}", told.shifts);
            ensure!(speed <= cap + 1e-5 && speed >= 1.0 / cap - 1e-5, "speed-bound", "relative speed {speed}, cap {cap}");
            // -------------------------------------------------- what must have happened
            let cohort: Vec<usize> = {
                let cand: Vec<usize> = (0..n).filter(|l| st[*l] == St::Candidate).collect();
                if !cand.is_empty() { cand } else if mode == 2 { peers.clone() } else { vec![] }
            };
            let p2p_now = (0..n).any(|l| st[l] == St::Candidate) || mode == 2;
            let mut reset_speed = before;
            if changed {
                // a running session of peers keeps its readiness, everything else starts over
                synced = synced && mode == 2;
                run = (0, true);
                reset_speed = 1.0;
                changed = false;
            }
            let mut want_shift: Option<f32> = None;
            let mut observe: Option<f32> = None;
            let mut want_diverged = None;
            if p2p_now {
                let usable: Vec<usize> = cohort.iter().copied().filter(|l| conn[*l] && init[*l]).collect();
                let worst = usable.iter().copied().fold(None, |w: Option<(usize, f32)>, l| if w.is_none_or(|(_, x)| lead[l] > x) { Some((l, lead[l])) } else { w });
                let sampled = usable.iter().any(|l| fresh[*l]);
                if !synced {
                    if !cohort.is_empty() && usable.len() == cohort.len() && sampled {
                        want_shift = Some(-worst.unwrap().1.max(0.0));
                        synced = true;
                        reset_speed = 1.0;
                    }
                } else if sampled {
                    let (l, x) = worst.unwrap();
                    observe = Some(x.max(0.0));
                    if x > max {
                        want_diverged = Some((links[l], x, usable.iter().filter(|o| lead[**o] == x).count() > 1));
                    }
                }
            } else if mode == 1 && conn[0] && fresh[0] {
                let objective_lead = cfg.jitter_margin + 1.0 + margin;
                let err = lead[0] - objective_lead;
                if !synced {
                    want_shift = Some(-err);
                    synced = true;
                } else if err.abs() > max + 0.02 {
                    want_shift = Some(-err);
                    observe = Some(err);
                } else {
                    observe = Some(err);
                }
            }
            ensure_eq!(is, synced, "readiness", "frame {frames} after {op:?}");
            match want_shift {
                Some(x) => {
                    n_shift += 1;
                    ensure_eq!(told.shifts.len(), 1, "shift", "expected one shift of about {x} ticks, got {:?}", told.shifts);
                    ensure!((told.shifts[0] as f32 - x).abs() <= 1.01, "shift", "expected a shift of about {x} ticks, got {}", told.shifts[0]);
                }
                None => ensure!(
                    told.shifts.is_empty() || (!p2p_now && observe.is_some_and(|e| (e.abs() - max).abs() <= 0.05)),
                    "unexpected-shift",
                    "{:?} while the local lead is {lead:?}",
                    told.shifts
                ),
            }
            match want_diverged {
                Some((e, x, tie)) => {
                    n_div += 1;
                    let near = (x - max).abs() <= 0.05;
                    ensure!(told.diverged.len() == 1 || near, "divergence", "a lead of {x} ticks (limit {max}) was not reported: {:?}", told.diverged);
                    if let Some((g, y)) = told.diverged.first() {
                        ensure!((*g == e || tie) && (y - x).abs() < 0.02, "divergence", "reported {g} {y}, wanted {e} {x}");
                    }
                }
                None => ensure!(
                    told.diverged.is_empty() || observe.is_some_and(|e| (e - max).abs() <= 0.05),
                    "divergence",
                    "{:?} while the local lead is {lead:?} (limit {max})",
                    told.diverged
                ),
            }
            match observe {
                None => ensure!((speed - reset_speed).abs() < 1e-6, "speed-kept", "no fresh observation, yet the speed went from {reset_speed} to {speed}"),
                Some(e) => {
                    let a = e.abs();
                    if a > max + 0.05 {
                        run = (0, e.is_sign_positive());
                        if p2p_now {
                            ensure_eq!(speed, 1.0, "diverged-speed", "pacing after a divergence");
                        }
                    } else if a > margin + 0.05 && a < max - 0.05 {
                        let positive = e > 0.0;
                        run = if run.0 > 0 && run.1 == positive { (run.0 + 1, positive) } else { (1, positive) };
                        let right = if positive { speed < 1.0 } else { speed > 1.0 };
                        let adjusted = if positive { speed < reset_speed.min(1.0) - 1e-6 } else { speed > reset_speed.max(1.0) + 1e-6 };
                        if run.0 > cfg.consecutive_errors_threshold as u32 {
                            ensure!(right, "not-correcting", "{} observations in a row {e} ticks off, speed {speed}", run.0);
                            if positive { n_slow += 1 } else { n_fast += 1 }
                            // the further off, the stronger, at most twice the configured factor
                            let strength = if positive { 1.0 / speed } else { speed };
                            ensure!(strength <= 1.0 + (cap - 1.0) * 1.001 && strength > 1.0, "strength", "{strength}");
                            edge = false;
                        } else if run.0 < cfg.consecutive_errors_threshold as u32 && run.0 == 1 {
                            ensure!(!adjusted || edge || cfg.consecutive_errors_threshold <= 1, "hasty", "a single observation {e} ticks off changed the speed from {reset_speed} to {speed}");
                        }
                    } else if a < margin - 0.05 {
                        edge = false;
                        run = (0, e.is_sign_positive());
                        ensure!(
                            (speed - 1.0).abs() <= (reset_speed - 1.0).abs() + 1e-6 && (speed - 1.0) * (reset_speed - 1.0) >= -1e-6,
                            "recovery",
                            "within the margin ({e} ticks) the speed went from {reset_speed} to {speed}"
                        );
                        if (reset_speed - 1.0).abs() > 0.002 {
                            ensure!((speed - 1.0).abs() < (reset_speed - 1.0).abs(), "recovery", "within the margin ({e} ticks) the speed stays at {speed}");
                        }
                    } else {
                        // on an edge: either reading is right
                        run = (0, e.is_sign_positive());
                        edge = true;
                    }
                }
            }
            if p2p_now {
                ensure!(speed <= 1.0, "peer-speedup", "a peer sped up to {speed}");
            }
            let want_virt = if synced && waiting && (mode == 1 || p2p_now) {
                n_wait += 1;
                0.0
            } else if p2p_now || (synced && mode == 1) {
                speed
            } else {
                1.0
            };
            ensure_eq!(virt, want_virt, "applied-speed", "synced {synced} waiting {waiting} mode {mode} speed {speed}");
        }
    }
    obs.count("frames", frames);
    obs.count("shifts", n_shift);
    obs.count("divergences", n_div);
    obs.count("slowed down", n_slow);
    obs.count("sped up", n_fast);
    obs.count("waits", n_wait);
    obs.label(if c.p2p { "peers" } else { "client" });
    obs.nontrivial_if(n_shift > 0);
    Ok(())
}

// -------------------------------------------------------- C37: input delay and prediction window

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DelayCase {
    tick_us: u32,
    jitter_multiple: u8,
    jitter_margin: u8,
    min: u16,
    max: u16,
    predicted: u16,
    /// round trip and jitter of each link in microseconds
    links: Vec<(u32, u32)>,
    more_us: u32,
    form: u8,
}

fn delay_case() -> BoxedStrategy<DelayCase> {
    let few = || prop_oneof![2 => Just(0u16), 6 => 0u16..12, 2 => 12u16..200, 1 => Just(u16::MAX), 1 => any::<u16>()];
    (
        prop_oneof![Just(10_000u32), Just(15_625), Just(16_667), 1_000u32..50_000],
        0u8..6,
        0u8..40,
        (few(), few(), few()),
        vec((prop_oneof![1 => Just(0u32), 6 => 0u32..400_000, 1 => 0u32..4_000_000], prop_oneof![Just(0u32), 0u32..30_000]), 1..4),
        0u32..200_000,
        0u8..5,
    )
        .prop_map(|(tick_us, jitter_multiple, jitter_margin, (min, max, predicted), links, more_us, form)| DelayCase {
            tick_us,
            jitter_multiple,
            jitter_margin,
            min: min.min(max),
            max,
            predicted,
            links,
            more_us,
            form,
        })
        .boxed()
}

fn input_delay(c: &DelayCase, obs: &mut Obs) -> Verdict {
    let d = Duration::from_micros(c.tick_us as u64);
    let cfg = SyncConfig { jitter_multiple: c.jitter_multiple, jitter_margin: c.jitter_margin as f32 / 10.0, ..Default::default() };
    let named = c.form;
    let delay = match named {
        1 => InputDelayConfig::balanced(),
        2 => InputDelayConfig::no_input_delay(),
        3 => InputDelayConfig::no_prediction(),
        4 => InputDelayConfig::fixed_input_delay(c.min),
        _ => InputDelayConfig { minimum_input_delay_ticks: c.min, maximum_input_delay_before_prediction: c.max, maximum_predicted_ticks: c.predicted },
    };
    let (min, max, pred) = (delay.minimum_input_delay_ticks as f64, delay.maximum_input_delay_before_prediction as f64, delay.maximum_predicted_ticks as f64);
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.add_plugins((CorePlugins { tick_duration: d }, lightyear_connection::client::ConnectionPlugin, ClientPlugin));
    let get = |app: &mut App, links: &[(u32, u32)], peers: bool, candidates: bool| -> u32 {
        let mut es = vec![];
        for (r, j) in links {
            let mut l = Link::default();
            l.stats.rtt = Duration::from_micros(*r as u64);
            l.stats.jitter = Duration::from_micros(*j as u64);
            let mut e = app.world_mut().spawn(l);
            if candidates {
                e.insert(P2P::Candidate);
            }
            es.push(e.id());
        }
        app.world_mut().resource_mut::<NetworkingMetadata>().mode = if candidates {
            NetworkTopology::Undefined
        } else if peers {
            NetworkTopology::P2P(es.iter().copied().collect())
        } else {
            NetworkTopology::Client(es[0])
        };
        app.world_mut().insert_resource(InputTimelineConfig::new(cfg, delay));
        app.world_mut().flush();
        let a = app.world().resource::<LocalTimelineSync>().input_delay();
        // a clock shift recomputes it, to the same value as nothing changed
        app.world_mut().trigger(LocalTimelineShift { delta: 3 });
        app.world_mut().flush();
        let b = app.world().resource::<LocalTimelineSync>().input_delay();
        for e in es {
            app.world_mut().despawn(e);
        }
        if a != b { u32::MAX } else { a as u32 }
    };
    let mut each = vec![];
    for (r, j) in &c.links {
        let got = get(&mut app, &[(*r, *j)], false, false);
        ensure!(got != u32::MAX, "recomputed", "recomputing the delay for an unchanged link changed it");
        let rtt = (*r as f64 + c.jitter_multiple as f64 * *j as f64) / c.tick_us as f64 + cfg.jitter_margin as f64;
        let g = got as f64;
        // the code computes in f32
        let (low, up) = ((rtt * (1.0 - 1e-6) - 1e-3).max(0.0).ceil(), (rtt * (1.0 + 1e-6) + 1e-3).ceil());
        each.push(got);
        let lockstep = pred == 0.0;
        let extra = if lockstep { 2.0 } else { 0.0 };
        ensure!(g >= min, "minimum", "delay {g} below the minimum {min}");
        // whatever delay does not cover must fit in the prediction window
        ensure!(rtt - g <= pred + 1e-2 || got == u16::MAX as u32, "covered", "a round trip of {rtt} ticks with a delay of {g} needs more than {pred} predicted ticks");
        // no more delay than allowed while prediction can cover the rest, nor more than the latency
        ensure!(g <= min.max(up + extra), "excess", "delay {g} for a round trip of {rtt} ticks, minimum {min}");
        if rtt + 1e-2 <= max + pred && !lockstep {
            ensure!(g <= max.max(min), "before-prediction", "delay {g} though {pred} predicted ticks cover a round trip of {rtt} ticks (limit {max})");
        }
        if g > max.max(min) && g < 65535.0 {
            ensure!(g <= up + extra - pred, "beyond", "delay {g}, round trip {rtt}, predicted {pred}");
            obs.label("prediction exhausted");
        }
        if lockstep {
            obs.label("lockstep");
            ensure!(g >= low.min(65535.0), "lockstep", "lockstep delay {g} for a round trip of {rtt} ticks");
        }
        let slower = get(&mut app, &[(r.saturating_add(c.more_us), *j)], false, false);
        ensure!(slower >= got, "monotone", "delay {got} at {r} us but {slower} at {} us more", c.more_us);
    }
    // several peers share one input stream: the slowest decides
    let worst = *each.iter().max().unwrap();
    let joined = get(&mut app, &c.links, true, false);
    ensure_eq!(joined, worst, "slowest-peer", "joined peers need {each:?}");
    let cand = get(&mut app, &c.links, true, true);
    ensure_eq!(cand, worst, "slowest-peer", "candidate peers need {each:?}");
    obs.label_if(c.links.len() > 1, "several peers");
    obs.nontrivial_if(worst > 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WindowCase {
    start: u32,
    window: u16,
    /// per frame: how many ticks the remote confirmed further, whether any confirmation exists yet
    confirm: Vec<(u8, bool)>,
    ahead: u8,
}

fn window_case() -> BoxedStrategy<WindowCase> {
    (
        prop_oneof![Just(0u32), 0u32..100_000, Just(u32::MAX / 2)],
        prop_oneof![3 => 0u16..4, 4 => 4u16..20, 1 => 20u16..300],
        vec((prop_oneof![4 => Just(0u8), 4 => Just(1), 2 => 0u8..6], prop::bool::weighted(0.97)), 1..300),
        0u8..5,
    )
        .prop_map(|(start, window, confirm, ahead)| WindowCase { start, window, confirm, ahead })
        .boxed()
}

/// A simulation that runs one tick per frame whenever the window lets it.
fn window(c: &WindowCase, obs: &mut Obs) -> Verdict {
    let mut w = PredictionWindowWait::default();
    let mut tick = c.start;
    let mut confirmed: Option<u32> = None;
    let mut started = false;
    let (mut waits, mut resumes) = (0u64, 0u64);
    for (i, (more, any)) in c.confirm.iter().enumerate() {
        if *any && (*more > 0 || started) {
            started = true;
            let base = confirmed.unwrap_or(c.start);
            // inputs for the future reach as far as the input delay
            confirmed = Some((base + *more as u32).min(tick + c.ahead as u32));
        }
        let was = w.is_waiting();
        let changed = w.update(Tick(tick), confirmed.map(Tick), c.window);
        ensure_eq!(changed, was != w.is_waiting(), "changed", "frame {i}");
        let depth = tick as i64 - confirmed.unwrap_or(c.start) as i64;
        ensure_eq!(w.prediction_depth() as i64, depth, "depth", "frame {i}: tick {tick}, confirmed {confirmed:?}");
        ensure_eq!((w.confirmed_tick(), w.maximum_predicted_ticks()), (confirmed.map(Tick), c.window), "state", "frame {i}");
        if w.is_waiting() {
            waits += 1;
            ensure!(confirmed.is_some() || tick > c.start, "stuck", "frame {i}: waits at its first tick, window {}", c.window);
            // never waits with nothing to wait for
            ensure!(depth > 0 || c.window == 0, "stuck", "frame {i}: waits although tick {tick} is confirmed ({confirmed:?}), window {}", c.window);
            ensure!(was || depth >= c.window as i64, "hasty", "frame {i}: starts to wait {depth} ticks ahead, window {}", c.window);
            if c.window == 0 && confirmed.is_some_and(|x| x >= tick) {
                ensure!(!was, "stuck", "frame {i}: the current tick {tick} is confirmed and it still waits");
            }
        } else {
            if was {
                resumes += 1;
                let need = (c.window.saturating_sub(PREDICTION_WINDOW_HYSTERESIS_TICKS)) as i64;
                ensure!(depth <= need, "no-hysteresis", "frame {i}: resumes {depth} ticks ahead, window {}", c.window);
            }
            tick += 1;
            let over = tick as i64 - confirmed.unwrap_or(c.start) as i64;
            ensure!(over <= (c.window as i64).max(1), "overrun", "frame {i}: simulates {over} ticks past the confirmed input, window {}", c.window);
        }
    }
    w.reset();
    ensure!(!w.is_waiting() && w.confirmed_tick().is_none() && w.prediction_depth() == 0, "reset", "{w:?}");
    obs.count("waiting frames", waits);
    obs.count("resumed", resumes);
    obs.nontrivial_if(waits > 0 && tick > c.start);
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C31", "estimator", 30_000, 200_000, est_case, estimator),
        sub("C31", "steady-link", 400, 3000, || net_case(true), |c, o| run_net(c, "C31", true, o)),
        sub("C31", "rough-link", 200, 10_000, || net_case(false), |c, o| run_net(c, "C31", false, o)),
        sub("C32", "steady-link", 800, 4000, || net_case(true), |c, o| run_net(c, "C32", true, o)),
        sub("C32", "controller", 20_000, 300_000, ctl_case, controller),
        sub("C37", "delay", 20_000, 200_000, delay_case, input_delay),
        sub("C37", "window", 60_000, 1_000_000, window_case, window),
        sub("C32", "rough-link", 300, 4000, || net_case(false), |c, o| run_net(c, "C32", false, o)),
    ]
}
