//! C41: connections of the raw layer, where a link is the connection.

use crate::fw::{Obs, Res, Sub, sub};
use crate::{ensure, ensure_eq};
use aeronet_io::connection::{LocalAddr, PeerAddr};
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use lightyear_connection::client::{Connect, Connected, Connecting, Disconnect, Disconnected, DisconnectedReason, Disconnecting};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::network_topology::NetworkingMetadata;
use lightyear_connection::server::{Start, Started, Starting, Stop, Stopped, Stopping};
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_link::prelude::*;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_raw_connection::client::RawClient;
use lightyear_raw_connection::server::RawServer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::net::SocketAddr;

const SLOTS: u8 = 8;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    /// with its own local and remote id
    Client(bool, bool),
    /// raw or not
    Server(bool),
    /// of the server in that slot; linked when spawned or afterwards
    ClientOf(u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Spawn(u8, Kind),
    /// Connect or Start
    Begin(u8),
    /// the transport finishes linking
    Linked(u8),
    /// the transport fails
    Fail(u8, u8),
    Unlink(u8, u8),
    /// Disconnect or Stop
    End(u8),
    Despawn(u8),
    Update,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ln {
    Unlinked,
    Linking,
    Linked,
}

#[derive(Debug)]
struct Ent {
    e: Entity,
    kind: Kind,
    link: Ln,
    /// how often it connected or started, disconnected or stopped
    ups: u32,
    downs: u32,
    reason: Option<Vec<DisconnectedReason>>,
}

#[derive(Resource, Default)]
struct Seen(BTreeMap<Entity, (u32, u32)>);

fn reason(r: u8) -> UnlinkReason {
    match r {
        0 => UnlinkReason::UserRequested(None),
        1 => UnlinkReason::UserRequested(Some("x".into())),
        2 => UnlinkReason::ByPeer("bye".into()),
        _ => UnlinkReason::TransportError("io".into()),
    }
}

fn addr(n: u32) -> SocketAddr {
    if n % 3 == 2 {
        format!("[::{:x}]:{}", n + 1, 4000 + n).parse().unwrap()
    } else {
        format!("10.0.{}.{}:{}", n / 200, n % 200, 4000 + n).parse().unwrap()
    }
}

fn case() -> BoxedStrategy<Vec<Op>> {
    let s = 0u8..SLOTS;
    // servers, their clients and other clients have different slots, so that most operations do something
    let spawn = prop_oneof![
        3 => (6..SLOTS, any::<bool>(), any::<bool>()).prop_map(|(s, a, b)| Op::Spawn(s, Kind::Client(a, b))),
        4 => (0u8..2, prop::bool::weighted(0.8)).prop_map(|(s, r)| Op::Spawn(s, Kind::Server(r))),
        7 => (2u8..6, 0u8..2, any::<bool>()).prop_map(|(s, p, l)| Op::Spawn(s, Kind::ClientOf(p, l))),
    ];
    let op = prop_oneof![
        8 => spawn,
        5 => s.clone().prop_map(Op::Begin),
        5 => s.clone().prop_map(Op::Linked),
        4 => (0u8..2).prop_map(Op::Linked),
        2 => (s.clone(), 0u8..4).prop_map(|(s, r)| Op::Fail(s, r)),
        2 => (s.clone(), 0u8..4).prop_map(|(s, r)| Op::Unlink(s, r)),
        3 => s.clone().prop_map(Op::End),
        1 => s.prop_map(Op::Despawn),
        6 => Just(Op::Update),
    ];
    vec(op, 1..60).boxed()
}

struct Sim {
    app: App,
    m: BTreeMap<u8, Ent>,
    gone: Vec<(Entity, u32, u32)>,
    next: u32,
}

impl Sim {
    fn raw(&self, s: u8) -> bool {
        match self.m[&s].kind {
            Kind::Client(..) => true,
            Kind::Server(raw) => raw,
            Kind::ClientOf(p, _) => matches!(self.m[&p].kind, Kind::Server(true)),
        }
    }
    fn children(&self, s: u8) -> Vec<u8> {
        self.m.iter().filter(|(_, x)| matches!(x.kind, Kind::ClientOf(p, _) if p == s)).map(|(k, _)| *k).collect()
    }
    fn remove(&mut self, s: u8, graceful: bool) {
        for c in self.children(s) {
            self.remove(c, graceful);
        }
        if graceful {
            self.down(s, None);
        }
        let x = self.m.remove(&s).unwrap();
        self.gone.push((x.e, x.ups, x.downs));
    }
    fn up(&mut self, s: u8) {
        let raw = self.raw(s);
        let x = self.m.get_mut(&s).unwrap();
        if x.link != Ln::Linked {
            x.ups += raw as u32;
            x.link = Ln::Linked;
            x.reason = None;
        }
    }
    fn down(&mut self, s: u8, r: Option<UnlinkReason>) {
        let raw = self.raw(s);
        let x = self.m.get_mut(&s).unwrap();
        if x.link == Ln::Linked && raw {
            x.downs += 1;
            x.reason = r.map(|r| vec![DisconnectedReason::LinkFailed(r.clone()), if let UnlinkReason::UserRequested(u) = r { DisconnectedReason::UserRequested(u) } else { DisconnectedReason::LinkFailed(r) }]);
        }
        x.link = Ln::Unlinked;
    }

    fn check(&mut self, i: usize) -> Res {
        let w = self.app.world();
        let seen = w.resource::<Seen>();
        for (e, u, d) in &self.gone {
            ensure!(w.get_entity(*e).is_err(), "survives", "op {i}: {e:?} should be gone");
            ensure_eq!(seen.0.get(e).copied().unwrap_or_default(), (*u, *d), "events", "op {i}: connections and disconnections of {e:?}, now gone");
        }
        let meta = w.resource::<NetworkingMetadata>();
        for (s, x) in &self.m {
            let Ok(r) = w.get_entity(x.e) else {
                return Err(crate::fw::Fail::new("vanished", format!("op {i}: slot {s} ({:?}) is gone", x.kind)));
            };
            let link = (r.contains::<Unlinked>(), r.contains::<Linking>(), r.contains::<Linked>());
            // a new link need not be marked yet
            ensure!(
                link == (x.link == Ln::Unlinked, x.link == Ln::Linking, x.link == Ln::Linked) || x.link == Ln::Unlinked && x.ups == 0 && link == (false, false, false),
                "link-state", "op {i}: slot {s} {:?} {:?} is unlinked/linking/linked {link:?}", x.kind, x.link
            );
            let raw = self.raw(*s);
            let up = x.link == Ln::Linked && raw;
            if let Kind::Server(_) = x.kind {
                let st = (r.contains::<Starting>(), r.contains::<Started>(), r.contains::<Stopping>(), r.contains::<Stopped>());
                if raw {
                    ensure_eq!(st.1, up, "started", "op {i}: slot {s} linked {:?} has starting/started/stopping/stopped {st:?}", x.link);
                    ensure!(!up || st == (false, true, false, false), "several-states", "op {i}: slot {s} has starting/started/stopping/stopped {st:?}");
                    ensure!(x.link != Ln::Unlinked || !st.0 && !st.1 && !st.2, "stopped", "op {i}: slot {s} unlinked but starting/started/stopping/stopped {st:?}");
                    ensure!(x.link != Ln::Unlinked || x.downs == 0 || st.3, "stopped", "op {i}: slot {s} unlinked but not stopped: {st:?}");
                } else {
                    ensure!(!st.1, "started", "op {i}: slot {s} isn't a raw server but Started");
                }
            } else {
                let st = (r.contains::<Connecting>(), r.contains::<Connected>(), r.contains::<Disconnecting>(), r.contains::<Disconnected>());
                ensure_eq!(st.1, up, "connected", "op {i}: slot {s} {:?} {:?} has connecting/connected/disconnecting/disconnected {st:?}", x.kind, x.link);
                ensure!(!up || st == (false, true, false, false), "several-states", "op {i}: slot {s} {st:?}");
                ensure!(x.link != Ln::Unlinked || !raw || x.ups == 0 || st == (false, false, false, true), "disconnected", "op {i}: slot {s} {st:?}");
                if let (Some(want), Some(d)) = (&x.reason, r.get::<Disconnected>()) {
                    ensure!(want.contains(&d.reason), "reason", "op {i}: slot {s} disconnected because of {:?}, expected one of {want:?}", d.reason);
                }
                match x.kind {
                    Kind::Client(own_local, own_remote) => {
                        let a = r.get::<LocalAddr>().unwrap().0;
                        if up {
                            let local = if own_local { PeerId::Entity(*s as u64) } else { PeerId::Raw(a) };
                            ensure_eq!(r.get::<LocalId>().map(|l| l.0), Some(local), "local-id", "op {i}: slot {s}");
                            let remote = if own_remote { PeerId::Entity(100 + *s as u64) } else { PeerId::Server };
                            ensure_eq!(r.get::<RemoteId>().map(|l| l.0), Some(remote), "remote-id", "op {i}: slot {s}");
                            if own_remote {
                                ensure_eq!(meta.peer_map.get(&remote), Some(&x.e), "peer-map", "op {i}: slot {s}");
                            }
                        } else if own_remote {
                            ensure_eq!(meta.peer_map.get(&PeerId::Entity(100 + *s as u64)), None, "peer-map", "op {i}: slot {s}");
                        }
                    }
                    _ => {
                        let id = PeerId::Raw(r.get::<PeerAddr>().unwrap().0);
                        if up {
                            ensure_eq!(r.get::<LocalId>().map(|l| l.0), Some(PeerId::Server), "local-id", "op {i}: slot {s}");
                            ensure_eq!(r.get::<RemoteId>().map(|l| l.0), Some(id), "remote-id", "op {i}: slot {s}");
                            ensure!(r.contains::<ClientOf>(), "client-of", "op {i}: slot {s}");
                        }
                        ensure_eq!(meta.peer_map.get(&id), up.then_some(&x.e), "peer-map", "op {i}: slot {s}");
                    }
                }
            }
            ensure_eq!(seen.0.get(&x.e).copied().unwrap_or_default(), (x.ups, x.downs), "events", "op {i}: connections and disconnections of slot {s} {:?}", x.kind);
        }
        for (id, e) in &meta.peer_map {
            ensure!(!matches!(id, PeerId::Raw(_)) || w.get_entity(*e).is_ok(), "peer-map", "op {i}: {id:?} maps to a dead entity");
        }
        Ok(())
    }
}

fn count_up(e: Entity, s: &mut Seen) {
    s.0.entry(e).or_default().0 += 1;
}
/// Only ends of something that began count.
fn count_down(e: Entity, s: &mut Seen) {
    let c = s.0.entry(e).or_default();
    c.1 += (c.0 > c.1) as u32;
}

fn run(ops: &Vec<Op>, obs: &mut Obs) -> Res {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.add_plugins((lightyear_connection::ConnectionPlugin, ServerLinkPlugin));
    app.add_plugins((lightyear_raw_connection::client::RawConnectionPlugin, lightyear_raw_connection::server::RawConnectionPlugin));
    app.init_resource::<Seen>();
    app.add_observer(|t: On<Add, Connected>, mut s: ResMut<Seen>| count_up(t.entity, &mut s));
    app.add_observer(|t: On<Add, Started>, mut s: ResMut<Seen>| count_up(t.entity, &mut s));
    app.add_observer(|t: On<Add, Disconnected>, mut s: ResMut<Seen>| count_down(t.entity, &mut s));
    app.add_observer(|t: On<Add, Stopped>, mut s: ResMut<Seen>| count_down(t.entity, &mut s));
    // the transport: starts linking when it is asked to
    app.add_observer(|t: On<LinkStart>, q: Query<(), (Without<Linking>, Without<Linked>)>, mut c: Commands| {
        if q.contains(t.entity) {
            c.entity(t.entity).insert(Linking);
        }
    });
    app.finish();
    let mut sim = Sim { app, m: BTreeMap::new(), gone: vec![], next: 0 };
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Spawn(s, k) => {
                if sim.m.contains_key(s) {
                    continue;
                }
                let n = sim.next;
                sim.next += 1;
                let w = sim.app.world_mut();
                let mut link = Ln::Unlinked;
                let e = match *k {
                    Kind::Client(l, r) => {
                        let mut e = w.spawn((RawClient, LocalAddr(addr(n))));
                        if l {
                            e.insert(LocalId(PeerId::Entity(*s as u64)));
                        }
                        if r {
                            e.insert(RemoteId(PeerId::Entity(100 + *s as u64)));
                        }
                        e.id()
                    }
                    Kind::Server(true) => w.spawn((RawServer, LocalAddr(addr(n)))).id(),
                    Kind::Server(false) => w.spawn((Server::default(), LocalAddr(addr(n)))).id(),
                    Kind::ClientOf(p, linked) => {
                        // the transport of a linked server accepts a peer
                        let Some(x) = sim.m.get(&p).filter(|x| x.link == Ln::Linked && matches!(x.kind, Kind::Server(_))) else { continue };
                        let server = x.e;
                        let base = (LinkOf { server }, Link::default(), PeerAddr(addr(n)));
                        if linked {
                            link = Ln::Linked;
                            w.spawn((base, Linked)).id()
                        } else {
                            w.spawn(base).id()
                        }
                    }
                };
                w.flush();
                sim.m.insert(*s, Ent { e, kind: *k, link: Ln::Unlinked, ups: 0, downs: 0, reason: None });
                if link == Ln::Linked {
                    sim.up(*s);
                }
                obs.label(match k {
                    Kind::Client(..) => "client",
                    Kind::Server(..) => "server",
                    Kind::ClientOf(..) => "client of a server",
                });
            }
            Op::Update => {
                sim.app.update();
            }
            Op::Begin(s) => {
                let Some(x) = sim.m.get_mut(s) else { continue };
                let w = sim.app.world_mut();
                match x.kind {
                    Kind::Client(..) => w.trigger(Connect { entity: x.e }),
                    Kind::Server(_) => w.trigger(Start { entity: x.e }),
                    _ => continue,
                }
                if x.link == Ln::Unlinked {
                    x.link = Ln::Linking;
                }
            }
            Op::Linked(s) => {
                let Some(x) = sim.m.get(s).filter(|x| x.link != Ln::Linked) else { continue };
                let (e, again) = (x.e, x.ups > 0);
                // a link that ended isn't used again by the server's transports
                if again && matches!(x.kind, Kind::ClientOf(..)) {
                    continue;
                }
                obs.label_if(again, "connected again");
                sim.app.world_mut().entity_mut(e).insert(Linked);
                sim.up(*s);
            }
            Op::Fail(s, r) | Op::Unlink(s, r) => {
                let Some(x) = sim.m.get(s).filter(|x| x.link != Ln::Unlinked) else { continue };
                let e = x.e;
                let r = reason(*r);
                let w = sim.app.world_mut();
                if matches!(op, Op::Fail(..)) {
                    w.entity_mut(e).insert(Unlinked { reason: r.clone() });
                    obs.label("link failed");
                } else {
                    w.trigger(Unlink { entity: e, reason: r.clone() });
                    obs.label("unlinked");
                }
                for c in sim.children(*s) {
                    sim.remove(c, true);
                    obs.label("client gone with its server");
                }
                sim.down(*s, Some(r));
            }
            Op::End(s) => {
                let Some(x) = sim.m.get(s) else { continue };
                let e = x.e;
                match x.kind {
                    Kind::Client(..) => {
                        sim.app.world_mut().trigger(Disconnect { entity: e });
                        obs.label_if(x.link == Ln::Linked, "disconnected");
                        obs.label_if(x.link == Ln::Linking, "disconnected while connecting");
                        sim.down(*s, Some(UnlinkReason::UserRequested(None)));
                    }
                    Kind::Server(true) => {
                        sim.app.world_mut().trigger(Stop { entity: e });
                        obs.label_if(x.link == Ln::Linked, "server stopped");
                        obs.label_if(x.link == Ln::Linking, "server stopped while starting");
                        for c in sim.children(*s) {
                            sim.remove(c, true);
                            obs.label("client gone with its server");
                        }
                        sim.down(*s, None);
                        // the clients may stay for the rest of the frame
                        sim.app.update();
                    }
                    _ => continue,
                }
            }
            Op::Despawn(s) => {
                if !sim.m.contains_key(s) {
                    continue;
                }
                let e = sim.m[s].e;
                sim.app.world_mut().despawn(e);
                sim.remove(*s, false);
                obs.label("despawned");
            }
        }
        sim.app.world_mut().flush();
        sim.check(i)?;
    }
    sim.app.update();
    sim.check(ops.len())?;
    obs.nontrivial_if(sim.m.values().any(|x| x.ups > 0) || sim.gone.iter().any(|x| x.1 > 0));
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![sub("C41", "raw", 40_000, 600_000, case, run)]
}
