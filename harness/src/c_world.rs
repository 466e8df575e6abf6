//! Lifecycle markers of connections and links in one world: C22 connections and the peer map,
//! C23 network topology, C28 link conditioner, C29 links and server links.

use crate::fw::{Fail, Obs, Res, Sub, sub};
use crate::util::{clock_advance, clock_set};
use crate::{ensure, ensure_eq};
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_ecs::relationship::RelationshipTarget;
use bytes::BytesMut;
use lightyear_connection::client::{
    Client, ClientState, Connect, Connected, Connecting, Disconnect, Disconnected, DisconnectedReason, Disconnecting,
};
use lightyear_connection::client_of::ClientOf;
use lightyear_connection::host::{HostClient, HostPlugin, HostServer};
use lightyear_connection::network_topology::{NetworkTopology, NetworkTopologyError, NetworkingMetadata};
use lightyear_connection::p2p::P2P;
use lightyear_connection::server::{Start, Started, Starting, Stopped, Stopping};
use lightyear_core::id::{PeerId, RemoteId};
use lightyear_core::time::Instant;
use lightyear_link::prelude::*;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_link::{LinkPlugin, LinkState, LinkSystems};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    Client,
    /// of the server in that slot
    ClientOf(u8),
    /// a client in the server's own app
    Host(u8),
    Server,
    P2P,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Conn {
    Connecting,
    Connected,
    Disconnecting,
    Disconnected,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Srv {
    Starting,
    Started,
    Stopping,
    Stopped,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Ln {
    Linking,
    Linked,
    Unlinked,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// slot, kind, peer id
    Spawn(u8, Kind, u8),
    Mark(u8, Conn, u8),
    Connect(u8),
    Disconnect(u8),
    Start(u8),
    Link(u8, Ln, u8),
    Unlink(u8, u8),
    Server(u8, Srv),
    Reparent(u8, u8),
    Despawn(u8),
    Update,
    // topologies only
    P2P(u8, u8),
    HostMark(u8, bool),
    ClientMark(u8, bool),
    LinkOf(u8, Option<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

const SLOTS: u8 = 7;

fn case(focus: u8) -> BoxedStrategy<Case> {
    let s = 0u8..SLOTS;
    let kind = prop_oneof![
        2 => Just(Kind::Client),
        4 => (0u8..SLOTS).prop_map(Kind::ClientOf),
        2 => (0u8..SLOTS).prop_map(Kind::Host),
        3 => Just(Kind::Server),
        if focus == 1 { 3 } else { 1 } => Just(Kind::P2P),
    ];
    let conn = prop_oneof![Just(Conn::Connecting), Just(Conn::Connected), Just(Conn::Connected), Just(Conn::Disconnecting), Just(Conn::Disconnected)];
    let srv = prop_oneof![Just(Srv::Starting), Just(Srv::Started), Just(Srv::Started), Just(Srv::Stopping), Just(Srv::Stopped)];
    let ln = prop_oneof![Just(Ln::Linking), Just(Ln::Linked), Just(Ln::Unlinked)];
    let (wc, wl) = match focus {
        0 => (8, 3),
        1 => (8, 1),
        _ => (2, 8),
    };
    let op = prop_oneof![
        8 => (s.clone(), kind, 0u8..4).prop_map(|(s, k, p)| Op::Spawn(s, k, p)),
        wc => (s.clone(), conn, 0u8..5).prop_map(|(s, c, r)| Op::Mark(s, c, r)),
        3 => s.clone().prop_map(Op::Connect),
        2 => s.clone().prop_map(Op::Disconnect),
        1 => s.clone().prop_map(Op::Start),
        wl => (s.clone(), ln, 0u8..5).prop_map(|(s, l, r)| Op::Link(s, l, r)),
        wl / 2 + 1 => (s.clone(), 0u8..5).prop_map(|(s, r)| Op::Unlink(s, r)),
        5 => (s.clone(), srv).prop_map(|(s, v)| Op::Server(s, v)),
        1 => (s.clone(), s.clone()).prop_map(|(a, b)| Op::Reparent(a, b)),
        2 => s.clone().prop_map(Op::Despawn),
        if focus == 1 { 10 } else { 3 } => Just(Op::Update),
    ];
    let topo = prop_oneof![
        3 => (s.clone(), 0u8..3).prop_map(|(s, p)| Op::P2P(s, p)),
        3 => (s.clone(), any::<bool>()).prop_map(|(s, b)| Op::HostMark(s, b)),
        1 => (s.clone(), any::<bool>()).prop_map(|(s, b)| Op::ClientMark(s, b)),
        1 => (s.clone(), proptest::option::of(s)).prop_map(|(s, b)| Op::LinkOf(s, b)),
    ];
    let op = if focus == 1 { prop_oneof![5 => op, 1 => topo].boxed() } else { op.boxed() };
    vec(op, 1..60).prop_map(|ops| Case { ops }).boxed()
}

fn unlink_reason(r: u8) -> UnlinkReason {
    match r {
        0 => UnlinkReason::Initial,
        1 => UnlinkReason::UserRequested(Some("x".into())),
        2 => UnlinkReason::ServerStopped,
        3 => UnlinkReason::ByPeer("bye".into()),
        _ => UnlinkReason::TransportError("io".into()),
    }
}
fn disc_reason(r: u8) -> DisconnectedReason {
    match r {
        0 => DisconnectedReason::Unknown,
        1 => DisconnectedReason::UserRequested(Some("x".into())),
        2 => DisconnectedReason::LinkFailed(UnlinkReason::ServerStopped),
        3 => DisconnectedReason::ByPeer(Some("bye".into())),
        _ => DisconnectedReason::TransportError("io".into()),
    }
}
fn peer(p: u8) -> PeerId {
    match p {
        0 => PeerId::Netcode(1),
        1 => PeerId::Netcode(2),
        2 => PeerId::Entity(3),
        _ => PeerId::Local(7),
    }
}

/// What an entity's markers should be.
#[derive(Debug)]
struct Ent {
    e: Entity,
    kind: Kind,
    server: Option<u8>,
    peer: PeerId,
    conn: Option<Conn>,
    reason: Option<DisconnectedReason>,
    link: Option<Ln>,
    unlinked: Option<UnlinkReason>,
    srv: Option<Srv>,
    host: bool,
    client_of: bool,
    stamp: u64,
}

#[derive(Resource, Default)]
struct Seen {
    link_start: Vec<Entity>,
    unlink: Vec<Entity>,
}

struct Sim {
    app: App,
    m: BTreeMap<u8, Ent>,
    now: u64,
    /// who connected last with an id / which server started last
    last: Vec<(PeerId, Entity)>,
    want_start: Vec<Entity>,
    want_unlink: Vec<Entity>,
    stats: BTreeMap<&'static str, u64>,
}

fn new_app(focus: &str) -> App {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.add_plugins(lightyear_connection::ConnectionPlugin);
    app.add_plugins((lightyear_connection::client::ConnectionPlugin, HostPlugin, ServerLinkPlugin));
    if focus != "C23" {
        // changes the world in `Last`, after the topology was inferred
        app.add_plugins(lightyear_connection::server::ConnectionPlugin);
    }
    app.init_resource::<Seen>();
    app.add_observer(|t: On<LinkStart>, mut s: ResMut<Seen>| s.link_start.push(t.entity));
    app.add_observer(|t: On<Unlink>, mut s: ResMut<Seen>| s.unlink.push(t.entity));
    app.finish();
    app
}

impl Sim {
    fn tally(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }

    fn children(&self, s: u8) -> Vec<u8> {
        self.m.iter().filter(|(_, x)| x.server == Some(s)).map(|(k, _)| *k).collect()
    }

    fn connected(&mut self, s: u8) {
        let x = self.m.get_mut(&s).unwrap();
        if x.conn == Some(Conn::Connected) {
            return;
        }
        x.conn = Some(Conn::Connected);
        x.reason = None;
        let (p, e) = (x.peer, x.e);
        self.last.retain(|l| l.0 != p);
        self.last.push((p, e));
        self.tally("connected");
    }

    fn disconnected(&mut self, s: u8, r: DisconnectedReason) {
        let x = self.m.get_mut(&s).unwrap();
        x.conn = Some(Conn::Disconnected);
        x.reason = Some(r);
        x.host = false;
        self.tally("disconnected");
    }

    fn become_host(&mut self, s: u8) {
        let x = self.m.get_mut(&s).unwrap();
        if !x.host && matches!(x.kind, Kind::Host(_)) && x.conn == Some(Conn::Connected) {
            let Some(sv) = x.server else { return };
            if self.m.get(&sv).is_some_and(|v| v.srv == Some(Srv::Started)) {
                self.m.get_mut(&s).unwrap().host = true;
                self.tally("host");
            }
        }
    }

    fn connect(&mut self, s: u8) {
        let e = self.m[&s].e;
        self.want_start.push(e);
        let x = &self.m[&s];
        if let (Kind::Host(_), Some(sv), false) = (x.kind, x.server, x.host) {
            if self.m.get(&sv).is_some_and(|v| v.srv == Some(Srv::Started)) {
                self.connected(s);
                let x = self.m.get_mut(&s).unwrap();
                x.host = true;
                x.client_of = true;
                self.tally("host");
            } else {
                let x = self.m.get_mut(&s).unwrap();
                x.conn = Some(Conn::Connecting);
                x.reason = None;
            }
        }
    }

    fn server(&mut self, s: u8, v: Srv) {
        let x = self.m.get_mut(&s).unwrap();
        if x.srv == Some(v) {
            return;
        }
        x.srv = Some(v);
        if v == Srv::Started {
            let e = x.e;
            self.last.retain(|l| l.0 != PeerId::Server);
            self.last.push((PeerId::Server, e));
            self.tally("started");
            for c in self.children(s) {
                let x = &self.m[&c];
                if matches!(x.kind, Kind::Host(_)) && !x.host {
                    match x.conn {
                        Some(Conn::Connecting) => self.connect(c),
                        Some(Conn::Connected) => self.become_host(c),
                        _ => {}
                    }
                }
            }
        }
    }

    fn despawn(&mut self, s: u8) {
        for c in self.children(s) {
            self.despawn(c);
        }
        self.m.remove(&s);
        self.tally("despawned");
    }

    fn link(&mut self, s: u8, l: Ln, r: UnlinkReason) {
        let x = self.m.get_mut(&s).unwrap();
        match l {
            Ln::Linking if x.link == Some(Ln::Linked) => {}
            Ln::Unlinked => {
                let newly = x.link != Some(Ln::Unlinked);
                x.link = Some(l);
                x.unlinked = Some(r.clone());
                if !newly {
                    return;
                }
                if x.kind == Kind::Server {
                    if x.srv == Some(Srv::Started) {
                        x.srv = Some(Srv::Stopped);
                    }
                    for c in self.children(s) {
                        let e = self.m[&c].e;
                        self.want_unlink.push(e);
                        self.m.remove(&c);
                        self.tally("unlinked with the server");
                    }
                } else if x.conn != Some(Conn::Disconnected) {
                    self.disconnected(s, DisconnectedReason::LinkFailed(r));
                }
            }
            _ => {
                x.link = Some(l);
                x.unlinked = None;
            }
        }
    }

    fn op(&mut self, op: &Op, topo: bool) -> Res {
        self.now += 1;
        match op {
            Op::Spawn(s, kind, p) => {
                if self.m.contains_key(s) {
                    return Ok(());
                }
                let sv = |v: u8| self.m.get(&v).filter(|x| x.kind == Kind::Server).map(|x| x.e);
                let mut server = None;
                if let Kind::ClientOf(v) | Kind::Host(v) = kind {
                    if sv(*v).is_none() || (matches!(kind, Kind::Host(_)) && self.children(*v).iter().any(|c| matches!(self.m[c].kind, Kind::Host(_)))) {
                        return Ok(());
                    }
                    server = Some(*v);
                }
                let se = server.and_then(sv);
                let w = self.app.world_mut();
                let mut id = peer(*p);
                let e = match kind {
                    Kind::Client => w.spawn((Client, Link::default())),
                    Kind::ClientOf(_) => w.spawn((LinkOf { server: se.unwrap() }, ClientOf, Link::default())),
                    Kind::Host(_) => {
                        id = PeerId::Local(0);
                        w.spawn((Client, LinkOf { server: se.unwrap() }, Link::default()))
                    }
                    Kind::Server => w.spawn(Server::default()),
                    Kind::P2P => w.spawn((P2P::Inactive, Link::default())),
                }
                .id();
                w.flush();
                let is_server = *kind == Kind::Server;
                self.m.insert(*s, Ent {
                    e,
                    kind: *kind,
                    server,
                    peer: id,
                    conn: None,
                    reason: None,
                    link: is_server.then_some(Ln::Unlinked),
                    unlinked: is_server.then_some(UnlinkReason::Initial),
                    srv: None,
                    host: false,
                    client_of: matches!(kind, Kind::ClientOf(_)),
                    stamp: self.now,
                });
            }
            Op::Mark(s, c, r) => {
                let Some(x) = self.m.get(s) else { return Ok(()) };
                if x.kind == Kind::Server || (x.host && !topo && *c != Conn::Disconnected) {
                    return Ok(());
                }
                let (e, p, is) = (x.e, x.peer, x.conn == Some(*c));
                let w = self.app.world_mut();
                let mut em = w.entity_mut(e);
                match c {
                    Conn::Connecting => em.insert(Connecting),
                    Conn::Connected => em.insert((RemoteId(p), Connected)),
                    Conn::Disconnecting => em.insert(Disconnecting),
                    Conn::Disconnected => em.insert(Disconnected { reason: disc_reason(*r) }),
                };
                w.flush();
                match c {
                    Conn::Connected => {
                        self.connected(*s);
                        if !is {
                            self.become_host(*s);
                        }
                    }
                    Conn::Disconnected => self.disconnected(*s, disc_reason(*r)),
                    _ => {
                        let x = self.m.get_mut(s).unwrap();
                        x.conn = Some(*c);
                        x.reason = None;
                    }
                }
            }
            Op::Connect(s) => {
                let Some(x) = self.m.get(s) else { return Ok(()) };
                if matches!(x.conn, Some(Conn::Connected | Conn::Disconnecting)) || x.kind == Kind::Server {
                    return Ok(());
                }
                let entity = x.e;
                self.app.world_mut().trigger(Connect { entity });
                self.app.world_mut().flush();
                self.connect(*s);
            }
            Op::Disconnect(s) => {
                let Some(x) = self.m.get(s) else { return Ok(()) };
                let entity = x.e;
                let acts = matches!(x.kind, Kind::Host(_)) && (x.host || x.conn == Some(Conn::Connecting));
                self.app.world_mut().trigger(Disconnect { entity });
                self.app.world_mut().flush();
                if acts {
                    self.m.get_mut(s).unwrap().host = false;
                    self.disconnected(*s, DisconnectedReason::UserRequested(None));
                }
            }
            Op::Start(s) => {
                let Some(x) = self.m.get(s).filter(|x| x.kind == Kind::Server && !topo) else { return Ok(()) };
                let entity = x.e;
                self.app.world_mut().trigger(Start { entity });
                self.app.world_mut().flush();
                self.want_start.push(entity);
            }
            Op::Link(s, l, r) => {
                let Some(x) = self.m.get(s) else { return Ok(()) };
                let e = x.e;
                let w = self.app.world_mut();
                let mut em = w.entity_mut(e);
                match l {
                    Ln::Linking => em.insert(Linking),
                    Ln::Linked => em.insert(Linked),
                    Ln::Unlinked => em.insert(Unlinked { reason: unlink_reason(*r) }),
                };
                w.flush();
                self.link(*s, *l, unlink_reason(*r));
            }
            Op::Unlink(s, r) => {
                let Some(x) = self.m.get(s) else { return Ok(()) };
                let e = x.e;
                self.app.world_mut().trigger(Unlink { entity: e, reason: unlink_reason(*r) });
                self.app.world_mut().flush();
                self.want_unlink.push(e);
                self.link(*s, Ln::Unlinked, unlink_reason(*r));
            }
            Op::Server(s, v) => {
                let Some(x) = self.m.get(s).filter(|x| x.kind == Kind::Server) else { return Ok(()) };
                let e = x.e;
                let w = self.app.world_mut();
                let mut em = w.entity_mut(e);
                match v {
                    Srv::Starting => em.insert(Starting),
                    Srv::Started => em.insert(Started),
                    Srv::Stopping => em.insert(Stopping),
                    Srv::Stopped => em.insert(Stopped),
                };
                w.flush();
                self.server(*s, *v);
            }
            Op::Reparent(s, v) => {
                let Some(x) = self.m.get(s).filter(|x| matches!(x.kind, Kind::ClientOf(_))) else { return Ok(()) };
                let Some(sv) = self.m.get(v).filter(|x| x.kind == Kind::Server) else { return Ok(()) };
                let (e, server) = (x.e, sv.e);
                self.app.world_mut().entity_mut(e).insert(LinkOf { server });
                self.app.world_mut().flush();
                self.m.get_mut(s).unwrap().server = Some(*v);
            }
            Op::Despawn(s) => {
                let Some(x) = self.m.get(s) else { return Ok(()) };
                let e = x.e;
                self.app.world_mut().despawn(e);
                self.app.world_mut().flush();
                self.despawn(*s);
            }
            Op::Update => {
                self.app.update();
                if !topo {
                    let gone: Vec<u8> = self.m.iter().filter(|(_, x)| x.client_of && x.conn == Some(Conn::Disconnecting)).map(|(k, _)| *k).collect();
                    for s in gone {
                        self.m.remove(&s);
                        self.tally("disconnecting peers removed");
                    }
                }
            }
            Op::P2P(s, p) => {
                let Some(x) = self.m.get(s).filter(|x| x.kind == Kind::P2P) else { return Ok(()) };
                let e = x.e;
                let st = [P2P::Inactive, P2P::Candidate, P2P::Joined][*p as usize % 3];
                self.app.world_mut().entity_mut(e).insert(st);
            }
            Op::HostMark(s, on) => {
                let Some(e) = self.m.get(s).map(|x| x.e) else { return Ok(()) };
                let mut em = self.app.world_mut().entity_mut(e);
                if *on {
                    em.insert(HostClient { buffer: vec![] });
                } else {
                    em.remove::<HostClient>();
                }
            }
            Op::ClientMark(s, on) => {
                let Some(e) = self.m.get(s).map(|x| x.e) else { return Ok(()) };
                let mut em = self.app.world_mut().entity_mut(e);
                if *on {
                    em.insert(Client);
                } else {
                    em.remove::<Client>();
                }
            }
            Op::LinkOf(s, v) => {
                let Some(x) = self.m.get(s).filter(|x| x.kind != Kind::Server) else { return Ok(()) };
                let (e, x_server) = (x.e, x.server);
                let to = v.and_then(|v| self.m.get(&v).filter(|x| x.kind == Kind::Server)).map(|x| x.e);
                self.m.get_mut(s).unwrap().server = if to.is_some() || v.is_none() { *v } else { x_server };
                let mut em = self.app.world_mut().entity_mut(e);
                match (v, to) {
                    (None, _) => {
                        em.remove::<LinkOf>();
                    }
                    (_, Some(server)) => {
                        em.insert(LinkOf { server });
                    }
                    _ => {}
                }
            }
        }
        self.app.world_mut().flush();
        if topo {
            // a server takes its links with it; which ones is C29's concern
            let w = self.app.world();
            self.m.retain(|_, x| w.get_entity(x.e).is_ok());
        }
        Ok(())
    }

    fn same_entities(&self) -> Res {
        for x in self.m.values() {
            ensure!(self.app.world().get_entity(x.e).is_ok(), "vanished", "{:?} (spawned at {}) is gone", x.kind, x.stamp);
        }
        let alive: BTreeSet<Entity> = self.m.values().map(|x| x.e).collect();
        for e in self.app.world().iter_entities() {
            if e.contains::<Link>() || e.contains::<Server>() {
                ensure!(alive.contains(&e.id()), "survived", "{} should be gone", e.id());
            }
        }
        Ok(())
    }

    fn check_conn(&mut self, at: usize) -> Res {
        self.same_entities()?;
        let mut q = self.app.world_mut().query::<ClientState>();
        let w = self.app.world();
        for (s, x) in &self.m {
            let r = w.entity(x.e);
            let got: Vec<Conn> = [
                (r.contains::<Connecting>(), Conn::Connecting),
                (r.contains::<Connected>(), Conn::Connected),
                (r.contains::<Disconnecting>(), Conn::Disconnecting),
                (r.contains::<Disconnected>(), Conn::Disconnected),
            ]
            .into_iter()
            .filter(|g| g.0)
            .map(|g| g.1)
            .collect();
            let want: Vec<Conn> = x.conn.into_iter().collect();
            ensure_eq!(got, want, "markers", "op {at}, slot {s} ({:?})", x.kind);
            ensure_eq!(r.get::<Disconnected>().map(|d| d.reason.clone()), x.reason.clone(), "reason", "op {at}, slot {s} ({:?})", x.kind);
            let st = q.get(w, x.e).unwrap();
            let of = [st.is_connecting(), st.is_connected(), st.is_disconnecting(), st.is_disconnected()];
            let c = x.conn.unwrap_or(Conn::Disconnected);
            ensure_eq!(of, [c == Conn::Connecting, c == Conn::Connected, c == Conn::Disconnecting, c == Conn::Disconnected], "client-state", "op {at}, slot {s}");
            ensure_eq!(r.contains::<HostClient>(), x.host, "host-client", "op {at}, slot {s} ({:?})", x.kind);
            if x.kind == Kind::Server {
                let got: Vec<Srv> = [
                    (r.contains::<Starting>(), Srv::Starting),
                    (r.contains::<Started>(), Srv::Started),
                    (r.contains::<Stopping>(), Srv::Stopping),
                    (r.contains::<Stopped>(), Srv::Stopped),
                ]
                .into_iter()
                .filter(|g| g.0)
                .map(|g| g.1)
                .collect();
                let want: Vec<Srv> = x.srv.into_iter().collect();
                ensure_eq!(got, want, "server-markers", "op {at}, slot {s}");
                let host = self.children(*s).iter().any(|c| self.m[c].host);
                ensure_eq!(r.contains::<HostServer>(), host, "host-server", "op {at}, slot {s}");
            }
        }
        let map = &w.resource::<NetworkingMetadata>().peer_map;
        let find = |e: Entity| self.m.values().find(|x| x.e == e);
        for (p, e) in &self.last {
            let up = find(*e).is_some_and(|x| if *p == PeerId::Server { x.srv == Some(Srv::Started) } else { x.conn == Some(Conn::Connected) });
            if up {
                ensure_eq!(map.get(p), Some(e), "peer-map-missing", "op {at}: entity of {p:?}");
            }
        }
        for (p, e) in map {
            let Some(x) = find(*e) else {
                return Err(Fail::new("peer-map-stale", format!("op {at}: {p:?} maps to {e}, which does not exist")));
            };
            if *p == PeerId::Server {
                ensure!(x.srv != Some(Srv::Stopped) && x.srv.is_some(), "peer-map-stale", "op {at}: {p:?} maps to {e}: {:?}", x.srv);
            } else {
                ensure!(x.conn.is_some() && x.conn != Some(Conn::Disconnected), "peer-map-stale", "op {at}: {p:?} maps to {e}: {:?}", x.conn);
                ensure_eq!(x.peer, *p, "peer-map-id", "op {at}: {e}");
            }
        }
        let got = w.resource::<Seen>().link_start.clone();
        ensure_eq!(got, self.want_start, "link-start", "op {at}");
        Ok(())
    }

    fn check_link(&self, at: usize) -> Res {
        self.same_entities()?;
        let w = self.app.world();
        for (s, x) in &self.m {
            let r = w.entity(x.e);
            let got = (r.contains::<Linked>(), r.contains::<Unlinked>());
            ensure_eq!(got, (x.link == Some(Ln::Linked), x.link == Some(Ln::Unlinked)), "markers", "op {at}, slot {s} ({:?})", x.kind);
            if x.link != Some(Ln::Linked) {
                ensure_eq!(r.contains::<Linking>(), x.link == Some(Ln::Linking), "linking", "op {at}, slot {s} ({:?})", x.kind);
            }
            ensure_eq!(r.get::<Unlinked>().map(|u| u.reason.clone()), x.unlinked.clone(), "reason", "op {at}, slot {s} ({:?})", x.kind);
            if let Some(l) = r.get::<Link>() {
                let want = match x.link {
                    None | Some(Ln::Unlinked) => LinkState::Unlinked,
                    Some(Ln::Linking) => LinkState::Linking,
                    Some(Ln::Linked) => LinkState::Linked,
                };
                ensure_eq!(l.state, want, "state", "op {at}, slot {s} ({:?})", x.kind);
            }
            if x.kind == Kind::Server {
                let got: Vec<Entity> = r.get::<Server>().unwrap().collection().clone();
                let set: BTreeSet<Entity> = got.iter().copied().collect();
                let want: BTreeSet<Entity> = self.children(*s).iter().map(|c| self.m[c].e).collect();
                ensure_eq!(got.len(), set.len(), "server-links", "op {at}, slot {s}: repeated");
                ensure_eq!(set, want, "server-links", "op {at}, slot {s}");
            }
        }
        let mut got = w.resource::<Seen>().unlink.clone();
        let mut want = self.want_unlink.clone();
        got.sort();
        want.sort();
        ensure_eq!(got, want, "unlink-events", "op {at}");
        Ok(())
    }
}

/// The topology the documentation describes, from the components that are there.
fn infer(app: &App) -> NetworkTopology {
    use NetworkTopologyError as E;
    let mut clients = vec![]; // conventional: entity, host, server
    let mut convent = vec![];
    let mut servers = vec![];
    let mut malformed = vec![];
    let (mut active, mut joined, mut candidates) = (vec![], vec![], 0);
    for r in app.world().iter_entities() {
        let up = r.contains::<Connected>();
        let host = r.contains::<HostClient>();
        let p2p = r.get::<P2P>();
        if up && host && !r.contains::<Client>() {
            malformed.push(r.id());
        }
        if up && r.contains::<Client>() {
            if p2p.is_none() {
                clients.push((r.id(), host, r.get::<LinkOf>().map(|l| l.server)));
            }
            if p2p.is_none() || host {
                convent.push(r.id());
            }
        }
        if r.contains::<Server>() && r.contains::<Started>() {
            servers.push(r.id());
        }
        match p2p {
            Some(P2P::Candidate) => {
                candidates += 1;
                active.push(r.id());
            }
            Some(P2P::Joined) => {
                active.push(r.id());
                if up {
                    joined.push(r.id());
                }
            }
            _ => {}
        }
    }
    let by = |v: &mut Vec<Entity>| v.sort_by_key(|e| e.index_u32());
    for v in [&mut convent, &mut servers, &mut malformed, &mut active, &mut joined] {
        by(v);
    }
    clients.sort_by_key(|c| c.0.index_u32());
    if let Some(client) = malformed.first() {
        return NetworkTopology::Invalid(E::HostClientWithoutClient { client: *client });
    }
    if let Some(p2p) = active.first() {
        if !convent.is_empty() || !servers.is_empty() {
            return NetworkTopology::Invalid(E::MixedP2PAndConventional {
                p2p: *p2p,
                conventional_client: convent.first().copied(),
                server: servers.first().copied(),
            });
        }
        if candidates > 0 || joined.is_empty() {
            return NetworkTopology::Undefined;
        }
        return NetworkTopology::P2P(joined.into_iter().collect());
    }
    if clients.len() > 1 {
        return NetworkTopology::Invalid(E::MultipleConnectedClients(clients.iter().map(|c| c.0).collect()));
    }
    if servers.len() > 1 {
        return NetworkTopology::Invalid(E::MultipleStartedServers(servers.into_iter().collect()));
    }
    match (clients.first(), servers.first()) {
        (None, None) => NetworkTopology::Undefined,
        (None, Some(s)) => NetworkTopology::Server(*s),
        (Some((c, true, None)), _) => NetworkTopology::Invalid(E::HostClientMissingLinkOf { client: *c }),
        (Some((c, true, Some(l))), s) => {
            if s == Some(l) {
                NetworkTopology::HostClient { server: *l, client: *c }
            } else {
                NetworkTopology::Invalid(E::HostClientServerNotStarted { client: *c, server: *l })
            }
        }
        (Some((c, false, _)), None) => NetworkTopology::Client(*c),
        (Some((c, false, _)), Some(s)) => NetworkTopology::Invalid(E::MixedClientServer { client: *c, server: *s }),
    }
}

fn run(c: &Case, focus: &'static str, obs: &mut Obs) -> Res {
    let mut sim = Sim { app: new_app(focus), m: BTreeMap::new(), now: 0, last: vec![], want_start: vec![], want_unlink: vec![], stats: BTreeMap::new() };
    let mut kinds = BTreeSet::new();
    let mut changes = 0u64;
    for (i, op) in c.ops.iter().enumerate() {
        let before = sim.stats.values().sum::<u64>();
        sim.op(op, focus == "C23")?;
        changes += (sim.stats.values().sum::<u64>() > before) as u64;
        match focus {
            "C22" => sim.check_conn(i)?,
            "C29" => sim.check_link(i)?,
            _ => {
                if matches!(op, Op::Update) || i + 1 == c.ops.len() {
                    if !matches!(op, Op::Update) {
                        sim.app.update();
                    }
                    let want = infer(&sim.app);
                    let md = sim.app.world().resource::<NetworkingMetadata>().mode.clone();
                    ensure_eq!(md, want, "topology", "op {i}");
                    ensure_eq!(md.is_client(), matches!(want, NetworkTopology::Client(_)), "predicate", "client");
                    ensure_eq!(md.is_server(), matches!(want, NetworkTopology::Server(_) | NetworkTopology::HostClient { .. }), "predicate", "server");
                    ensure_eq!(md.is_headless_server(), matches!(want, NetworkTopology::Server(_)), "predicate", "headless");
                    ensure_eq!(md.is_host_server(), matches!(want, NetworkTopology::HostClient { .. }), "predicate", "host");
                    ensure_eq!(md.is_p2p(), matches!(want, NetworkTopology::P2P(_)), "predicate", "p2p");
                    let name = match &want {
                        NetworkTopology::Undefined => "undefined",
                        NetworkTopology::Client(_) => "client",
                        NetworkTopology::Server(_) => "server",
                        NetworkTopology::HostClient { .. } => "host client",
                        NetworkTopology::P2P(_) => "p2p",
                        NetworkTopology::Invalid(e) => match e {
                            NetworkTopologyError::MixedP2PAndConventional { .. } => "p2p and conventional",
                            NetworkTopologyError::MultipleConnectedClients(_) => "clients",
                            NetworkTopologyError::MultipleStartedServers(_) => "servers",
                            NetworkTopologyError::HostClientWithoutClient { .. } => "host without client",
                            NetworkTopologyError::HostClientMissingLinkOf { .. } => "host without link",
                            NetworkTopologyError::HostClientServerNotStarted { .. } => "host without server",
                            NetworkTopologyError::MixedClientServer { .. } => "client and server",
                        },
                    };
                    obs.label(name);
                    kinds.insert(name);
                }
            }
        }
    }
    if focus == "C23" {
        obs.nontrivial_if(kinds.len() > 1);
    } else {
        obs.nontrivial_if(changes > 2);
        for (k, n) in &sim.stats {
            obs.count(k, *n);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------ C28 conditioner

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DelayCase {
    latency_us: u32,
    jitter_us: u32,
    half: bool,
    loss: u8,
    /// through a server's conditioner, with this many packets queued before the link joined
    server: Option<u8>,
    /// milliseconds between frames, packets pushed in the frame, packets bypassing, read by popping
    frames: Vec<(u8, u8, u8, bool)>,
}

fn delay_case() -> BoxedStrategy<DelayCase> {
    let us = || prop_oneof![2 => Just(0u32), 1 => 1u32..1500, 4 => (0u32..120).prop_map(|m| m * 1000), 2 => 0u32..200_000];
    (
        us(),
        us(),
        any::<bool>(),
        prop_oneof![4 => Just(0u8), 1 => Just(1), 1 => 2u8..4],
        prop_oneof![2 => Just(None), 1 => (0u8..5).prop_map(Some)],
        vec((0u8..60, 0u8..5, prop_oneof![4 => Just(0u8), 1 => 0u8..3], any::<bool>()), 1..40),
    )
        .prop_map(|(latency_us, jitter_us, half, loss, server, frames)| DelayCase { latency_us, jitter_us, half, loss, server, frames })
        .boxed()
}

fn run_delay(c: &DelayCase, obs: &mut Obs) -> Res {
    let t0 = Duration::from_secs(1000);
    clock_set(t0);
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.add_plugins((LinkPlugin, ServerLinkPlugin));
    app.finish();
    let mut cfg = LinkConditionerConfig::default()
        .with_incoming_latency(Duration::from_micros(c.latency_us as u64))
        .with_incoming_jitter(Duration::from_micros(c.jitter_us as u64));
    cfg = match c.loss {
        0 => cfg.with_fixed_loss(0.0),
        1 => cfg.with_fixed_loss(1.0),
        2 => cfg.with_simple_gilbert_loss(0.3, 4.0),
        _ => cfg.with_gilbert_elliott_loss(0.3, 4.0, 0.7, 0.1),
    };
    let whole = cfg.clone();
    if c.half {
        cfg = cfg.half();
        ensure!((cfg.mean_loss() - whole.mean_loss() / 2.0).abs() < 1e-5, "half", "{} of {}", cfg.mean_loss(), whole.mean_loss());
        ensure_eq!((cfg.good_to_bad, cfg.bad_to_good), (whole.good_to_bad, whole.bad_to_good), "half", "transitions");
        ensure!(cfg.incoming_latency == whole.incoming_latency / 2 && cfg.incoming_jitter == whole.incoming_jitter / 2, "half", "{cfg:?}");
    }
    let div = 1 + c.half as u64;
    let lat = Duration::from_micros(c.latency_us as u64 / div);
    let jit = Duration::from_micros(c.jitter_us as u64 / div);
    let lossless = c.loss == 0;
    let lossy = c.loss == 1 && !c.half;
    let ms = Duration::from_millis(1);
    let mut next = 0u32;
    // number -> pushed at (None: bypassed)
    let mut under_way: BTreeMap<u32, Option<Duration>> = BTreeMap::new();
    let mut now = t0;
    let packet = |n: u32| BytesMut::from([n.to_be_bytes().as_slice(), &vec![n as u8; n as usize % 40]].concat().as_slice());
    let entity;
    match c.server {
        None => entity = app.world_mut().spawn((Link::default().with_conditioner(RecvLinkConditioner::new(cfg)), Linked)).id(),
        Some(k) => {
            let server = app.world_mut().spawn(Server::new(Some(RecvLinkConditioner::new(cfg)))).id();
            let mut link = Link::default();
            for _ in 0..k {
                link.recv.push(packet(next), Instant::now());
                under_way.insert(next, Some(now));
                next += 1;
            }
            entity = app.world_mut().spawn((LinkOf { server }, link, Linked)).id();
            app.world_mut().flush();
        }
    }
    let mut last_time = Duration::ZERO;
    let mut delivered = 0u64;
    let mut frames = c.frames.clone();
    // a quiet phase in which everything arrives
    frames.extend([(200, 0, 0, true), (250, 0, 0, false), (250, 0, 0, true)]);
    for (dt, n, raw, pop) in frames {
        let d = Duration::from_millis(dt as u64);
        clock_advance(d);
        now += d;
        let mut link = app.world_mut().get_mut::<Link>(entity).unwrap();
        for _ in 0..raw {
            link.recv.push_raw(packet(next));
            under_way.insert(next, None);
            next += 1;
        }
        for _ in 0..n {
            link.recv.push(packet(next), Instant::now());
            under_way.insert(next, Some(now));
            next += 1;
        }
        app.update();
        let mut link = app.world_mut().get_mut::<Link>(entity).unwrap();
        let len = link.recv.len();
        let got: Vec<BytesMut> = if pop { std::iter::from_fn(|| link.recv.pop()).collect() } else { link.recv.drain().collect() };
        ensure_eq!(got.len(), len, "len", "available packets");
        ensure_eq!(link.recv.len(), 0, "len", "after reading");
        for p in got {
            ensure!(p.len() >= 4, "content", "{p:?}");
            let n = u32::from_be_bytes(p[..4].try_into().unwrap());
            ensure_eq!(p, packet(n), "content", "packet {n}");
            let Some(at) = under_way.remove(&n) else {
                return Err(Fail::new("twice", format!("packet {n} delivered again")));
            };
            delivered += 1;
            let Some(at) = at else { continue };
            ensure!(!lossy, "loss", "packet {n} delivered although all are lost");
            ensure!(now + ms >= at + lat.saturating_sub(jit), "early", "packet {n} pushed at {at:?} with latency {lat:?} and jitter {jit:?} delivered at {now:?}");
            if jit < ms {
                ensure!(at >= last_time, "order", "packet {n} pushed at {at:?} delivered after one pushed at {last_time:?}");
                last_time = at;
            }
        }
        for (n, at) in &under_way {
            match at {
                None => return Err(Fail::new("bypass", format!("packet {n} pushed past the conditioner not available"))),
                Some(at) => ensure!(!lossless || now < *at + lat + jit + ms, "late", "packet {n} pushed at {at:?} with latency {lat:?} and jitter {jit:?} not delivered at {now:?}"),
            }
        }
    }
    ensure!(!lossless || under_way.is_empty(), "lost", "{under_way:?}");
    obs.count("packets", next as u64);
    obs.count("delivered", delivered);
    obs.label_if(c.server.is_some(), "server's conditioner");
    obs.nontrivial_if(next > 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LossCase {
    /// thousandths
    mean: u16,
    floor: u16,
    bad: u16,
    len: u8,
    form: u8,
}

fn run_loss(c: &LossCase, obs: &mut Obs) -> Res {
    let form = c.form % 4;
    let k = |v: u16| v as f32 / 1000.0;
    let (floor, bad) = match form {
        0 => (0.0, 1.0),
        1 => (0.0, 1.0),
        2 => (0.0, k(c.bad)),
        _ => (k(c.floor), k(c.bad)),
    };
    let mean = k(c.mean).clamp(floor, (bad - 0.001).max(floor));
    if form > 0 && mean >= bad {
        return Ok(());
    }
    let len = 1.0 + c.len as f32 / 10.0;
    // bursts of that length leave room for that much loss only
    let share = (mean - floor) / (bad - floor);
    if form > 0 && share / (1.0 - share) / len > 1.0 {
        return Ok(());
    }
    let cfg = LinkConditionerConfig::default();
    let cfg = match form {
        0 => cfg.with_fixed_loss(mean),
        1 => cfg.with_simple_gilbert_loss(mean, len),
        2 => cfg.with_gilbert_loss(mean, len, bad),
        _ => cfg.with_gilbert_elliott_loss(mean, len, bad, floor),
    };
    ensure!((cfg.mean_loss() - mean).abs() < 2e-3, "mean-loss", "announced {} wanted {mean}: {cfg:?}", cfg.mean_loss());
    let mut link = Link::default().with_conditioner(RecvLinkConditioner::new(cfg.clone()));
    let n = 30_000u32;
    let now = Instant::now();
    for i in 0..n {
        link.recv.push(BytesMut::from(i.to_be_bytes().as_slice()), now);
    }
    let mut app = App::new();
    app.add_plugins(LinkPlugin);
    let e = app.world_mut().spawn(link).id();
    app.world_mut().run_schedule(PreUpdate);
    let mut got: Vec<u32> = app.world_mut().get_mut::<Link>(e).unwrap().recv.drain().map(|p| u32::from_be_bytes(p[..].try_into().unwrap())).collect();
    got.sort();
    let lost = (n as usize - got.len()) as f64 / n as f64;
    let rho = if form == 0 { 0.0 } else { (1.0 - cfg.good_to_bad - cfg.bad_to_good) as f64 };
    let sigma = (0.25 / n as f64 * ((1.0 + rho) / (1.0 - rho)).max(1.0)).sqrt();
    ensure!((lost - mean as f64).abs() < 9.0 * sigma + 0.002, "loss-rate", "lost {lost} of {n} packets, wanted {mean}: {cfg:?}");
    if form == 1 {
        // lengths of the runs of lost packets
        let mut runs = vec![];
        let mut prev = -1i64;
        for g in &got {
            if *g as i64 - prev > 1 {
                runs.push((*g as i64 - prev - 1) as f64);
            }
            prev = *g as i64;
        }
        if runs.len() > 300 {
            let m = runs.iter().sum::<f64>() / runs.len() as f64;
            let tol = 9.0 * len as f64 / (runs.len() as f64).sqrt();
            ensure!((m - len as f64).abs() < tol, "burst-length", "{m} over {} bursts, wanted {len}", runs.len());
            obs.label("bursts measured");
        }
    }
    obs.nontrivial_if(mean > 0.0);
    Ok(())
}

fn loss_case() -> BoxedStrategy<LossCase> {
    (0u16..1000, 0u16..300, 300u16..1001, 0u8..120, 0u8..4).prop_map(|(mean, floor, bad, len, form)| LossCase { mean, floor, bad, len, form }).boxed()
}

// ------------------------------------------------------------------------------ C29 queues

#[derive(Clone, Debug, Serialize, Deserialize)]
enum QOp {
    Send(u8),
    PushFront(u8),
    PopSend,
    DrainSend,
    Recv(u8),
    PopRecv,
    DrainRecv,
    Mtu(u16),
    Frame,
}

fn run_queue(c: &(u16, Vec<QOp>), obs: &mut Obs) -> Res {
    let min = c.0 as usize;
    let mut app = App::new();
    app.add_plugins((LinkPlugin, ServerLinkPlugin));
    app.edit_schedule(PostUpdate, |_| {});
    app.configure_sets(PostUpdate, LinkSystems::Send);
    let e = app.world_mut().spawn((Link::default().with_mtu(LinkMtu::new(min)), Linked)).id();
    let mut send = std::collections::VecDeque::new();
    let mut recv = std::collections::VecDeque::new();
    let mut mtu = min;
    let bytes = |n: u8, i: usize| [vec![n; n as usize % 9], i.to_be_bytes().to_vec()].concat();
    for (i, op) in c.1.iter().enumerate() {
        if matches!(op, QOp::Frame) {
            app.update();
        }
        let mut l = app.world_mut().get_mut::<Link>(e).unwrap();
        match op {
            QOp::Send(n) => {
                l.send(bytes(*n, i).into());
                send.push_back(bytes(*n, i));
            }
            QOp::PushFront(n) => {
                l.send.push_front(bytes(*n, i).into());
                send.push_front(bytes(*n, i));
            }
            QOp::PopSend => ensure_eq!(l.send.pop().map(|b| b.to_vec()), send.pop_front(), "send-queue", "op {i}"),
            QOp::DrainSend => {
                ensure_eq!(l.send.drain().map(|b| b.to_vec()).collect::<Vec<_>>(), send.drain(..).collect::<Vec<_>>(), "send-queue", "op {i}")
            }
            QOp::Recv(n) => {
                l.recv.push(BytesMut::from(&bytes(*n, i)[..]), Instant::now());
                recv.push_back(bytes(*n, i));
            }
            QOp::PopRecv => ensure_eq!(l.recv.pop().map(|b| b.to_vec()), recv.pop_front(), "recv-queue", "op {i}"),
            QOp::DrainRecv => {
                ensure_eq!(l.recv.drain().map(|b| b.to_vec()).collect::<Vec<_>>(), recv.drain(..).collect::<Vec<_>>(), "recv-queue", "op {i}")
            }
            QOp::Mtu(m) => {
                let ok = l.set_mtu(*m as usize).is_ok();
                ensure_eq!(ok, *m as usize >= min, "mtu", "op {i}: {m} with minimum {min}");
                if ok {
                    mtu = *m as usize;
                }
            }
            QOp::Frame => {}
        }
        ensure_eq!((l.send.len(), l.recv.len(), l.mtu(), l.min_mtu()), (send.len(), recv.len(), mtu, min), "lengths", "op {i}");
    }
    obs.nontrivial_if(c.1.len() > 4);
    Ok(())
}

fn queue_case() -> BoxedStrategy<(u16, Vec<QOp>)> {
    let op = prop_oneof![
        4 => any::<u8>().prop_map(QOp::Send),
        1 => any::<u8>().prop_map(QOp::PushFront),
        2 => Just(QOp::PopSend),
        1 => Just(QOp::DrainSend),
        4 => any::<u8>().prop_map(QOp::Recv),
        2 => Just(QOp::PopRecv),
        1 => Just(QOp::DrainRecv),
        2 => (0u16..3000).prop_map(QOp::Mtu),
        2 => Just(QOp::Frame),
    ];
    (prop_oneof![Just(1200u16), 1u16..2000], vec(op, 0..60)).boxed()
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C22", "lifecycle", 48_000, 600_000, || case(0), |c: &Case, o| run(c, "C22", o)),
        sub("C23", "topology", 40_000, 600_000, || case(1), |c: &Case, o| run(c, "C23", o)),
        sub("C28", "delay", 24_000, 300_000, delay_case, run_delay),
        sub("C28", "loss", 1_200, 10_000, loss_case, run_loss),
        sub("C29", "links", 40_000, 600_000, || case(2), |c: &Case, o| run(c, "C29", o)),
        sub("C29", "queues", 12_000, 200_000, queue_case, run_queue),
    ]
}
