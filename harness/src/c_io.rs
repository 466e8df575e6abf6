//! C33: the IO backends carry exactly the queued payloads between exactly the right links:
//! crossbeam channels, UDP sockets on the loopback interface, and the bridge to Aeronet sessions.

use crate::fw::{Obs, Res as Verdict, Sub, sub};
use crate::{ensure, ensure_eq};
use aeronet_io::{AeronetIoPlugin, IoSystems, Session, SessionEndpoint};
use aeronet_io::connection::{DisconnectReason, Disconnected, LocalAddr, PeerAddr};
use aeronet_io::packet::RecvPacket;
use aeronet_io::server::{CloseReason, Closed, Server as AeronetServer, ServerEndpoint};
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bytes::{Bytes, BytesMut};
use lightyear_aeronet::server::ServerAeronetPlugin;
use lightyear_aeronet::{AeronetLink, AeronetLinkOf, AeronetPlugin};
use lightyear_crossbeam::{CrossbeamIo, CrossbeamPlugin};
use lightyear_link::prelude::*;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_link::{LinkState, Unlink, UnlinkReason, Unlinked};
use lightyear_udp::server::{ServerUdpIo, ServerUdpPlugin};
use lightyear_udp::{UdpIo, UdpPlugin};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::net::{Ipv4Addr, SocketAddr, UdpSocket};
use std::time::Duration;


fn app() -> App {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app
}

/// A payload that no other number and length gives.
fn payload(n: u32, len: u16) -> Vec<u8> {
    let mut v = Vec::with_capacity(len as usize + 4);
    v.extend_from_slice(&n.to_be_bytes());
    let mut x = n.wrapping_mul(2654435761) | 1;
    while v.len() < len as usize {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        v.push(x as u8);
    }
    v.truncate(len as usize);
    v
}

fn len() -> BoxedStrategy<u16> {
    prop_oneof![4 => 4u16..64, 3 => 4u16..1473, 1 => Just(1472u16), 1 => Just(1200u16), 1 => 0u16..4].boxed()
}

fn short(v: &[u8]) -> String {
    format!("{} bytes {:02x?}", v.len(), &v[..v.len().min(8)])
}

fn shorts(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|p| short(p)).collect()
}

fn state(app: &App, e: Entity) -> (LinkState, bool, bool, bool) {
    let r = app.world().entity(e);
    (r.get::<Link>().map_or(LinkState::Unlinked, |l| l.state), r.contains::<Linked>(), r.contains::<Linking>(), r.contains::<Unlinked>())
}

fn fire<'a, E: Event<Trigger<'a>: Default>>(app: &mut App, e: E) {
    app.world_mut().trigger(e);
    app.world_mut().flush();
}

fn is_linked(app: &App, e: Entity) -> bool {
    state(app, e).1
}

// ------------------------------------------------------------------------------ crossbeam

#[derive(Clone, Debug, Serialize, Deserialize)]
enum XOp {
    Send { pair: u8, side: u8, len: Vec<u16> },
    Frame(u8),
    Read { pair: u8, side: u8 },
    Unlink { pair: u8, side: u8 },
    Start { pair: u8, side: u8 },
    /// the io component is dropped with its entity
    Despawn { pair: u8, side: u8 },
    /// the sending half of a bounded channel: (capacity), drained by the harness
    Block(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct XCase {
    pairs: u8,
    /// both sides in one app
    same_app: bool,
    /// the channels of pair 0 hold only this many payloads
    bound: Option<u8>,
    ops: Vec<XOp>,
}

#[derive(Default, Clone)]
struct XSide {
    e: Option<Entity>,
    linked: bool,
    /// queued in Link::send
    send: VecDeque<Vec<u8>>,
    /// in the channel towards this side
    wire: VecDeque<Vec<u8>>,
    recv: VecDeque<Vec<u8>>,
}

fn run_crossbeam(c: &XCase, obs: &mut Obs) -> Verdict {
    let mut apps: Vec<App> = (0..if c.same_app { 1 } else { 2 })
        .map(|_| {
            let mut a = app();
            a.add_plugins(CrossbeamPlugin);
            a
        })
        .collect();
    let home = |side: usize| if c.same_app { 0 } else { side };
    let n = c.pairs as usize;
    let mut m: Vec<[XSide; 2]> = vec![];
    for p in 0..n {
        let (a, b) = match c.bound {
            Some(k) if p == 0 => {
                let (s1, r1) = crossbeam_channel::bounded(k.max(1) as usize);
                let (s2, r2) = crossbeam_channel::bounded(k.max(1) as usize);
                (CrossbeamIo::new(s1, r2), CrossbeamIo::new(s2, r1))
            }
            _ => CrossbeamIo::new_pair(),
        };
        let ea = apps[home(0)].world_mut().spawn(a).id();
        let eb = apps[home(1)].world_mut().spawn(b).id();
        m.push([XSide { e: Some(ea), ..Default::default() }, XSide { e: Some(eb), ..Default::default() }]);
    }
    let cap = |p: usize| match c.bound {
        Some(k) if p == 0 => k.max(1) as usize,
        _ => usize::MAX,
    };
    let mut serial = 0u32;
    let (mut delivered, mut broken) = (0u64, false);
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            XOp::Send { pair, side, len } => {
                let (p, s) = (*pair as usize % n, *side as usize % 2);
                let Some(e) = m[p][s].e else { continue };
                let mut l = apps[home(s)].world_mut().get_mut::<Link>(e).unwrap();
                for k in len {
                    serial += 1;
                    let d = payload(serial, *k);
                    l.send(d.clone().into());
                    m[p][s].send.push_back(d);
                }
            }
            XOp::Read { pair, side } => {
                let (p, s) = (*pair as usize % n, *side as usize % 2);
                let Some(e) = m[p][s].e else { continue };
                let got: Vec<Vec<u8>> = apps[home(s)].world_mut().get_mut::<Link>(e).unwrap().recv.drain().map(|b| b.to_vec()).collect();
                let want: Vec<Vec<u8>> = m[p][s].recv.drain(..).collect();
                delivered += got.len() as u64;
                ensure!(got == want, "crossbeam-payloads", "op {i}: pair {p} side {s} received {:?}, sent were {:?}", shorts(&got), shorts(&want));
            }
            XOp::Unlink { pair, side } => {
                let (p, s) = (*pair as usize % n, *side as usize % 2);
                let Some(e) = m[p][s].e else { continue };
                fire(&mut apps[home(s)], Unlink { entity: e, reason: UnlinkReason::UserRequested(None) });
                m[p][s].linked = false;
            }
            XOp::Start { pair, side } => {
                let (p, s) = (*pair as usize % n, *side as usize % 2);
                let Some(e) = m[p][s].e else { continue };
                fire(&mut apps[home(s)], LinkStart { entity: e });
                m[p][s].linked = true;
            }
            XOp::Despawn { pair, side } => {
                let (p, s) = (*pair as usize % n, *side as usize % 2);
                let Some(e) = m[p][s].e.take() else { continue };
                apps[home(s)].world_mut().despawn(e);
                m[p][s] = XSide::default();
                broken = true;
            }
            XOp::Block(_) => {}
            XOp::Frame(a) => {
                let a = *a as usize % apps.len();
                apps[a].update();
                // receive of every side of this app, then send
                let sides: Vec<usize> = if c.same_app { vec![0, 1] } else { vec![a] };
                for p in 0..n {
                    for &s in &sides {
                        if m[p][s].e.is_none() || !m[p][s].linked {
                            continue;
                        }
                        while let Some(d) = m[p][s].wire.pop_front() {
                            m[p][s].recv.push_back(d);
                        }
                        if m[p][1 - s].e.is_none() {
                            m[p][s].linked = false;
                        }
                    }
                    for &s in &sides {
                        if m[p][s].e.is_none() || !m[p][s].linked {
                            continue;
                        }
                        if m[p][1 - s].e.is_none() {
                            m[p][s].linked = false;
                            continue;
                        }
                        while m[p][1 - s].wire.len() < cap(p) {
                            let Some(d) = m[p][s].send.pop_front() else { break };
                            m[p][1 - s].wire.push_back(d);
                        }
                    }
                }
            }
        }
        for p in 0..n {
            for s in 0..2 {
                let Some(e) = m[p][s].e else { continue };
                let st = state(&apps[home(s)], e);
                let l = m[p][s].linked;
                ensure_eq!((st.1, st.0 == LinkState::Linked), (l, l), "crossbeam-state", "op {i} {op:?}: pair {p} side {s} is in {st:?}");
                let q = apps[home(s)].world().get::<Link>(e).unwrap();
                ensure_eq!(q.recv.len(), m[p][s].recv.len(), "crossbeam-payloads", "op {i} {op:?}: pair {p} side {s}: payloads waiting to be read");
                // what was queued for a peer that is gone may be dropped
                ensure!(
                    q.send.len() == m[p][s].send.len() || m[p][1 - s].e.is_none(),
                    "crossbeam-send-queue",
                    "op {i} {op:?}: pair {p} side {s} has {} payloads queued, want {}",
                    q.send.len(),
                    m[p][s].send.len()
                );
            }
        }
    }
    obs.label_if(broken, "side dropped");
    obs.label_if(c.bound.is_some(), "bounded channel");
    obs.count("payloads", delivered);
    obs.nontrivial_if(delivered > 0);
    Ok(())
}

fn crossbeam_case() -> BoxedStrategy<XCase> {
    let ps = || (0u8..3, 0u8..2);
    let op = prop_oneof![
        6 => (ps(), vec(len(), 1..5)).prop_map(|((pair, side), len)| XOp::Send { pair, side, len }),
        8 => (0u8..2).prop_map(XOp::Frame),
        5 => ps().prop_map(|(pair, side)| XOp::Read { pair, side }),
        1 => ps().prop_map(|(pair, side)| XOp::Unlink { pair, side }),
        3 => ps().prop_map(|(pair, side)| XOp::Start { pair, side }),
        1 => ps().prop_map(|(pair, side)| XOp::Despawn { pair, side }),
    ];
    (1u8..4, any::<bool>(), prop_oneof![4 => Just(None), 1 => (1u8..4).prop_map(Some)], vec(op, 4..60))
        .prop_map(|(pairs, same_app, bound, mut ops)| {
            let mut pre = vec![];
            for pair in 0..pairs {
                for side in 0..2 {
                    pre.push(XOp::Start { pair, side });
                }
            }
            pre.append(&mut ops);
            XCase { pairs, same_app, bound, ops: pre }
        })
        .boxed()
}

// ------------------------------------------------------------------------------ UDP

/// Reads what has arrived at a harness socket.
fn recv_all(s: &UdpSocket, want: usize) -> Vec<(Vec<u8>, SocketAddr)> {
    let mut out = vec![];
    let mut buf = [0u8; 4096];
    let mut idle = 0;
    loop {
        match s.recv_from(&mut buf) {
            Ok((n, a)) => {
                idle = 0;
                out.push((buf[..n].to_vec(), a))
            }
            Err(_) if out.len() >= want || idle > 100 => return out,
            Err(_) => {
                idle += 1;
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
}

/// A loopback address of this process alone, so that nobody else takes a port it gave up: 1 for the
/// endpoints under test, 2 for the remotes.
fn local(k: u8) -> SocketAddr {
    let pid = std::process::id();
    let a = SocketAddr::from(([127, 1 + (pid >> 8) as u8 % 250, pid as u8, k], 0));
    if UdpSocket::bind(a).is_ok() { a } else { SocketAddr::from((Ipv4Addr::LOCALHOST, 0)) }
}

fn socket() -> UdpSocket {
    let s = UdpSocket::bind(local(2)).unwrap();
    s.set_nonblocking(true).unwrap();
    s
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum UOp {
    /// datagrams from a remote address to the endpoint
    In { from: u8, len: Vec<u16> },
    /// larger than any datagram lightyear sends
    Oversized { from: u8, len: u16 },
    Frame,
    /// payloads queued on the link of that address
    Out { to: u8, len: Vec<u16> },
    /// the consumer takes what is in the link's queue
    Read(u8),
    /// keeps what it takes instead of dropping it
    Hold(u8),
    DropHeld,
    DespawnLink(u8),
    NewAddress(u8),
    Stop,
    Start,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UCase {
    ops: Vec<UOp>,
}

struct Remote {
    socket: UdpSocket,
    addr: SocketAddr,
    entity: Option<Entity>,
    /// an earlier link entity of this address was despawned, which the next datagram may find out
    stale: bool,
    /// sent to the endpoint and not received yet
    inbound: Vec<Vec<u8>>,
    /// expected in the link's receive queue
    recv: Vec<Vec<u8>>,
    /// queued on the link
    outbound: Vec<Vec<u8>>,
}

impl Remote {
    fn new() -> Self {
        let socket = socket();
        let addr = socket.local_addr().unwrap();
        Self { socket, addr, entity: None, stale: false, inbound: vec![], recv: vec![], outbound: vec![] }
    }
}

/// Datagrams may be reordered by the kernel in theory, so an order mismatch must repeat.
fn thrice(f: impl Fn(&mut Obs) -> Verdict, obs: &mut Obs) -> Verdict {
    let mut last = Ok(());
    for _ in 0..3 {
        let mut o = Obs::default();
        last = f(&mut o);
        if last.is_ok() {
            *obs = o;
            return Ok(());
        }
    }
    last
}

fn server_links(app: &mut App, server: Entity) -> Vec<(Entity, SocketAddr)> {
    app.world_mut().query::<(Entity, &LinkOf, &PeerAddr)>().iter(app.world()).filter(|(_, l, _)| l.server == server).map(|(e, _, a)| (e, a.0)).collect()
}

fn run_udp_server(c: &UCase, obs: &mut Obs) -> Verdict {
    let mut app = app();
    app.add_plugins((ServerUdpPlugin, ServerLinkPlugin));
    let any = local(1);
    let server = app.world_mut().spawn((ServerUdpIo::default(), LocalAddr(any))).id();
    fire(&mut app, LinkStart { entity: server });
    let mut addr = app.world().get::<LocalAddr>(server).unwrap().0;
    ensure!(addr.port() != 0 && is_linked(&app, server), "udp-start", "LocalAddr {addr}");
    let mut up = true;
    let mut rs: Vec<Remote> = (0..3).map(|_| Remote::new()).collect();
    let mut held: Vec<(BytesMut, Vec<u8>)> = vec![];
    let mut serial = 0u32;
    let (mut total, mut restarts, mut relinked) = (0u64, 0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            UOp::In { from, len } if up => {
                let r = &mut rs[*from as usize % 3];
                for k in len {
                    serial += 1;
                    let d = payload(serial, *k);
                    r.socket.send_to(&d, addr).unwrap();
                    r.inbound.push(d);
                }
            }
            UOp::Oversized { .. } => {}
            UOp::Out { to, len } if up => {
                let r = &mut rs[*to as usize % 3];
                if let Some(e) = r.entity {
                    let mut l = app.world_mut().get_mut::<Link>(e).unwrap();
                    for k in len {
                        serial += 1;
                        let d = payload(serial, *k);
                        l.send(d.clone().into());
                        r.outbound.push(d);
                    }
                }
            }
            UOp::Read(k) | UOp::Hold(k) => {
                let r = &mut rs[*k as usize % 3];
                let Some(e) = r.entity else { continue };
                let got: Vec<_> = app.world_mut().get_mut::<Link>(e).unwrap().recv.drain().collect();
                let want = std::mem::take(&mut r.recv);
                ensure!(
                    got.iter().map(|g| &g[..]).eq(want.iter().map(|w| &w[..])),
                    "udp-payloads",
                    "op {i}: address {k} delivered {:?}, sent were {:?}",
                    got.iter().map(|g| short(g)).collect::<Vec<_>>(),
                    shorts(&want)
                );
                total += got.len() as u64;
                if matches!(op, UOp::Hold(_)) {
                    held.extend(got.into_iter().zip(want));
                }
            }
            UOp::DropHeld => held.clear(),
            UOp::DespawnLink(k) => {
                let r = &mut rs[*k as usize % 3];
                if let Some(e) = r.entity.take() {
                    app.world_mut().despawn(e);
                    r.recv.clear();
                    r.outbound.clear();
                    r.stale = true;
                }
            }
            UOp::NewAddress(k) => {
                let k = *k as usize % 3;
                if let Some(e) = rs[k].entity {
                    app.world_mut().despawn(e);
                }
                if rs[k].inbound.is_empty() {
                    rs[k] = Remote::new();
                } else {
                    rs[k].entity = None;
                    rs[k].recv.clear();
                    rs[k].outbound.clear();
                    rs[k].stale = true;
                }
            }
            UOp::Stop if up => {
                fire(&mut app, Unlink { entity: server, reason: UnlinkReason::ServerStopped });
                up = false;
                ensure!(!is_linked(&app, server), "udp-stop", "op {i}: still linked");
                ensure!(UdpSocket::bind(addr).is_ok(), "udp-stop", "op {i}: the address is still bound");
                let left = server_links(&mut app, server);
                ensure!(left.is_empty(), "udp-stop", "op {i}: links {left:?} survive their server");
                for r in &mut rs {
                    r.stale |= r.entity.take().is_some();
                    (r.inbound, r.recv, r.outbound) = (vec![], vec![], vec![]);
                }
            }
            UOp::Start if !up => {
                fire(&mut app, LinkStart { entity: server });
                up = true;
                restarts += 1;
                ensure!(is_linked(&app, server), "udp-start", "op {i}");
                let now = app.world().get::<LocalAddr>(server).unwrap().0;
                ensure_eq!(now, addr, "udp-start", "op {i}: restarted at another address");
                addr = now;
            }
            UOp::Frame => {
                let want_out: usize = rs.iter().map(|r| r.outbound.len()).sum();
                let mut tries = 0;
                let mut before: Vec<Option<Entity>> = rs.iter().map(|r| r.entity).collect();
                let stale: Vec<bool> = rs.iter().map(|r| r.stale).collect();
                loop {
                    app.update();
                    let links = server_links(&mut app, server);
                    let mut waiting = false;
                    for (k, r) in rs.iter_mut().enumerate() {
                        let mine: Vec<Entity> = links.iter().filter(|l| l.1 == r.addr).map(|l| l.0).collect();
                        ensure!(mine.len() <= 1, "udp-links", "op {i}: links {mine:?} have the address of remote {k}");
                        ensure!(r.entity.is_none() || r.entity == mine.first().copied(), "udp-links", "op {i}: the link of remote {k} changed");
                        r.entity = mine.first().copied();
                        if !up {
                            continue;
                        }
                        if let Some(e) = r.entity {
                            ensure!(is_linked(&app, e), "udp-links", "op {i}: the link of remote {k} is {:?}", state(&app, e));
                            let have = app.world().get::<Link>(e).unwrap().recv.len();
                            waiting |= have < r.recv.len() + r.inbound.len();
                        } else {
                            waiting |= !r.inbound.is_empty();
                        }
                    }
                    ensure!(
                        links.iter().all(|l| rs.iter().any(|r| r.addr == l.1)),
                        "udp-links",
                        "op {i}: links {links:?} for addresses that sent nothing"
                    );
                    // the first datagrams of an address may be dropped, so this does not wait long
                    // for them; those of a known one must arrive
                    tries += 1;
                    let known = |k: usize| before[k].is_some();
                    let owed = rs.iter().enumerate().any(|(k, r)| {
                        known(k) && r.entity.is_some_and(|e| app.world().get::<Link>(e).unwrap().recv.len() < r.recv.len() + r.inbound.len())
                    });
                    if !waiting || (!owed && tries > 3) || tries > 200 {
                        break;
                    }
                    if tries > 2 {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                }
                if !up {
                    continue;
                }
                for (k, r) in rs.iter_mut().enumerate() {
                    let sent = std::mem::take(&mut r.inbound);
                    let Some(e) = r.entity else {
                        ensure!(
                            sent.is_empty() || (stale[k] && sent.len() == 1),
                            "udp-new-link",
                            "op {i}: remote {k} sent {} datagrams and has no link",
                            sent.len()
                        );
                        r.stale &= sent.is_empty();
                        continue;
                    };
                    let got: Vec<Vec<u8>> = app.world_mut().get_mut::<Link>(e).unwrap().recv.iter().map(|b| b.to_vec()).skip(r.recv.len()).collect();
                    if before[k].take().is_some() {
                        ensure!(
                            got == sent,
                            "udp-payloads",
                            "op {i}: remote {k} sent {:?} to its link, which got {:?}",
                            shorts(&sent),
                            shorts(&got)
                        );
                    } else {
                        relinked += stale[k] as u64;
                        // one datagram may find out that the old link is gone, the next one makes a
                        // new link, and those that come in that same frame may be dropped
                        let mut it = sent.iter();
                        ensure!(
                            !got.is_empty() && got.iter().all(|g| it.any(|s| s == g)) && (got[0] == sent[0] || (stale[k] && got[0] == sent[1])),
                            "udp-new-link",
                            "op {i}: remote {k} sent {:?} and its new link got {:?}",
                            shorts(&sent),
                            shorts(&got)
                        );
                        r.stale = false;
                    }
                    r.recv.extend(got);
                }
                let _ = want_out;
                for (k, r) in rs.iter_mut().enumerate() {
                    let want = std::mem::take(&mut r.outbound);
                    let got = recv_all(&r.socket, want.len());
                    ensure!(got.iter().all(|g| g.1 == addr), "udp-sender", "op {i}: remote {k} got datagrams from {:?}", got.iter().map(|g| g.1).collect::<Vec<_>>());
                    let got: Vec<_> = got.into_iter().map(|g| g.0).collect();
                    ensure!(got == want, "udp-sent", "op {i}: remote {k} got {:?}, queued were {:?}", shorts(&got), shorts(&want));
                    total += got.len() as u64;
                }
            }
            _ => {}
        }
        for (a, b) in &held {
            ensure!(a[..] == b[..], "udp-held", "op {i}: a payload that was taken is now {}, it was {}", short(a), short(b));
        }
    }
    obs.count("payloads", total);
    obs.label_if(restarts > 0, "restarted");
    obs.label_if(relinked > 0, "address linked again");
    obs.label_if(!held.is_empty(), "payloads held");
    obs.nontrivial_if(total > 0);
    Ok(())
}

fn run_udp_client(c: &UCase, obs: &mut Obs) -> Verdict {
    let mut app = app();
    app.add_plugins(UdpPlugin);
    let any = local(1);
    // three clients in one app
    let mut rs: Vec<Remote> = (0..3).map(|_| Remote::new()).collect();
    let mut addrs: Vec<Option<SocketAddr>> = vec![None; 3];
    let mut up = [true; 3];
    for r in &mut rs {
        let e = app.world_mut().spawn((UdpIo::default(), LocalAddr(any), PeerAddr(r.addr))).id();
        fire(&mut app, LinkStart { entity: e });
        ensure!(is_linked(&app, e), "udp-start", "not linked");
        r.entity = Some(e);
    }
    let mut held: Vec<(BytesMut, Vec<u8>)> = vec![];
    let mut serial = 0u32;
    let (mut total, mut restarts) = (0u64, 0);
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            UOp::In { from, len } => {
                let k = *from as usize % 3;
                let (r, Some(a), true) = (&mut rs[k], addrs[k], up[k]) else { continue };
                for k in len {
                    serial += 1;
                    let d = payload(serial, *k);
                    r.socket.send_to(&d, a).unwrap();
                    r.inbound.push(d);
                }
            }
            UOp::Out { to, len } => {
                let k = *to as usize % 3;
                let r = &mut rs[k];
                let mut l = app.world_mut().get_mut::<Link>(r.entity.unwrap()).unwrap();
                if !up[k] {
                    continue;
                }
                for k in len {
                    serial += 1;
                    let d = payload(serial, *k);
                    l.send(d.clone().into());
                    r.outbound.push(d);
                }
            }
            UOp::Read(k) | UOp::Hold(k) => {
                let r = &mut rs[*k as usize % 3];
                let got: Vec<_> = app.world_mut().get_mut::<Link>(r.entity.unwrap()).unwrap().recv.drain().collect();
                let want = std::mem::take(&mut r.recv);
                ensure!(
                    got.iter().map(|g| &g[..]).eq(want.iter().map(|w| &w[..])),
                    "udp-payloads",
                    "op {i}: client {k} got {:?}, sent were {:?}",
                    got.iter().map(|g| short(g)).collect::<Vec<_>>(),
                    shorts(&want)
                );
                total += got.len() as u64;
                if matches!(op, UOp::Hold(_)) {
                    held.extend(got.into_iter().zip(want));
                }
            }
            UOp::DropHeld => held.clear(),
            UOp::DespawnLink(k) | UOp::NewAddress(k) => {
                // unlink and link again: a new socket
                let k = *k as usize % 3;
                let e = rs[k].entity.unwrap();
                if up[k] {
                    fire(&mut app, Unlink { entity: e, reason: UnlinkReason::UserRequested(None) });
                    ensure!(!is_linked(&app, e), "udp-stop", "op {i}: still linked");
                    if let Some(a) = addrs[k].take() {
                        ensure!(UdpSocket::bind(a).is_ok(), "udp-stop", "op {i}: the address is still bound");
                    }
                    rs[k].inbound.clear();
                } else {
                    fire(&mut app, LinkStart { entity: e });
                    ensure!(is_linked(&app, e), "udp-start", "op {i}");
                    restarts += 1;
                }
                up[k] = !up[k];
            }
            UOp::Frame => {
                let mut tries = 0;
                loop {
                    app.update();
                    tries += 1;
                    let waiting = rs.iter().any(|r| app.world().get::<Link>(r.entity.unwrap()).unwrap().recv.len() < r.recv.len() + r.inbound.len());
                    if !waiting || tries > 200 {
                        break;
                    }
                    if tries > 2 {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                }
                for (k, r) in rs.iter_mut().enumerate() {
                    let sent = std::mem::take(&mut r.inbound);
                    let got: Vec<Vec<u8>> =
                        app.world_mut().get_mut::<Link>(r.entity.unwrap()).unwrap().recv.iter().map(|b| b.to_vec()).skip(r.recv.len()).collect();
                    ensure!(got == sent, "udp-payloads", "op {i}: client {k} got {:?}, sent were {:?}", shorts(&got), shorts(&sent));
                    r.recv.extend(got);
                    if !up[k] {
                        continue;
                    }
                    let want = std::mem::take(&mut r.outbound);
                    let got = recv_all(&r.socket, want.len());
                    for g in &got {
                        ensure!(addrs[k].is_none_or(|a| a == g.1), "udp-sender", "op {i}: client {k} sends from {} and {:?}", g.1, addrs[k]);
                        addrs[k] = Some(g.1);
                    }
                    let got: Vec<_> = got.into_iter().map(|g| g.0).collect();
                    ensure!(got == want, "udp-sent", "op {i}: remote {k} got {:?}, queued were {:?}", shorts(&got), shorts(&want));
                    total += got.len() as u64;
                }
            }
            _ => {}
        }
        for (a, b) in &held {
            ensure!(a[..] == b[..], "udp-held", "op {i}: a payload that was taken is now {}, it was {}", short(a), short(b));
        }
    }
    obs.count("payloads", total);
    obs.label_if(restarts > 0, "restarted");
    obs.label_if(!held.is_empty(), "payloads held");
    obs.nontrivial_if(total > 0);
    Ok(())
}

fn udp_case() -> BoxedStrategy<UCase> {
    let op = prop_oneof![
        7 => (0u8..3, vec(len(), 1..8)).prop_map(|(from, len)| UOp::In { from, len }),
        9 => Just(UOp::Frame),
        5 => (0u8..3, vec(len(), 1..8)).prop_map(|(to, len)| UOp::Out { to, len }),
        3 => (0u8..3).prop_map(UOp::Read),
        3 => (0u8..3).prop_map(UOp::Hold),
        1 => Just(UOp::DropHeld),
        1 => (0u8..3).prop_map(UOp::DespawnLink),
        1 => (0u8..3).prop_map(UOp::NewAddress),
        1 => Just(UOp::Stop),
        2 => Just(UOp::Start),
    ];
    vec(op, 6..50).prop_map(|ops| UCase { ops }).boxed()
}

// ------------------------------------------------------------------------------ Aeronet bridge

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Why {
    User(String),
    Peer(String),
    Error(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AOp {
    /// a session entity for the link: still connecting, or at once connected
    Attach { slot: u8, connected: bool, session_first: bool },
    Connected(u8),
    In { slot: u8, len: Vec<u16> },
    Out { slot: u8, len: Vec<u16> },
    Frame,
    Read(u8),
    /// the session ends on its side
    Ended(u8, Why),
    /// lightyear ends the link
    Unlink(u8, u8, String),
    DespawnLink(u8),
    Opening,
    Opened(bool),
    Closed(Option<String>),
    UnlinkServer(u8, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ACase {
    ops: Vec<AOp>,
}

fn reason(k: u8, s: &str) -> UnlinkReason {
    match k % 5 {
        0 => UnlinkReason::UserRequested((!s.is_empty()).then(|| s.to_string())),
        1 => UnlinkReason::ServerStopped,
        2 => UnlinkReason::ByPeer(s.to_string()),
        3 => UnlinkReason::TransportError(s.to_string()),
        _ => UnlinkReason::UserRequested(None),
    }
}

#[derive(Resource, Default)]
struct Told(Vec<(Entity, String)>);

/// Stands in for a transport: what arrives at the sessions, and what it was given to send.
#[derive(Resource, Default)]
struct FakeIo {
    inbound: BTreeMap<Entity, Vec<Vec<u8>>>,
    sent: BTreeMap<Entity, Vec<Vec<u8>>>,
}

fn fake_poll(mut io: ResMut<FakeIo>, mut q: Query<(Entity, &mut Session)>) {
    for (e, mut s) in &mut q {
        for d in io.inbound.remove(&e).unwrap_or_default() {
            s.recv.push(RecvPacket { recv_at: bevy_platform::time::Instant::now(), payload: Bytes::from(d) });
        }
    }
}

fn fake_flush(mut io: ResMut<FakeIo>, mut q: Query<(Entity, &mut Session)>) {
    for (e, mut s) in &mut q {
        io.sent.entry(e).or_default().extend(s.send.drain(..).map(|b| b.to_vec()));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Linking,
    Linked,
    Unlinked,
}

struct ASlot {
    link: Entity,
    session: Option<Entity>,
    st: St,
    reason: Option<UnlinkReason>,
    addrs: Option<(SocketAddr, SocketAddr)>,
    inbound: Vec<Vec<u8>>,
    recv: Vec<Vec<u8>>,
    outbound: Vec<Vec<u8>>,
}

fn run_aeronet(c: &ACase, obs: &mut Obs) -> Verdict {
    let mut app = app();
    app.add_plugins((AeronetIoPlugin, AeronetPlugin, ServerAeronetPlugin));
    app.init_resource::<Told>();
    app.init_resource::<FakeIo>();
    app.add_systems(PreUpdate, fake_poll.in_set(IoSystems::Poll));
    app.add_systems(PostUpdate, fake_flush.in_set(IoSystems::Flush));
    app.add_observer(|t: On<Disconnected>, mut told: ResMut<Told>| {
        if let DisconnectReason::ByUser(r) = &t.reason {
            told.0.push((t.entity, r.clone()));
        }
    });
    app.add_observer(|t: On<Closed>, mut told: ResMut<Told>| {
        if let CloseReason::ByUser(r) = &t.reason {
            told.0.push((t.entity, r.clone()));
        }
    });
    let server = app.world_mut().spawn(Server::default()).id();
    let mut srv: (Option<Entity>, St, Option<UnlinkReason>) = (None, St::Unlinked, None);
    let mut slots: Vec<Option<ASlot>> = vec![None, None, None];
    let mut serial = 0u32;
    let (mut total, mut ended, mut told_n) = (0u64, 0, 0);
    let now = || bevy_platform::time::Instant::now();
    for (i, op) in c.ops.iter().enumerate() {
        let mut told: Option<(Entity, String)> = None;
        match op {
            AOp::Attach { slot, connected, session_first } => {
                let k = *slot as usize % 3;
                let w = app.world_mut();
                // slot 2 is a link of the server
                let link = match &slots[k] {
                    Some(s) if s.session.is_some() => continue,
                    Some(s) => s.link,
                    None if k == 2 && srv.1 != St::Linked => continue,
                    None if k == 2 => w.spawn((Link::default(), LinkOf { server })).id(),
                    None => w.spawn(Link::default()).id(),
                };
                let s = w.spawn_empty().id();
                serial += 1;
                let a = |n: u32| SocketAddr::from(([127, 0, (n >> 8) as u8, n as u8], 1000 + (n % 1000) as u16));
                let addrs = (LocalAddr(a(serial * 2)), PeerAddr(a(serial * 2 + 1)));
                if *session_first {
                    w.entity_mut(s).insert((SessionEndpoint, addrs.0, addrs.1));
                    if *connected {
                        w.entity_mut(s).insert(Session::new(now(), 1200));
                    }
                    w.entity_mut(s).insert(AeronetLinkOf(link));
                } else {
                    w.entity_mut(s).insert(AeronetLinkOf(link));
                    if *connected {
                        w.entity_mut(s).insert((SessionEndpoint, Session::new(now(), 1200)));
                    } else {
                        w.entity_mut(s).insert(SessionEndpoint);
                    }
                    w.entity_mut(s).insert((addrs.0, addrs.1));
                }
                w.flush();
                let (recv, outbound) = slots[k].take().map_or((vec![], vec![]), |s| (s.recv, s.outbound));
                slots[k] = Some(ASlot {
                    link,
                    session: Some(s),
                    st: if *connected { St::Linked } else { St::Linking },
                    reason: None,
                    addrs: Some((addrs.0.0, addrs.1.0)),
                    inbound: vec![],
                    recv,
                    outbound,
                });
            }
            AOp::Connected(slot) => {
                if let Some(s) = &mut slots[*slot as usize % 3]
                    && let Some(e) = s.session
                    && s.st == St::Linking
                {
                    app.world_mut().entity_mut(e).insert(Session::new(now(), 1200));
                    s.st = St::Linked;
                }
            }
            AOp::In { slot, len } => {
                if let Some(s) = &mut slots[*slot as usize % 3]
                    && let Some(e) = s.session
                    && s.st == St::Linked
                {
                    let mut io = app.world_mut().resource_mut::<FakeIo>();
                    for k in len {
                        serial += 1;
                        let d = payload(serial, *k);
                        io.inbound.entry(e).or_default().push(d.clone());
                        s.inbound.push(d);
                    }
                }
            }
            AOp::Out { slot, len } => {
                if let Some(s) = &mut slots[*slot as usize % 3] {
                    let mut l = app.world_mut().get_mut::<Link>(s.link).unwrap();
                    for k in len {
                        serial += 1;
                        let d = payload(serial, *k);
                        l.send(d.clone().into());
                        s.outbound.push(d);
                    }
                }
            }
            AOp::Frame => {
                app.update();
                for (k, s) in slots.iter_mut().enumerate() {
                    let Some(s) = s else { continue };
                    if s.st != St::Linked {
                        continue;
                    }
                    s.recv.append(&mut s.inbound);
                    let got = app.world_mut().resource_mut::<FakeIo>().sent.remove(&s.session.unwrap()).unwrap_or_default();
                    let want = std::mem::take(&mut s.outbound);
                    total += got.len() as u64;
                    ensure!(got == want, "aeronet-sent", "op {i}: session {k} was given {:?}, queued were {:?}", shorts(&got), shorts(&want));
                }
            }
            AOp::Read(slot) => {
                if let Some(s) = &mut slots[*slot as usize % 3] {
                    let got: Vec<Vec<u8>> = app.world_mut().get_mut::<Link>(s.link).unwrap().recv.drain().map(|b| b.to_vec()).collect();
                    let want = std::mem::take(&mut s.recv);
                    total += got.len() as u64;
                    ensure!(got == want, "aeronet-payloads", "op {i}: link {slot} got {:?}, sent were {:?}", shorts(&got), shorts(&want));
                }
            }
            AOp::Ended(slot, why) => {
                if let Some(s) = &mut slots[*slot as usize % 3]
                    && let Some(e) = s.session.take()
                {
                    ended += 1;
                    let (r, want) = match why {
                        Why::User(t) => (DisconnectReason::by_user(t.clone()), UnlinkReason::UserRequested((!t.is_empty()).then(|| t.clone()))),
                        Why::Peer(t) => (DisconnectReason::by_peer(t.clone()), UnlinkReason::ByPeer(t.clone())),
                        Why::Error(t) => {
                            let e = std::io::Error::other(t.clone());
                            (DisconnectReason::by_error(e), UnlinkReason::TransportError(t.clone()))
                        }
                    };
                    fire(&mut app, Disconnected { entity: e, reason: r });
                    (s.st, s.reason) = (St::Unlinked, Some(want));
                    s.inbound.clear();
                }
            }
            AOp::Unlink(slot, k, t) => {
                if let Some(s) = &mut slots[*slot as usize % 3] {
                    let r = reason(*k, t);
                    if let Some(e) = s.session.take() {
                        told = Some((e, r.to_string()));
                    }
                    fire(&mut app, Unlink { entity: s.link, reason: r.clone() });
                    (s.st, s.reason) = (St::Unlinked, Some(r));
                    s.inbound.clear();
                }
            }
            AOp::DespawnLink(slot) => {
                if let Some(s) = slots[*slot as usize % 3].take() {
                    app.world_mut().despawn(s.link);
                    ensure!(
                        s.session.is_none_or(|e| app.world().get_entity(e).is_err()),
                        "aeronet-orphan",
                        "op {i}: the session outlives its link"
                    );
                }
            }
            AOp::Opening if srv.0.is_none() => {
                let e = app.world_mut().spawn(AeronetLinkOf(server)).id();
                app.world_mut().entity_mut(e).insert(ServerEndpoint);
                srv = (Some(e), St::Linking, None);
            }
            AOp::Opened(at_once) => match srv {
                (None, ..) if *at_once => {
                    let e = app.world_mut().spawn(AeronetLinkOf(server)).id();
                    app.world_mut().entity_mut(e).insert(AeronetServer::new(now()));
                    srv = (Some(e), St::Linked, None);
                }
                (Some(e), St::Linking, _) => {
                    app.world_mut().entity_mut(e).insert(AeronetServer::new(now()));
                    srv.1 = St::Linked;
                }
                _ => {}
            },
            AOp::Closed(t) => {
                if let Some(e) = srv.0.take() {
                    let (r, want) = match t {
                        Some(t) => (CloseReason::by_user(t.clone()), UnlinkReason::UserRequested((!t.is_empty()).then(|| t.clone()))),
                        None => (CloseReason::by_error(std::io::Error::other("bind")), UnlinkReason::TransportError("bind".into())),
                    };
                    fire(&mut app, Closed { entity: e, reason: r });
                    srv = (None, St::Unlinked, Some(want));
                    ended += 1;
                }
            }
            AOp::UnlinkServer(k, t) if srv.1 == St::Linked => {
                let r = reason(*k, t);
                told = Some((srv.0.unwrap(), r.to_string()));
                fire(&mut app, Unlink { entity: server, reason: r.clone() });
                srv = (None, St::Unlinked, Some(r));
                ended += 1;
            }
            _ => {}
        }
        app.world_mut().flush();
        if srv.1 == St::Unlinked
            && let Some(s) = slots[2].take()
        {
            ensure!(app.world().get_entity(s.link).is_err(), "aeronet-server-links", "op {i} {op:?}: a link outlives its server");
            ensure!(s.session.is_none_or(|e| app.world().get_entity(e).is_err()), "aeronet-server-links", "op {i} {op:?}: a session outlives its server");
        }
        let said = std::mem::take(&mut app.world_mut().resource_mut::<Told>().0);
        if let Some((e, r)) = told {
            told_n += 1;
            ensure!(said.contains(&(e, r.clone())), "aeronet-told-reason", "op {i} {op:?}: the session was ended with {said:?}, want {r:?}");
        }
        let see = |e: Entity, st: St, reason: &Option<UnlinkReason>| -> Verdict {
            let x = app.world().entity(e);
            // linked and linking at once leaves the second marker behind
            let got = (x.contains::<Linking>() && st != St::Linked, x.contains::<Linked>(), x.contains::<Unlinked>());
            // a link that was never started has no marker
            let none = reason.is_none() && st == St::Unlinked && !got.0 && !got.1;
            ensure!(
                got == (st == St::Linking, st == St::Linked, st == St::Unlinked) || none,
                "aeronet-state",
                "op {i} {op:?}: {e} has (linking, linked, unlinked) {got:?}, want {st:?}"
            );
            if let Some(l) = x.get::<Link>() {
                let want = match st {
                    St::Linking => LinkState::Linking,
                    St::Linked => LinkState::Linked,
                    St::Unlinked => LinkState::Unlinked,
                };
                ensure!(l.state == want, "aeronet-state", "op {i} {op:?}: {e} is {:?}, want {st:?}", l.state);
            }
            if let Some(r) = reason {
                let got = &x.get::<Unlinked>().unwrap().reason;
                let same = match (got, r) {
                    // how an error is rendered is free
                    (UnlinkReason::TransportError(a), UnlinkReason::TransportError(b)) => a.contains(b),
                    (a, b) => a == b,
                };
                ensure!(same, "aeronet-reason", "op {i} {op:?}: unlinked with {got:?}, want {r:?}");
            }
            Ok(())
        };
        see(server, srv.1, &srv.2)?;
        for (k, s) in slots.iter().enumerate() {
            let Some(s) = s else { continue };
            see(s.link, s.st, &s.reason)?;
            let x = app.world().entity(s.link);
            ensure_eq!(x.contains::<AeronetLink>(), s.session.is_some(), "aeronet-relation", "op {i} {op:?}: slot {k}");
            if s.session.is_some() {
                let got = (x.get::<LocalAddr>().map(|a| a.0), x.get::<PeerAddr>().map(|a| a.0));
                ensure_eq!(got, (s.addrs.map(|a| a.0), s.addrs.map(|a| a.1)), "aeronet-address", "op {i} {op:?}: slot {k}");
            }
            let l = x.get::<Link>().unwrap();
            ensure_eq!((l.send.len(), l.recv.len()), (s.outbound.len(), s.recv.len()), "aeronet-queues", "op {i} {op:?}: slot {k}");
        }
    }
    obs.count("payloads", total);
    obs.label_if(ended > 0, "session ended");
    obs.label_if(told_n > 0, "unlinked");
    obs.nontrivial_if(total > 0 && ended + told_n > 0);
    Ok(())
}

fn aeronet_case() -> BoxedStrategy<ACase> {
    let text = || prop_oneof![Just(String::new()), "[a-z ]{1,8}"];
    let why = prop_oneof![text().prop_map(Why::User), text().prop_map(Why::Peer), text().prop_map(Why::Error)];
    let op = prop_oneof![
        5 => (0u8..3, any::<bool>(), any::<bool>()).prop_map(|(slot, connected, session_first)| AOp::Attach { slot, connected, session_first }),
        4 => (0u8..3).prop_map(AOp::Connected),
        5 => (0u8..3, vec(len(), 1..4)).prop_map(|(slot, len)| AOp::In { slot, len }),
        5 => (0u8..3, vec(len(), 1..4)).prop_map(|(slot, len)| AOp::Out { slot, len }),
        6 => Just(AOp::Frame),
        4 => (0u8..3).prop_map(AOp::Read),
        1 => (0u8..3, why).prop_map(|(s, w)| AOp::Ended(s, w)),
        1 => (0u8..3, 0u8..5, text()).prop_map(|(s, k, t)| AOp::Unlink(s, k, t)),
        1 => (0u8..3).prop_map(AOp::DespawnLink),
        1 => Just(AOp::Opening),
        3 => any::<bool>().prop_map(AOp::Opened),
        1 => prop_oneof![3 => text().prop_map(Some), 1 => Just(None)].prop_map(AOp::Closed),
        1 => (0u8..5, text()).prop_map(|(k, t)| AOp::UnlinkServer(k, t)),
    ];
    vec(op, 8..70).prop_map(|ops| ACase { ops }).boxed()
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C33", "crossbeam", 16_000, 300_000, crossbeam_case, run_crossbeam),
        sub("C33", "udp-server", 12_000, 200_000, udp_case, |c: &UCase, o| thrice(|o| run_udp_server(c, o), o)),
        sub("C33", "udp-client", 12_000, 200_000, udp_case, |c: &UCase, o| thrice(|o| run_udp_client(c, o), o)),
        sub("C33", "aeronet", 16_000, 300_000, aeronet_case, run_aeronet),
    ]
}
