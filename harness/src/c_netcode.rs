//! Netcode sessions between a server and clients over a hostile network, against a reference
//! implementation of the protocol that decodes every datagram itself: C24 sessions, C25 forged,
//! damaged and replayed datagrams, C26 capacity, denial, expiry and time-outs.

use crate::fw::{Fail, Obs, Res, Sub, sub};
use crate::{ensure, ensure_eq};
use aeronet_io::connection::LocalAddr;
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_ecs::relationship::RelationshipTarget;
use bevy_time::{Real, Time};
use bytes::{Bytes, BytesMut};
use chacha20poly1305::aead::{AeadInPlace, KeyInit};
use chacha20poly1305::{ChaCha20Poly1305, Tag, XChaCha20Poly1305, XNonce};
use lightyear_connection::ConnectionSystems;
use lightyear_connection::client::{Connect, Connected, Connecting, Disconnect, Disconnected, Disconnecting};
use lightyear_connection::server::{Start, Started, Stop, Stopped};
use lightyear_connection::shared::{ConnectionRequestHandler, DeniedReason};
use lightyear_core::id::{LocalId, PeerId, RemoteId};
use lightyear_link::server::ServerLinkPlugin;
use lightyear_link::{Link, LinkSystems, Linked};
use lightyear_link::prelude::{LinkOf, Server};
use lightyear_netcode::auth::Authentication;
use lightyear_netcode::client_plugin::{NetcodeClient, NetcodeClientPlugin, NetcodeConfig as ClientConfig};
use lightyear_netcode::server_plugin::{NetcodeConfig as ServerConfig, NetcodeServerPlugin};
use lightyear_netcode::{ConnectToken, NetcodeServer, TokenUserData};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;

type Key = [u8; 32];
const VERSION: &[u8; 13] = b"NETCODE 1.02\0";
const PROTOCOL: u64 = 0x1122_3344_5566_7788;
const SERVER_KEY: Key = [7; 32];
const MAX_PAYLOAD: usize = 1200;
const RATE: f64 = 0.1;
const MAC: usize = 16;

// ------------------------------------------------------------------------------ the wire format

fn aead(protocol: u64, prefix: u8) -> Vec<u8> {
    let mut a = VERSION.to_vec();
    a.extend(protocol.to_be_bytes());
    a.push(prefix);
    a
}

fn nonce(seq: u64) -> [u8; 12] {
    let mut n = [0; 12];
    n[4..].copy_from_slice(&seq.to_be_bytes());
    n
}

/// Kind, sequence and authentic body of an encrypted packet.
fn open(d: &[u8], key: &Key) -> Option<(u8, u64, Vec<u8>)> {
    let prefix = *d.first()?;
    let (n, kind) = ((prefix >> 4) as usize, prefix & 15);
    if n > 8 || d.len() < 1 + n + MAC {
        return None;
    }
    let mut s = [0; 8];
    s[..n].copy_from_slice(&d[1..1 + n]);
    let seq = u64::from_le_bytes(s);
    let mut body = d[1 + n..d.len() - MAC].to_vec();
    ChaCha20Poly1305::new(key.into())
        .decrypt_in_place_detached(&nonce(seq).into(), &aead(PROTOCOL, prefix), &mut body, Tag::from_slice(&d[d.len() - MAC..]))
        .ok()?;
    Some((kind, seq, body))
}

/// An authentic packet with any content (a client that does not follow the protocol).
fn seal(kind: u8, seq: u64, body: &[u8], key: &Key) -> Vec<u8> {
    let n = (8 - seq.leading_zeros() as usize / 8).max(1);
    let prefix = (n as u8) << 4 | kind;
    let mut d = vec![prefix];
    d.extend(&seq.to_le_bytes()[..n]);
    let mut b = body.to_vec();
    let tag = ChaCha20Poly1305::new(key.into()).encrypt_in_place_detached(&nonce(seq).into(), &aead(PROTOCOL, prefix), &mut b).unwrap();
    d.extend(b);
    d.extend(tag);
    d
}

#[derive(Clone, Debug)]
struct Private {
    id: u64,
    timeout: i32,
    addrs: Vec<SocketAddr>,
    c2s: Key,
    s2c: Key,
    user: Vec<u8>,
}

fn parse_addrs(d: &[u8], at: &mut usize) -> Option<Vec<SocketAddr>> {
    let mut take = |n: usize| {
        let r = d.get(*at..*at + n)?;
        *at += n;
        Some(r.to_vec())
    };
    let n = u32::from_be_bytes(take(4)?.try_into().ok()?);
    if !(1..=32).contains(&n) {
        return None;
    }
    let mut v = vec![];
    for _ in 0..n {
        match take(1)?[0] {
            1 => {
                let ip: [u8; 4] = take(4)?.try_into().ok()?;
                v.push(SocketAddr::from((ip, u16::from_be_bytes(take(2)?.try_into().ok()?))));
            }
            2 => {
                let ip: [u8; 16] = take(16)?.try_into().ok()?;
                v.push(SocketAddr::from((ip, u16::from_be_bytes(take(2)?.try_into().ok()?))));
            }
            _ => return None,
        }
    }
    Some(v)
}

/// What the server is allowed to learn from a connection request, if it is authentic and current.
fn open_request(d: &[u8]) -> Option<Private> {
    if d.len() < 1078 || d.len() > 1300 || d[0] != 0 || &d[1..14] != VERSION || d[14..22] != PROTOCOL.to_be_bytes() {
        return None;
    }
    let expire = u64::from_be_bytes(d[22..30].try_into().unwrap());
    if expire <= std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() {
        return None;
    }
    let mut p = d[54..54 + 1024 - MAC].to_vec();
    let mut a = VERSION.to_vec();
    a.extend(PROTOCOL.to_be_bytes());
    a.extend(&d[22..30]);
    XChaCha20Poly1305::new((&SERVER_KEY).into())
        .decrypt_in_place_detached(XNonce::from_slice(&d[30..54]), &a, &mut p, Tag::from_slice(&d[54 + 1024 - MAC..1078]))
        .ok()?;
    parse_private(&p)
}

fn parse_private(p: &[u8]) -> Option<Private> {
    let id = u64::from_be_bytes(p.get(..8)?.try_into().ok()?);
    let timeout = i32::from_be_bytes(p.get(8..12)?.try_into().ok()?);
    let mut at = 12;
    let addrs = parse_addrs(p, &mut at)?;
    Some(Private {
        id,
        timeout,
        addrs,
        c2s: p.get(at..at + 32)?.try_into().ok()?,
        s2c: p.get(at + 32..at + 64)?.try_into().ok()?,
        user: p.get(at + 64..at + 320)?.to_vec(),
    })
}

/// The public part of a token.
#[derive(Clone, Debug)]
struct Public {
    protocol: u64,
    create: u64,
    expire: u64,
    nonce: Vec<u8>,
    private: Vec<u8>,
    timeout: i32,
    addrs: Vec<SocketAddr>,
    c2s: Key,
    s2c: Key,
}

fn parse_token(d: &[u8]) -> Option<Public> {
    let u = |a: usize| u64::from_be_bytes(d[a..a + 8].try_into().unwrap());
    if d.len() < 1117 || &d[..13] != VERSION {
        return None;
    }
    let mut at = 13 + 24 + 24 + 1024 + 4;
    let addrs = parse_addrs(d, &mut at)?;
    Some(Public {
        protocol: u(13),
        create: u(21),
        expire: u(29),
        nonce: d[37..61].to_vec(),
        private: d[61..1085].to_vec(),
        timeout: i32::from_be_bytes(d[1085..1089].try_into().unwrap()),
        addrs,
        c2s: d.get(at..at + 32)?.try_into().ok()?,
        s2c: d.get(at + 32..at + 64)?.try_into().ok()?,
    })
}

/// Accepts each sequence once, unless it is 256 or more behind the newest.
#[derive(Clone, Debug, Default)]
struct Replay {
    newest: u64,
    seen: HashSet<u64>,
}

impl Replay {
    fn fresh(&self, s: u64) -> bool {
        s.saturating_add(256) > self.newest && !self.seen.contains(&s)
    }
    fn add(&mut self, s: u64) {
        self.newest = self.newest.max(s);
        self.seen.insert(s);
    }
}

// ------------------------------------------------------------------------------ cases

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Tok {
    id: u8,
    timeout: i8,
    /// 0 already expired, 1 never, 2 after 60 s
    expire: u8,
    /// 0 valid, 1 other key, 2 other protocol, 3 for another server, 4 internal address of this server
    kind: u8,
    addrs: u8,
    user: u8,
    /// bit of the token's bytes that is not as it was issued
    flip: Option<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Connect(u8),
    Disconnect(u8),
    Renew(u8, Tok),
    /// the client gets a new address
    Rebind(u8),
    Send(u8, u8, u16),
    Reply(u8, u8, u16),
    /// no datagrams to (or from) the server until the flag is cleared
    Cut(u8, bool, bool),
    Stop,
    Start,
    Inject { src: u16, dst: u8, up: bool, how: u8, at: u16, val: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Frame {
    /// in 1/64 s
    dt: u16,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    max_clients: u8,
    /// bit n: the request handler refuses client n
    banned: u8,
    check_addr: bool,
    /// which of `LOCALS` the server's address is
    #[serde(default)]
    local: u8,
    /// another of them that the server also accepts
    #[serde(default)]
    extra: Option<u8>,
    toks: Vec<Tok>,
    frames: Vec<Frame>,
    /// fate of each datagram, cyclic
    net: Vec<u8>,
}

const CLIENTS: u8 = 3;
const QUIET: usize = 40;

fn tok(focus: u8) -> BoxedStrategy<Tok> {
    let timeout = if focus == 2 { prop_oneof![Just(-1i8), Just(0), Just(1), Just(1), Just(2), Just(3)].boxed() } else { prop_oneof![Just(3i8), Just(-1), Just(2)].boxed() };
    let expire = if focus == 2 { prop_oneof![1 => Just(0u8), 4 => Just(1), 3 => Just(2)].boxed() } else { Just(1u8).boxed() };
    let kind = if focus == 2 { prop_oneof![8 => Just(0u8), 1 => 1u8..5, 3 => 5u8..5 + LOCALS.len() as u8].boxed() } else { prop_oneof![14 => Just(0u8), 1 => 1u8..5].boxed() };
    (1u8..5, timeout, expire, kind, prop_oneof![5 => Just(1u8), 1 => 2u8..4], any::<u8>())
        .prop_flat_map(move |(id, timeout, expire, kind, addrs, user)| {
            let flip = if focus == 3 { prop_oneof![1 => Just(None), 2 => (0u16..1150 * 8).prop_map(Some), 1 => (1085u16 * 8..1200 * 8).prop_map(Some)].boxed() } else { Just(None).boxed() };
            flip.prop_map(move |flip| Tok { id, timeout, expire, kind, addrs, user, flip })
        })
        .boxed()
}

fn case(focus: u8) -> BoxedStrategy<Case> {
    let c = 0u8..CLIENTS;
    let size = prop_oneof![4 => 0u16..40, 1 => 1100u16..1300, 1 => 1199u16..1202];
    let op = prop_oneof![
        6 => c.clone().prop_map(Op::Connect),
        2 => c.clone().prop_map(Op::Disconnect),
        if focus == 2 { 3 } else { 1 } => (c.clone(), tok(focus)).prop_map(|(c, t)| Op::Renew(c, t)),
        1 => c.clone().prop_map(Op::Rebind),
        if focus == 2 { 2 } else { 6 } => (c.clone(), any::<u8>(), size.clone()).prop_map(|(c, n, s)| Op::Send(c, n, s)),
        if focus == 2 { 2 } else { 6 } => (c.clone(), any::<u8>(), size).prop_map(|(c, n, s)| Op::Reply(c, n, s)),
        if focus == 2 { 4 } else { 1 } => (c.clone(), any::<bool>(), any::<bool>()).prop_map(|(c, u, o)| Op::Cut(c, u, o)),
        1 => Just(Op::Stop),
        1 => Just(Op::Start),
    ];
    let inject = (any::<u16>(), c, any::<bool>(), 0u8..8, any::<u16>(), any::<u8>())
        .prop_map(|(src, dst, up, how, at, val)| Op::Inject { src, dst, up, how, at, val });
    let op = match focus {
        1 => prop_oneof![1 => op, 1 => inject].boxed(),
        2 => prop_oneof![6 => op, 1 => inject].boxed(),
        _ => op.boxed(),
    };
    let dt = if focus == 2 {
        prop_oneof![8 => 1u16..12, 2 => 12u16..64, 1 => 64u16..400, 1 => Just(2000u16)].boxed()
    } else {
        prop_oneof![12 => 1u16..12, 1 => 12u16..80].boxed()
    };
    let frame = (dt, vec(op, 0..4)).prop_map(|(dt, ops)| Frame { dt, ops });
    let net = match focus {
        2 => vec(any::<u8>(), 1..2).boxed(),
        _ => vec(any::<u8>(), 1..24).boxed(),
    };
    (
        match focus {
            2 => prop_oneof![Just(1u8), Just(2), Just(2), Just(8), Just(0)].boxed(),
            // (so that there are genuine denials to replay)
            1 => prop_oneof![4 => Just(8u8), 1 => Just(1u8), 1 => Just(2u8)].boxed(),
            _ => Just(8u8).boxed(),
        },
        match focus {
            2 => prop_oneof![2 => Just(0u8), 1 => any::<u8>()].boxed(),
            1 => prop_oneof![6 => Just(0u8), 1 => any::<u8>()].boxed(),
            _ => Just(0u8).boxed(),
        },
        (
            any::<bool>(),
            if focus == 2 { prop_oneof![2 => Just(0u8), 1 => 0..LOCALS.len() as u8].boxed() } else { Just(0u8).boxed() },
            if focus == 2 { prop_oneof![3 => Just(None), 1 => (0..LOCALS.len() as u8).prop_map(Some)].boxed() } else { Just(None).boxed() },
        ),
        vec(tok(focus), CLIENTS as usize),
        vec(frame, 1..50),
        net,
    )
        .prop_map(|(max_clients, banned, (check_addr, local, extra), toks, frames, net)| Case { max_clients, banned, check_addr, local, extra, toks, frames, net })
        .boxed()
}

fn server_addr() -> SocketAddr {
    "10.1.2.3:5000".parse().unwrap()
}

/// Addresses of the server, and addresses tokens name for it.
const LOCALS: [&str; 10] = [
    "10.1.2.3:5000",
    "0.0.0.0:5000",
    "127.0.0.1:5000",
    "127.0.0.2:5000",
    "[::]:5000",
    "[::1]:5000",
    "127.0.0.1:5001",
    "[2001:db8::1]:5000",
    "10.1.2.4:5000",
    "0.0.0.0:5001",
];

fn local(n: u8) -> SocketAddr {
    LOCALS[n as usize % LOCALS.len()].parse().unwrap()
}

/// A token for address `t` is for the server at `a`: the same address, or one of the two the
/// wildcard and the other a loopback address of the same family and port.
fn is_for(a: SocketAddr, t: SocketAddr) -> bool {
    a == t
        || a.port() == t.port()
            && a.is_ipv4() == t.is_ipv4()
            && (a.ip().is_unspecified() && t.ip().is_loopback() || a.ip().is_loopback() && t.ip().is_unspecified())
}

fn user_data(n: u8) -> [u8; 256] {
    let mut u = [0; 256];
    for (i, b) in u.iter_mut().enumerate() {
        *b = n.wrapping_mul(31).wrapping_add(i as u8);
    }
    u
}

fn make_token(t: &Tok) -> ConnectToken {
    let other: SocketAddr = "10.9.9.9:5000".parse().unwrap();
    let public: Vec<SocketAddr> = (0..t.addrs.max(1))
        .map(|i| match (t.kind, i) {
            (3 | 4, _) => SocketAddr::new(other.ip(), 6000 + i as u16),
            // only one of them is this server
            (_, i) if i + 1 == t.addrs.max(1) => server_addr(),
            _ => SocketAddr::new(other.ip(), 7000 + i as u16),
        })
        .collect();
    let internal = [if t.kind >= 5 { local(t.kind - 5) } else { server_addr() }];
    let b = ConnectToken::build(
        &public[..],
        if t.kind == 2 { PROTOCOL + 1 } else { PROTOCOL },
        t.id as u64,
        if t.kind == 1 { [8; 32] } else { SERVER_KEY },
    )
    .timeout_seconds(t.timeout as i32)
    .expire_seconds(match t.expire {
        0 => 0,
        1 => -1,
        _ => 60,
    })
    .user_data(user_data(t.user));
    let b = if t.kind >= 4 { b.internal_addresses(&internal[..]).unwrap() } else { b };
    b.generate().unwrap()
}

fn denial(banned: u8, id: u64) -> Option<DeniedReason> {
    (banned >> (id % 8) & 1 == 1).then(|| match id % 3 {
        0 => DeniedReason::Banned,
        1 => DeniedReason::Custom("no é".into()),
        _ => DeniedReason::InternalError,
    })
}

#[derive(Debug)]
struct Handler(u8);
impl ConnectionRequestHandler for Handler {
    fn handle_request(&self, client_id: PeerId) -> Option<DeniedReason> {
        match client_id {
            PeerId::Netcode(id) => denial(self.0, id),
            _ => Some(DeniedReason::Custom("not a netcode id".into())),
        }
    }
}

fn denial_bytes(r: &DeniedReason) -> Vec<u8> {
    match r {
        DeniedReason::ServerFull => vec![0],
        DeniedReason::Banned => vec![1],
        DeniedReason::InternalError => vec![2],
        DeniedReason::AlreadyConnected => vec![3],
        DeniedReason::TokenAlreadyUsed => vec![4],
        DeniedReason::InvalidToken => vec![5],
        DeniedReason::Custom(s) => [&[6, s.len() as u8][..], s.as_bytes()].concat(),
    }
}

// ------------------------------------------------------------------------------ reference model

#[derive(Clone, Debug)]
enum Out {
    Request,
    Denied(Key, DeniedReason),
    Challenge(Key, u64),
    Response(Key, Vec<u8>),
    KeepAlive(Key, Option<u64>),
    Payload(Key, Vec<u8>),
    Disconnect(Key),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum CState {
    Idle,
    Request,
    Response,
    Connected,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mark {
    Disconnected,
    Connecting,
    Connected,
}

struct Cli {
    e: Entity,
    tok: Public,
    spec: Tok,
    generation: u8,
    state: CState,
    time: f64,
    start: f64,
    last_send: f64,
    last_recv: f64,
    idx: usize,
    kicked: bool,
    failed: Option<&'static str>,
    replay: Replay,
    id: u64,
    challenge: Vec<u8>,
    mark: Mark,
    /// with the attempt they belong to: sequences restart with each
    queue: Vec<(u64, Out)>,
    attempt: u64,
    payloads: Vec<Vec<u8>>,
    seqs: HashSet<(u64, u64)>,
}

impl Cli {
    fn new(e: Entity, spec: Tok, tok: Public) -> Self {
        Self {
            e,
            tok,
            spec,
            generation: 0,
            state: CState::Idle,
            time: 0.0,
            start: 0.0,
            last_send: f64::NEG_INFINITY,
            last_recv: f64::NEG_INFINITY,
            idx: 0,
            kicked: false,
            failed: None,
            replay: Replay::default(),
            id: 0,
            challenge: vec![],
            mark: Mark::Disconnected,
            queue: vec![],
            attempt: 0,
            payloads: vec![],
            seqs: HashSet::new(),
        }
    }

    fn connect(&mut self) {
        self.restart();
        self.state = CState::Request;
    }

    fn restart(&mut self) {
        self.attempt += 1;
        self.start = self.time;
        self.last_send = self.time - 1.0;
        self.last_recv = self.time;
        self.kicked = false;
        self.failed = None;
        self.replay = Replay::default();
    }

    fn stop(&mut self) {
        self.idx = 0;
        self.restart();
        self.state = CState::Idle;
        self.mark = Mark::Disconnected;
    }

    fn next_server(&mut self) -> bool {
        if self.idx + 1 < self.tok.addrs.len() {
            self.idx += 1;
            self.connect();
            true
        } else {
            false
        }
    }

    fn packet(&mut self, d: &[u8]) {
        if d.len() <= 1 || d.len() > 1300 || d[0] == 0 || self.tok.protocol != PROTOCOL {
            return;
        }
        let Some((kind, seq, body)) = open(d, &self.tok.s2c) else { return };
        if self.state == CState::Connected && kind >= 4 {
            if !self.replay.fresh(seq) {
                return;
            }
            self.replay.add(seq);
        }
        match (kind, self.state) {
            (1, CState::Request | CState::Response) => self.failed = Some("denied"),
            (2, CState::Request) => {
                self.challenge = body;
                self.state = CState::Response;
            }
            (4, CState::Response) => {
                self.state = CState::Connected;
                self.id = u64::from_be_bytes(body[..8].try_into().unwrap());
            }
            (4, CState::Connected) => {}
            (5, CState::Connected) => self.payloads.push(body),
            (6, CState::Connected) => self.kicked = true,
            _ => return,
        }
        self.last_recv = self.time;
    }

    /// One `PreUpdate`: what arrived, what it sends on its own, what it gives up.
    fn receive(&mut self, dt: f64, inbox: &[Vec<u8>]) {
        self.time += dt;
        for d in inbox {
            self.packet(d);
        }
        if self.last_send + RATE < self.time {
            let o = match self.state {
                CState::Request => Some(Out::Request),
                CState::Response => Some(Out::Response(self.tok.c2s, self.challenge.clone())),
                CState::Connected => Some(Out::KeepAlive(self.tok.c2s, None)),
                CState::Idle => None,
            };
            if let Some(o) = o {
                self.queue.push((self.attempt, o));
                self.last_send = self.time;
            }
        }
        let pending = matches!(self.state, CState::Request | CState::Response);
        let silent = self.tok.timeout > 0 && self.last_recv + (self.tok.timeout as f64) < self.time;
        if pending && self.time - self.start >= self.tok.expire as f64 - self.tok.create as f64 {
            self.stop();
        } else if self.failed.is_some() || self.kicked || (pending && silent) {
            self.mark = Mark::Connecting;
            if !self.next_server() {
                self.stop();
            }
        } else if self.state == CState::Connected && silent {
            self.stop();
        } else if self.state == CState::Connected && self.mark == Mark::Connecting {
            self.mark = Mark::Connected;
        }
    }
}

struct Conn {
    e: Entity,
    connected: bool,
    confirmed: bool,
    timeout: i32,
    c2s: Key,
    s2c: Key,
    user: Vec<u8>,
    last_send: f64,
    last_recv: f64,
    replay: Replay,
    seqs: HashSet<(u64, u64)>,
}

#[derive(Clone, Debug, Default)]
struct SLink {
    connecting: bool,
    connected: Option<(u64, Vec<u8>)>,
    disconnecting: bool,
    payloads: Vec<Vec<u8>>,
    queue: Vec<Out>,
}

#[derive(Default)]
struct Srv {
    time: f64,
    running: bool,
    stopping: bool,
    conns: BTreeMap<u64, Conn>,
    owner: HashMap<Entity, u64>,
    issued: HashMap<Vec<u8>, u64>,
    links: HashMap<Entity, SLink>,
    max: usize,
    banned: u8,
    check_addr: bool,
    addrs: Vec<SocketAddr>,
    stats: BTreeMap<&'static str, u64>,
    gone: Vec<Entity>,
    accepted: Vec<(u64, Entity)>,
}

impl Srv {
    fn tally(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }

    fn count(&self) -> usize {
        self.conns.values().filter(|c| c.connected).count()
    }

    fn queue(&mut self, e: Entity, o: Out) {
        self.links.entry(e).or_default().queue.push(o);
    }

    fn packet(&mut self, e: Entity, d: &[u8]) {
        if d.len() <= 1 || d.len() > 1300 {
            return;
        }
        if d[0] == 0 {
            if let Some(p) = open_request(d) {
                self.request(e, p);
            }
            return;
        }
        let Some(id) = self.owner.get(&e).copied().filter(|i| self.conns.contains_key(i)) else { return };
        let c = self.conns.get_mut(&id).unwrap();
        let Some((kind, seq, body)) = open(d, &c.c2s) else { return };
        if !(3..=6).contains(&kind) {
            self.tally("kinds no client may send");
            return;
        }
        if kind >= 4 {
            if !c.replay.fresh(seq) {
                self.tally("replays");
                return;
            }
            c.replay.add(seq);
        }
        match kind {
            3 => self.response(e, &body),
            4 => {
                c.last_recv = self.time;
                c.confirmed = true;
            }
            5 => {
                if c.connected {
                    c.last_recv = self.time;
                    c.confirmed = true;
                    self.links.get_mut(&e).unwrap().payloads.push(body);
                }
            }
            _ => {
                let connected = c.connected;
                self.gone.push(e);
                self.tally("disconnections");
                if connected {
                    self.conns.remove(&id);
                    self.owner.remove(&e);
                }
            }
        }
    }

    fn request(&mut self, e: Entity, p: Private) {
        if self.check_addr && !p.addrs.iter().any(|t| self.addrs.iter().any(|a| is_for(*a, *t))) {
            self.tally("requests for other servers");
            return;
        }
        let on_link = self.owner.get(&e).copied();
        if on_link.and_then(|i| self.conns.get(&i)).is_some_and(|c| c.connected) || self.conns.get(&p.id).is_some_and(|c| c.connected) {
            self.tally("requests while connected");
            return;
        }
        if self.count() >= self.max {
            self.tally("full");
            self.queue(e, Out::Denied(p.s2c, DeniedReason::ServerFull));
            return;
        }
        if let Some(r) = denial(self.banned, p.id) {
            self.tally("refused");
            self.queue(e, Out::Denied(p.s2c, r));
            return;
        }
        self.queue(e, Out::Challenge(p.s2c, p.id));
        if on_link == Some(p.id) && self.conns.contains_key(&p.id) {
            let c = self.conns.get_mut(&p.id).unwrap();
            c.timeout = p.timeout;
            if c.c2s != p.c2s {
                c.seqs.clear();
            }
            (c.c2s, c.s2c, c.user) = (p.c2s, p.s2c, p.user);
        } else {
            if let Some(old) = on_link {
                self.owner.remove(&e);
                if !self.owner.values().any(|i| *i == old) {
                    self.conns.remove(&old);
                }
                self.tally("identity changed on a link");
            }
            if self.conns.contains_key(&p.id) {
                self.tally("identity moved to another link");
            }
            self.conns.insert(p.id, Conn {
                e,
                connected: false,
                confirmed: false,
                timeout: p.timeout,
                c2s: p.c2s,
                s2c: p.s2c,
                user: p.user,
                last_send: f64::NEG_INFINITY,
                last_recv: f64::NEG_INFINITY,
                replay: Replay::default(),
                seqs: HashSet::new(),
            });
            self.owner.insert(e, p.id);
        }
        self.links.get_mut(&e).unwrap().connecting = true;
    }

    fn response(&mut self, e: Entity, body: &[u8]) {
        let Some(&id) = self.issued.get(body) else { return };
        let full = self.count() >= self.max;
        let Some(c) = self.conns.get_mut(&id) else { return };
        if c.connected {
            return;
        }
        if full {
            let k = c.s2c;
            self.tally("full at response");
            self.queue(e, Out::Denied(k, DeniedReason::ServerFull));
            return;
        }
        c.connected = true;
        c.e = e;
        (c.last_send, c.last_recv) = (self.time, self.time);
        let (k, user) = (c.s2c, c.user.clone());
        self.owner.retain(|_, i| *i != id);
        self.owner.insert(e, id);
        self.queue(e, Out::KeepAlive(k, Some(id)));
        self.accepted.push((id, e));
        self.links.get_mut(&e).unwrap().connected = Some((id, user));
        self.tally("connections");
    }

    fn receive(&mut self, dt: f64, inbox: &[(Entity, Vec<Vec<u8>>)]) {
        if !self.running {
            return;
        }
        self.time += dt;
        let out: Vec<u64> = self
            .conns
            .iter()
            .filter(|(_, c)| c.connected && c.timeout > 0 && c.last_recv + (c.timeout as f64) < self.time)
            .map(|(i, _)| *i)
            .collect();
        for i in out {
            let c = self.conns.remove(&i).unwrap();
            self.owner.remove(&c.e);
            self.gone.push(c.e);
            self.tally("time-outs");
        }
        for (e, ds) in inbox {
            for d in ds {
                self.packet(*e, d);
            }
        }
        for e in std::mem::take(&mut self.gone) {
            self.links.remove(&e);
        }
        if self.stopping {
            self.stopping = false;
            self.running = false;
            self.conns.clear();
            self.owner.clear();
            self.issued.clear();
            self.links.clear();
            self.tally("stops");
        }
    }

    fn stop(&mut self) {
        self.stopping = true;
        let ids: Vec<u64> = self.conns.iter().filter(|(_, c)| c.connected).map(|(i, _)| *i).collect();
        for i in ids {
            let c = &self.conns[&i];
            let (e, k) = (c.e, c.s2c);
            let Some(l) = self.links.get_mut(&e) else { continue };
            if l.connected.is_none() {
                continue;
            }
            l.queue = (0..10).map(|_| Out::Disconnect(k)).collect();
            l.disconnecting = true;
            l.connected = None;
            self.conns.remove(&i);
            self.owner.remove(&e);
        }
    }

    /// What leaves the link in `PostUpdate`.
    fn send(&mut self, e: Entity, pushed: &[Vec<u8>]) -> Vec<Out> {
        let mut out = vec![];
        let Some(l) = self.links.get_mut(&e) else { return out };
        if let Some((id, _)) = l.connected
            && let Some(c) = self.conns.get_mut(&id).filter(|c| c.connected)
        {
            for p in pushed.iter().filter(|p| p.len() <= MAX_PAYLOAD) {
                if !c.confirmed {
                    out.push(Out::KeepAlive(c.s2c, Some(id)));
                }
                out.push(Out::Payload(c.s2c, p.clone()));
                c.last_send = self.time;
            }
            if c.last_send + RATE < self.time {
                out.push(Out::KeepAlive(c.s2c, Some(id)));
                c.last_send = self.time;
            }
        }
        out.append(&mut l.queue);
        out
    }
}

// ------------------------------------------------------------------------------ the apps

#[derive(Resource, Default)]
struct Io {
    sent: HashMap<Entity, Vec<Bytes>>,
    got: HashMap<Entity, Vec<Vec<u8>>>,
    todo: Vec<Box<dyn FnOnce(&mut World) + Send + Sync>>,
}

fn base(app: &mut App) {
    app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    app.init_resource::<Io>();
    app.insert_resource(Time::<Real>::default());
    app.add_systems(
        PreUpdate,
        (|mut q: Query<(Entity, &mut Link)>, mut io: ResMut<Io>| {
            for (e, mut l) in &mut q {
                let v: Vec<Vec<u8>> = l.recv.drain().map(|b| b.to_vec()).collect();
                if !v.is_empty() {
                    io.got.insert(e, v);
                }
            }
        })
        .after(ConnectionSystems::Receive),
    );
    app.add_systems(Update, |w: &mut World| {
        for f in std::mem::take(&mut w.resource_mut::<Io>().todo) {
            f(w);
            w.flush();
        }
    });
    app.add_systems(
        PostUpdate,
        (|mut q: Query<(Entity, &mut Link)>, mut io: ResMut<Io>| {
            for (e, mut l) in &mut q {
                let v: Vec<Bytes> = l.send.drain().collect();
                if !v.is_empty() {
                    io.sent.insert(e, v);
                }
            }
        })
        .in_set(LinkSystems::Send),
    );
}

fn tick(app: &mut App, dt: Duration) {
    app.world_mut().resource_mut::<Time<Real>>().update_with_duration(dt);
    app.update();
}

/// A datagram under way: due frame, client, address generation, up.
struct Dg {
    due: usize,
    c: u8,
    generation: u8,
    up: bool,
    data: Vec<u8>,
}

struct Sim {
    sapp: App,
    capp: App,
    se: Entity,
    srv: Srv,
    cli: Vec<Cli>,
    /// current link entity of an address, with its client
    addr: HashMap<(u8, u8), Entity>,
    net: VecDeque<u8>,
    flying: Vec<Dg>,
    history: Vec<Vec<u8>>,
    cut: [[bool; 2]; CLIENTS as usize],
    frame: usize,
    injected: u64,
    /// clients that had datagrams injected to or from their own address
    touched: [bool; CLIENTS as usize],
    spoofed: u64,
    stats: BTreeMap<&'static str, u64>,
}

impl Sim {
    fn new(c: &Case) -> Self {
        let mut sapp = App::new();
        base(&mut sapp);
        sapp.add_plugins((lightyear_connection::ConnectionPlugin, ServerLinkPlugin, NetcodeServerPlugin));
        sapp.finish();
        let cfg = ServerConfig {
            max_clients: c.max_clients as usize,
            protocol_id: PROTOCOL,
            private_key: SERVER_KEY,
            server_addr_check: c.check_addr,
            additional_expected_addresses: c.extra.iter().map(|n| local(*n)).collect(),
            connection_request_handler: Some(Arc::new(Handler(c.banned))),
            ..Default::default()
        };
        let se = sapp.world_mut().spawn((NetcodeServer::new(cfg), LocalAddr(local(c.local)))).id();
        sapp.world_mut().trigger(Start { entity: se });
        sapp.world_mut().entity_mut(se).insert(Linked);
        sapp.world_mut().flush();
        let mut capp = App::new();
        base(&mut capp);
        capp.add_plugins((lightyear_connection::ConnectionPlugin, lightyear_link::LinkPlugin, NetcodeClientPlugin));
        capp.finish();
        let cli = c
            .toks
            .iter()
            .map(|t| {
                let (n, p) = client(t);
                let e = capp.world_mut().spawn((n, Linked)).id();
                capp.world_mut().flush();
                Cli::new(e, *t, p)
            })
            .collect();
        Sim {
            sapp,
            capp,
            se,
            srv: Srv { running: true, max: c.max_clients as usize, banned: c.banned, check_addr: c.check_addr, addrs: [c.local].into_iter().chain(c.extra).map(local).collect(), ..Default::default() },
            cli,
            addr: HashMap::new(),
            net: c.net.iter().copied().collect(),
            flying: vec![],
            history: vec![],
            cut: Default::default(),
            frame: 0,
            injected: 0,
            touched: Default::default(),
            spoofed: 0,
            stats: BTreeMap::new(),
        }
    }

    fn launch(&mut self, c: u8, up: bool, data: Vec<u8>, quiet: bool) {
        let generation = self.cli[c as usize].generation;
        if self.history.len() < 4000 {
            self.history.push(data.clone());
        }
        let cut = self.cut[c as usize][up as usize];
        let mut copies = vec![];
        if quiet {
            copies.push(0);
        } else {
            let b = *self.net.front().unwrap();
            self.net.rotate_left(1);
            match b {
                0..=159 => copies.push(0),
                160..=199 => copies.push((b % 4) as usize),
                200..=224 => copies.extend([0, (b % 5) as usize]),
                _ => {}
            }
        }
        if cut {
            copies.clear();
        }
        for d in copies {
            self.flying.push(Dg { due: self.frame + 1 + d, c, generation, up, data: data.clone() });
        }
    }

    fn inject(&mut self, src: u16, dst: u8, up: bool, how: u8, at: u16, val: u8) {
        let c = dst as usize;
        let from_history = |s: &Self| (!s.history.is_empty()).then(|| s.history[src as usize % s.history.len()].clone());
        let data = match how {
            0 => from_history(self),
            1 => from_history(self).map(|mut d| {
                let n = at as usize % d.len();
                d[n] ^= 1 << (val % 8);
                d
            }),
            2 => from_history(self).map(|mut d| {
                d.truncate(at as usize % d.len());
                d
            }),
            3 => from_history(self).map(|mut d| {
                d[0] = val;
                d
            }),
            4 => {
                let mut x = (src as u32) << 8 | val as u32 | 1;
                Some((0..at as usize % 1400).map(|i| {
                    x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                    if i == 0 && val & 1 == 1 { (x >> 24) as u8 & 0x8f } else { (x >> 24) as u8 }
                }).collect())
            }
            // from here on: a client that has a token but does not follow the protocol
            5 if up => Some(seal(val % 16, 100_000 + src as u64, &vec![val; at as usize % 400], &self.cli[c].tok.c2s)),
            6 if up => {
                // its own idea of a private token, inside an authentic packet
                let mut b = VERSION.to_vec();
                b.extend(PROTOCOL.to_be_bytes());
                b.extend(u64::MAX.to_be_bytes());
                b.extend([0; 24]);
                b.extend((1 + val as u64 % 4).to_be_bytes());
                b.extend(1i32.to_be_bytes());
                b.extend(1u32.to_be_bytes());
                b.extend([1, 10, 1, 2, 3]);
                b.extend(5000u16.to_be_bytes());
                b.extend([1; 64]);
                b.resize(13 + 8 + 8 + 24 + 1024, 3);
                Some(seal(0, src as u64, &b, &self.cli[c].tok.c2s))
            }
            7 => {
                // an announced sequence no key ever signed
                let mut d = vec![0x80 | (4 + val % 3)];
                d.extend([0xff; 8]);
                d[1] = (0u8).wrapping_sub(at as u8 % 3 + 1);
                d.extend([val; 40]);
                Some(d)
            }
            _ => from_history(self),
        };
        if let Some(d) = data {
            self.injected += 1;
            self.touched[c] = true;
            if how >= 5 && up {
                self.spoofed += 1;
            }
            self.flying.push(Dg { due: self.frame + 1, c: dst, generation: self.cli[c].generation, up, data: d });
        }
    }

    /// Datagrams due now, to the server's links.
    fn arrive(&mut self) -> (Vec<(Entity, Vec<Vec<u8>>)>, Vec<Vec<Vec<u8>>>) {
        let mut down = vec![vec![]; CLIENTS as usize];
        let mut up: HashMap<Entity, Vec<Vec<u8>>> = HashMap::new();
        let (now, frame) = (std::mem::take(&mut self.flying), self.frame);
        let (due, rest): (Vec<Dg>, Vec<Dg>) = now.into_iter().partition(|d| d.due <= frame);
        self.flying = rest;
        for d in due {
            if !d.up {
                let c = &self.cli[d.c as usize];
                if c.generation == d.generation {
                    self.capp.world_mut().get_mut::<Link>(c.e).unwrap().recv.push_raw(BytesMut::from(&d.data[..]));
                    down[d.c as usize].push(d.data);
                }
                continue;
            }
            if !self.srv.running {
                continue;
            }
            let se = self.se;
            let w = self.sapp.world_mut();
            let k = (d.c, d.generation);
            let e = match self.addr.get(&k).copied().filter(|e| w.get_entity(*e).is_ok()) {
                Some(e) => e,
                None => {
                    let e = w.spawn((LinkOf { server: se }, Link::default(), Linked)).id();
                    w.flush();
                    self.addr.insert(k, e);
                    self.srv.links.insert(e, SLink::default());
                    e
                }
            };
            w.get_mut::<Link>(e).unwrap().recv.push_raw(BytesMut::from(&d.data[..]));
            up.entry(e).or_default().push(d.data);
        }
        let order: Vec<Entity> = self.sapp.world().get::<Server>(self.se).map(|s| s.collection().to_vec()).unwrap_or_default();
        (order.into_iter().filter_map(|e| up.remove(&e).map(|v| (e, v))).collect(), down)
    }

    fn check_out(&mut self, what: &str, got: &[Bytes], want: &[(u64, Out)], seqs: &mut HashSet<(u64, u64)>, tok: Option<&Public>) -> Res {
        for (i, d) in got.iter().enumerate() {
            let Some((attempt, w)) = want.get(i) else {
                let known = self.cli.iter().any(|c| open(d, &c.tok.s2c).is_some() || open(d, &c.tok.c2s).is_some()) || d.first() == Some(&0);
                ensure!(known, "plaintext", "{what}: a datagram of {} bytes that no key opens", d.len());
                return Err(Fail::new("extra-datagram", format!("{what}: {} datagrams, expected {want:?}", got.len())));
            };
            let (key, kind) = match w {
                Out::Request => {
                    let t = tok.unwrap();
                    let mut e = vec![0];
                    e.extend(VERSION);
                    e.extend(t.protocol.to_be_bytes());
                    e.extend(t.expire.to_be_bytes());
                    e.extend(&t.nonce);
                    e.extend(&t.private);
                    ensure!(d[..] == e[..], "request", "{what}: request of {} bytes", d.len());
                    continue;
                }
                Out::Denied(k, _) => (k, 1),
                Out::Challenge(k, _) => (k, 2),
                Out::Response(k, _) => (k, 3),
                Out::KeepAlive(k, _) => (k, 4),
                Out::Payload(k, _) => (k, 5),
                Out::Disconnect(k) => (k, 6),
            };
            let protocol_ok = tok.is_none_or(|t| t.protocol == PROTOCOL);
            if !protocol_ok {
                continue;
            }
            let Some((k, seq, body)) = open(d, key) else {
                return Err(Fail::new("unreadable", format!("{what}: datagram {i} of {} bytes does not open with the session key, expected {w:?}", d.len())));
            };
            ensure_eq!(k, kind, "kind", "{what}: datagram {i}, expected {w:?} of {want:?}");
            ensure!(kind < 3 || seqs.insert((*attempt, seq)), "nonce-reuse", "{what}: sequence {seq} used twice under one key");
            match w {
                Out::Denied(_, r) => ensure_eq!(body, denial_bytes(r), "denial", "{what}"),
                Out::Challenge(_, id) => {
                    ensure_eq!(body.len(), 308, "challenge", "{what}");
                    ensure!(self.srv.issued.insert(body.clone(), *id).is_none(), "challenge-repeated", "{what}");
                }
                Out::Response(_, b) => ensure_eq!(&body, b, "response", "{what}"),
                Out::KeepAlive(_, id) => {
                    ensure_eq!(body.len(), 8, "keep-alive", "{what}");
                    if let Some(id) = id {
                        ensure_eq!(body, id.to_be_bytes().to_vec(), "keep-alive", "{what}");
                    }
                }
                Out::Payload(_, p) => ensure!(&body == p, "payload-altered", "{what}: {} bytes for {}", body.len(), p.len()),
                _ => {}
            }
        }
        ensure_eq!(got.len(), want.len(), "missing-datagram", "{what}: expected {want:?}");
        Ok(())
    }

    fn step(&mut self, f: &Frame, quiet: bool) -> Res {
        let dt = Duration::from_nanos(15_625_000 * f.dt as u64);
        let dts = dt.as_secs_f64();
        let (up, down) = self.arrive();
        self.srv.receive(dts, &up);
        for (c, d) in self.cli.iter_mut().zip(&down) {
            c.receive(dts, d);
        }
        // operations happen in Update
        let mut pushed_up: Vec<Vec<Vec<u8>>> = vec![vec![]; CLIENTS as usize];
        let mut pushed_down: HashMap<Entity, Vec<Vec<u8>>> = HashMap::new();
        let mut restart = false;
        let mut injections = vec![];
        for op in &f.ops {
            match op {
                Op::Connect(i) => {
                    let c = &mut self.cli[*i as usize];
                    if c.mark != Mark::Connected {
                        let entity = c.e;
                        c.connect();
                        c.mark = Mark::Connecting;
                        self.capp.world_mut().resource_mut::<Io>().todo.push(Box::new(move |w| w.trigger(Connect { entity })));
                        *self.stats.entry("attempts").or_default() += 1;
                    }
                }
                Op::Disconnect(i) => {
                    let c = &mut self.cli[*i as usize];
                    if c.mark != Mark::Disconnected {
                        let (entity, k) = (c.e, c.tok.c2s);
                        let n = c.attempt;
                        c.queue.extend((0..10).map(|_| (n, Out::Disconnect(k))));
                        c.stop();
                        self.capp.world_mut().resource_mut::<Io>().todo.push(Box::new(move |w| w.trigger(Disconnect { entity })));
                    }
                }
                Op::Renew(i, t) => {
                    let c = &mut self.cli[*i as usize];
                    if c.mark == Mark::Disconnected && c.queue.is_empty() {
                        let (n, p) = client(t);
                        let e = c.e;
                        let g = c.generation;
                        *c = Cli::new(e, *t, p);
                        c.generation = g;
                        self.capp.world_mut().resource_mut::<Io>().todo.push(Box::new(move |w| {
                            w.entity_mut(e).insert(n);
                        }));
                    }
                }
                Op::Rebind(i) => self.cli[*i as usize].generation += 1,
                Op::Send(i, n, s) => {
                    let p: Vec<u8> = (0..*s).map(|k| (k as u8).wrapping_mul(3).wrapping_add(*n)).collect();
                    let e = self.cli[*i as usize].e;
                    pushed_up[*i as usize].push(p.clone());
                    self.capp.world_mut().resource_mut::<Io>().todo.push(Box::new(move |w| w.get_mut::<Link>(e).unwrap().send.push(Bytes::from(p))));
                }
                Op::Reply(i, n, s) => {
                    let p: Vec<u8> = (0..*s).map(|k| (k as u8).wrapping_mul(5).wrapping_add(*n)).collect();
                    let Some(&e) = self.addr.get(&(*i, self.cli[*i as usize].generation)) else { continue };
                    if self.srv.links.contains_key(&e) {
                        pushed_down.entry(e).or_default().push(p.clone());
                        self.sapp.world_mut().resource_mut::<Io>().todo.push(Box::new(move |w| {
                            if let Some(mut l) = w.get_mut::<Link>(e) {
                                l.send.push(Bytes::from(p));
                            }
                        }));
                    }
                }
                Op::Cut(i, up, on) => self.cut[*i as usize][*up as usize] = *on,
                Op::Stop => {
                    if self.srv.running && !self.srv.stopping {
                        self.srv.stop();
                        let entity = self.se;
                        self.sapp.world_mut().resource_mut::<Io>().todo.push(Box::new(move |w| w.trigger(Stop { entity })));
                    }
                }
                Op::Start => restart |= !self.srv.running,
                Op::Inject { src, dst, up, how, at, val } => injections.push((*src, *dst, *up, *how, *at, *val)),
            }
        }
        if restart {
            self.srv.running = true;
            let entity = self.se;
            self.sapp.world_mut().resource_mut::<Io>().todo.push(Box::new(move |w| {
                w.trigger(Start { entity });
                w.entity_mut(entity).insert(Linked);
            }));
        }
        // run
        tick(&mut self.sapp, dt);
        tick(&mut self.capp, dt);
        self.check_server(&pushed_down)?;
        self.check_clients(&pushed_up)?;
        // network
        let sent: HashMap<Entity, Vec<Bytes>> = std::mem::take(&mut self.sapp.world_mut().resource_mut::<Io>().sent);
        let mut at: Vec<(u8, u8, Entity)> = self.addr.iter().map(|(k, e)| (k.0, k.1, *e)).collect();
        at.sort();
        for (c, g, e) in at {
            for d in sent.get(&e).into_iter().flatten() {
                if g == self.cli[c as usize].generation {
                    self.launch(c, false, d.to_vec(), quiet);
                }
            }
        }
        let sent: HashMap<Entity, Vec<Bytes>> = std::mem::take(&mut self.capp.world_mut().resource_mut::<Io>().sent);
        for i in 0..CLIENTS {
            let e = self.cli[i as usize].e;
            for d in sent.get(&e).into_iter().flatten() {
                self.launch(i, true, d.to_vec(), quiet);
            }
        }
        for (src, dst, up, how, at, val) in injections {
            self.inject(src, dst, up, how, at, val);
        }
        self.frame += 1;
        Ok(())
    }

    fn check_server(&mut self, pushed: &HashMap<Entity, Vec<Vec<u8>>>) -> Res {
        let (got, sent) = {
            let mut io = self.sapp.world_mut().resource_mut::<Io>();
            (std::mem::take(&mut io.got), io.sent.clone())
        };
        let fr = self.frame;
        let links: Vec<Entity> = self.srv.links.keys().copied().collect();
        for e in links {
            let want = if self.srv.running { self.srv.send(e, pushed.get(&e).map_or(&[][..], |v| v)).into_iter().map(|o| (0, o)).collect() } else { vec![] };
            let what = format!("frame {fr}, server link {e}");
            let id = self.srv.owner.get(&e).copied();
            let mut seqs = id.and_then(|i| self.srv.conns.get_mut(&i)).map(|c| std::mem::take(&mut c.seqs)).unwrap_or_default();
            self.check_out(&what, sent.get(&e).map_or(&[][..], |v| v), &want, &mut seqs, None)?;
            if let Some(c) = id.and_then(|i| self.srv.conns.get_mut(&i)) {
                c.seqs = seqs;
            }
            let l = self.srv.links.get_mut(&e).unwrap();
            let p = std::mem::take(&mut l.payloads);
            ensure!(got.get(&e).cloned().unwrap_or_default() == p, "payloads", "{what}: received {:?}, expected {p:?}", got.get(&e));
            *self.stats.entry("payloads up").or_default() += p.len() as u64;
        }
        // clients that were told about the stop are gone at the end of the frame
        self.srv.links.retain(|_, l| !l.disconnecting);
        let w = self.sapp.world();
        for e in got.keys().chain(sent.keys()) {
            ensure!(self.srv.links.contains_key(e) || w.get_entity(*e).is_err() || *e == self.se, "unknown-link", "frame {fr}: traffic on {e}");
        }
        for (k, e) in &self.addr {
            let alive = w.get_entity(*e).ok();
            let want = self.srv.links.get(e);
            ensure_eq!(alive.is_some(), want.is_some(), "link", "frame {fr}: link {e} of client {}: {want:?}", k.0);
            let (Some(r), Some(l)) = (alive, want) else { continue };
            let marks = (r.contains::<Connecting>(), r.contains::<Connected>(), r.contains::<Disconnecting>(), r.contains::<Disconnected>());
            ensure_eq!(marks, (l.connecting && l.connected.is_none(), l.connected.is_some(), false, false), "server-state", "frame {fr}: link {e} of client {}: {l:?}", k.0);
            if let Some((id, user)) = &l.connected {
                ensure_eq!(r.get::<RemoteId>().map(|i| i.0), Some(PeerId::Netcode(*id)), "identity", "frame {fr}: link {e}");
                ensure_eq!(r.get::<LocalId>().map(|i| i.0), Some(PeerId::Server), "identity", "frame {fr}: link {e}");
                ensure!(r.get::<TokenUserData>().is_some_and(|u| u.0[..] == user[..]), "user-data", "frame {fr}: link {e} of {id}");
            }
        }
        let n = self.srv.links.values().filter(|l| l.connected.is_some()).count();
        ensure!(n <= self.srv.max, "capacity", "frame {fr}: {n} clients of at most {}", self.srv.max);
        ensure_eq!(w.get::<Started>(self.se).is_some(), self.srv.running && !self.srv.stopping, "started", "frame {fr}");
        ensure_eq!(w.get::<Stopped>(self.se).is_some(), !self.srv.running, "stopped", "frame {fr}");
        Ok(())
    }

    fn check_clients(&mut self, pushed: &[Vec<Vec<u8>>]) -> Res {
        let (got, sent) = {
            let mut io = self.capp.world_mut().resource_mut::<Io>();
            (std::mem::take(&mut io.got), io.sent.clone())
        };
        for i in 0..self.cli.len() {
            let what = format!("frame {}, client {i}", self.frame);
            let c = &mut self.cli[i];
            let mut want = vec![];
            if c.state == CState::Connected {
                for p in pushed[i].iter().filter(|p| p.len() <= MAX_PAYLOAD) {
                    want.push((c.attempt, Out::Payload(c.tok.c2s, p.clone())));
                    c.last_send = c.time;
                }
            }
            want.append(&mut c.queue);
            let (e, tok, mut seqs) = (c.e, c.tok.clone(), std::mem::take(&mut c.seqs));
            let p = std::mem::take(&mut c.payloads);
            self.check_out(&what, sent.get(&e).map_or(&[][..], |v| v), &want, &mut seqs, Some(&tok))?;
            let c = &mut self.cli[i];
            c.seqs = seqs;
            ensure!(got.get(&e).cloned().unwrap_or_default() == p, "payloads", "{what}: received {:?}, expected {p:?}", got.get(&e));
            *self.stats.entry("payloads down").or_default() += p.len() as u64;
            let w = self.capp.world();
            let r = w.entity(e);
            let marks = [
                (r.contains::<Connecting>(), Mark::Connecting),
                (r.contains::<Connected>(), Mark::Connected),
                (r.contains::<Disconnected>(), Mark::Disconnected),
            ];
            let m: Vec<Mark> = marks.iter().filter(|m| m.0).map(|m| m.1).collect();
            ensure_eq!(m, vec![c.mark], "client-state", "{what} in {:?} ({:?})", c.state, r.get::<NetcodeClient>().map(|n| n.inner.state()));
            if c.mark == Mark::Connected {
                ensure_eq!(r.get::<RemoteId>().map(|i| i.0), Some(PeerId::Server), "identity", "{what}");
                ensure_eq!(r.get::<LocalId>().map(|i| i.0), Some(PeerId::Netcode(c.spec.id as u64)), "identity", "{what}");
            }
        }
        Ok(())
    }
}

fn client(t: &Tok) -> (NetcodeClient, Public) {
    let mut token = make_token(t);
    let mut bytes = token.clone().try_into_bytes().unwrap();
    if let Some(bit) = t.flip {
        bytes[bit as usize / 8] ^= 1 << (bit % 8);
        // (whether it has to be refused is checked in C27/token)
        match ConnectToken::try_from_bytes(&bytes) {
            Ok(altered) => token = altered,
            Err(_) => bytes = token.clone().try_into_bytes().unwrap(),
        }
    }
    let p = parse_token(&bytes).expect("token layout");
    (NetcodeClient::new(Authentication::Token(token), ClientConfig::default()).unwrap(), p)
}

// ------------------------------------------------------------------------------ tokens

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TokenCase {
    id: u64,
    protocol: u64,
    timeout: i32,
    expire: i32,
    addrs: Vec<(bool, u128, u16)>,
    internal: Option<Vec<(bool, u128, u16)>>,
    user: u8,
    key: u8,
    how: u8,
    muts: Vec<(u16, u8)>,
    cut: u16,
    garbage: Vec<u8>,
}

fn token_case() -> BoxedStrategy<TokenCase> {
    let addr = (any::<bool>(), any::<u128>(), any::<u16>());
    let n = prop_oneof![4 => 1usize..4, 1 => 30usize..36];
    let addrs = n.clone().prop_flat_map({
        let addr = addr.clone();
        move |n| vec(addr.clone(), n)
    });
    let internal = proptest::option::of(n.prop_flat_map(move |n| vec(addr.clone(), n)));
    (
        (any::<u64>(), any::<u64>(), prop_oneof![any::<i32>(), -1i32..20], prop_oneof![any::<i32>(), -1i32..60]),
        (addrs, internal, any::<u8>(), any::<u8>()),
        (0u8..8, vec((0u16..1300, any::<u8>()), 0..4), any::<u16>(), vec(any::<u8>(), 0..200)),
    )
        .prop_map(|((id, protocol, timeout, expire), (addrs, internal, user, key), (how, muts, cut, garbage))| TokenCase {
            id,
            protocol,
            timeout,
            expire,
            addrs,
            internal,
            user,
            key,
            how,
            muts,
            cut,
            garbage,
        })
        .boxed()
}

fn socket((v6, ip, port): &(bool, u128, u16)) -> SocketAddr {
    if *v6 {
        SocketAddr::from((std::net::Ipv6Addr::from(*ip), *port))
    } else {
        SocketAddr::from((std::net::Ipv4Addr::from(*ip as u32), *port))
    }
}

fn token_check(c: &TokenCase, obs: &mut Obs) -> Res {
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let addrs: Vec<SocketAddr> = c.addrs.iter().map(socket).collect();
    let internal: Option<Vec<SocketAddr>> = c.internal.as_ref().map(|v| v.iter().map(socket).collect());
    let key = [c.key; 32];
    let before = now();
    let (token, user, want_internal) = match c.how {
        0 => {
            let t = Authentication::Manual { server_addr: addrs[0], client_id: c.id, private_key: key, protocol_id: c.protocol }.get_token(c.timeout, c.expire);
            (t, [0; 256], vec![addrs[0]])
        }
        1 => {
            let mut s = lightyear_netcode::Server::new(c.protocol, key).unwrap();
            let t = s.token(c.id, addrs[0]).timeout_seconds(c.timeout).expire_seconds(c.expire).user_data(user_data(c.user)).generate();
            (t, user_data(c.user), vec![addrs[0]])
        }
        _ => {
            let b = ConnectToken::build(&addrs[..], c.protocol, c.id, key).timeout_seconds(c.timeout).expire_seconds(c.expire).user_data(user_data(c.user));
            let b = match &internal {
                Some(i) => b.internal_addresses(&i[..]).unwrap(),
                None => b,
            };
            (b.generate(), user_data(c.user), internal.clone().unwrap_or(addrs.clone()))
        }
    };
    let token = token.map_err(|e| Fail::new("generate", format!("{e}")))?;
    let after = now();
    let public: Vec<SocketAddr> = if c.how < 2 { vec![addrs[0]] } else { addrs.iter().take(32).copied().collect() };
    let want_internal: Vec<SocketAddr> = want_internal.into_iter().take(32).collect();
    let announced = token.expire_timestamp();
    let bytes = token.clone().try_into_bytes().map_err(|e| Fail::new("encode", format!("{e}")))?;
    let Some(p) = parse_token(&bytes) else { return Err(Fail::new("layout", "the token's bytes do not follow the netcode standard")) };
    ensure_eq!(p.protocol, c.protocol, "public", "token");
    ensure!((before..=after).contains(&p.create), "public", "created at {} between {before} and {after}", p.create);
    ensure_eq!(p.expire, if c.expire < 0 { u64::MAX } else { p.create + c.expire as u64 }, "expiry", "{} s", c.expire);
    ensure_eq!(p.expire, announced, "expiry", "token");
    ensure_eq!(p.timeout, c.timeout, "public", "token");
    ensure_eq!(p.addrs, public, "addresses", "token");
    let mut private = p.private[..1024 - MAC].to_vec();
    let mut a = VERSION.to_vec();
    a.extend(c.protocol.to_be_bytes());
    a.extend(p.expire.to_be_bytes());
    let opened = XChaCha20Poly1305::new((&key).into()).decrypt_in_place_detached(
        XNonce::from_slice(&p.nonce),
        &a,
        &mut private,
        Tag::from_slice(&p.private[1024 - MAC..]),
    );
    ensure!(opened.is_ok(), "private", "the private part does not open with the server's key");
    let Some(v) = parse_private(&private) else { return Err(Fail::new("private", "layout of the private part")) };
    ensure_eq!((v.id, v.timeout), (c.id, c.timeout), "private", "token");
    ensure_eq!(v.addrs, want_internal, "addresses", "internal");
    ensure!(v.c2s == p.c2s && v.s2c == p.s2c && v.c2s != v.s2c, "keys", "keys of the public and private part");
    ensure!(v.user == user, "user-data", "user data");
    let pattern = c.user;
    ensure!(!bytes.windows(40).any(|w| w == &user_data(pattern)[..40]) || c.how == 0, "secrecy", "user data in plaintext");
    // decoding is the inverse, ...
    let again = ConnectToken::try_from_bytes(&bytes).map_err(|e| Fail::new("decode", format!("{e}")))?;
    ensure!(again.try_into_bytes().is_ok_and(|b| b == bytes), "decode", "decoding and encoding changed the token");
    ensure!(NetcodeClient::new(Authentication::Token(token), ClientConfig::default()).is_ok(), "client", "a client refuses a fresh token");
    // ... total, and refuses what is not a token
    let mut damaged = bytes.to_vec();
    for (i, b) in &c.muts {
        damaged[*i as usize] = *b;
    }
    if c.how == 3 {
        damaged.truncate(c.cut as usize % 2048);
    }
    if c.how == 4 {
        let n = (c.cut as usize % 1200).min(1100);
        damaged.truncate(n);
        damaged.extend(&c.garbage);
    }
    let own = parse_token(&damaged).filter(|p| p.create <= p.expire);
    match (ConnectToken::try_from_bytes(&damaged), own) {
        (Ok(t), Some(own)) => {
            let b = t.clone().try_into_bytes().map_err(|e| Fail::new("encode", format!("{e}")))?;
            let q = parse_token(&b).unwrap();
            ensure!(
                (q.protocol, q.create, q.expire, &q.nonce, &q.private, q.timeout, &q.addrs, q.c2s, q.s2c)
                    == (own.protocol, own.create, own.expire, &own.nonce, &own.private, own.timeout, &own.addrs, own.c2s, own.s2c),
                "decode",
                "a damaged token decodes to something else"
            );
            ensure!(NetcodeClient::new(Authentication::Token(t), ClientConfig::default()).is_ok(), "client", "a client refuses a token that decodes");
            obs.label("damage accepted");
        }
        (Err(_), None) => obs.label("damage refused"),
        (Ok(_), None) => return Err(Fail::new("accepted", format!("{} bytes that are no token are accepted", damaged.len()))),
        (Err(e), Some(_)) => return Err(Fail::new("refused", format!("a token is refused: {e}"))),
    }
    let mut g = c.garbage.clone();
    if c.how == 5 {
        g.splice(0..0, VERSION.iter().copied());
    }
    ensure!(ConnectToken::try_from_bytes(&g).is_err(), "accepted", "{} random bytes are a token", g.len());
    obs.nontrivial_if(!c.muts.is_empty() || c.addrs.len() > 1 || c.internal.is_some());
    Ok(())
}

fn run(c: &Case, prop: &'static str, obs: &mut Obs) -> Res {
    let mut s = Sim::new(c);
    let mut both = 0u64;
    for f in &c.frames {
        s.step(f, false)?;
        both += (0..s.cli.len()).filter(|i| s.cli[*i].mark == Mark::Connected).count() as u64;
    }
    // a quiet network: whoever may connect does
    s.flying.clear();
    s.cut = Default::default();
    if !s.srv.running {
        s.step(&Frame { dt: 4, ops: vec![Op::Start] }, true)?;
    }
    let may: Vec<bool> = s
        .cli
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let others = s.cli.iter().filter(|o| o.e != c.e && o.spec.id == c.spec.id).count() == 0;
            !s.touched[i]
                && c.mark == Mark::Connecting
                && c.state == CState::Request
                && match c.spec.kind {
                    0 => !s.srv.check_addr || s.srv.addrs.iter().any(|a| is_for(*a, server_addr())),
                    k @ 5.. => !s.srv.check_addr || s.srv.addrs.iter().any(|a| is_for(*a, local(k - 5))),
                    _ => false,
                }
                && c.spec.flip.is_none()
                && c.spec.expire == 1
                && (c.tok.timeout <= 0 || c.last_recv + c.tok.timeout as f64 > c.time + 0.9)
                && others
                && denial(s.srv.banned, c.spec.id as u64).is_none()
                && s.srv.count() + s.cli.len() <= s.srv.max
                && s.srv.conns.get(&(c.spec.id as u64)).is_none_or(|x| !x.connected)
                && s.srv.conns.values().all(|x| !x.connected || s.addr.values().any(|e| *e == x.e))
                && s.addr.get(&(s.cli.iter().position(|o| o.e == c.e).unwrap() as u8, c.generation)).is_none_or(|e| {
                    s.srv.owner.get(e).and_then(|i| s.srv.conns.get(i)).is_none_or(|x| !x.connected)
                })
        })
        .collect();
    let stopping = s.srv.stopping;
    for _ in 0..QUIET {
        s.step(&Frame { dt: 4, ops: vec![] }, true)?;
    }
    for (i, m) in may.iter().enumerate() {
        if *m && !stopping {
            ensure_eq!(s.cli[i].mark, Mark::Connected, "never-connects", "client {i} over a quiet network");
            obs.count("sessions that had to be established", 1);
        }
    }
    for (k, v) in s.stats.iter().chain(&s.srv.stats) {
        obs.count(k, *v);
    }
    obs.count("injected datagrams", s.injected);
    let n = s.srv.stats.get("connections").copied().unwrap_or(0);
    let lost = ["time-outs", "full", "refused", "full at response"].iter().filter_map(|k| s.srv.stats.get(k)).sum::<u64>();
    obs.nontrivial_if(match prop {
        "C25" => s.injected > 2 && n > 0,
        "C26" => n > 0 && lost > 0,
        "C27" => s.stats.get("attempts").is_some_and(|a| *a > 0) && c.toks.iter().any(|t| t.flip.is_some()),
        _ => n > 0 && both > 3,
    });
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C24", "session", 8_000, 200_000, || case(0), |c: &Case, o| run(c, "C24", o)),
        sub("C25", "hostile", 8_000, 200_000, || case(1), |c: &Case, o| run(c, "C25", o)),
        sub("C27", "token", 15_000, 400_000, token_case, token_check),
        sub("C27", "altered", 3_000, 100_000, || case(3), |c: &Case, o| run(c, "C27", o)),
        sub("C26", "limits", 8_000, 200_000, || case(2), |c: &Case, o| run(c, "C26", o)),
    ]
}
