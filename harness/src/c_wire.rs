//! C01 wire round trips, C02 decoders are total and bounded.

use crate::fw::{Fail, Obs, Res, Sub, bx, sub};
use crate::util::*;
use crate::{ensure, ensure_eq};
use bevy_ecs::entity::{Entity, EntityGeneration, EntityIndex};
use bevy_platform::collections::HashMap;
use bytes::Bytes;
use lightyear_connection::network_target::{NetworkTarget, Target};
use lightyear_core::id::PeerId;
use lightyear_core::tick::Tick;
use lightyear_core::time::{Overstep, PositiveTickDelta, TickDelta};
use lightyear_serde::ToBytes;
use lightyear_serde::reader::{ReadInteger, ReadVarInt, Reader};
use lightyear_serde::registry::SerializeFns;
use lightyear_serde::varint::varint_len;
use lightyear_serde::writer::{WriteInteger, Writer};
use lightyear_sync::ping::message::{Ping, Pong};
use lightyear_sync::ping::store::PingId;
use lightyear_transport::packet::PacketId;
use lightyear_transport::packet::message::MessageId;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use smallvec::SmallVec;
use std::fmt::Debug;
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};

/// A serialisable description of a value of one of the wire types.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Val {
    U8(u8),
    U16(u16),
    Bytes(Vec<u8>),
    OptU16(Option<u16>),
    OptBytes(Option<Vec<u8>>),
    OptOpt(Option<Option<u8>>),
    Pair(u16, Vec<u8>),
    Triple(u32, (u32, u32, bool), Peer),
    Eight(u8, u16, u8, u16, u8, u16, u8, u16),
    VecU16(Vec<u16>),
    VecVec(Vec<Vec<u8>>),
    SmallTicks(Vec<u32>),
    SmallEnts(Vec<(u32, u32, bool)>),
    Map(Vec<(u16, Vec<u8>)>),
    PeerMap(Vec<(Peer, u32)>),
    Ent(u32, u32, bool),
    Tick(u32),
    Overstep(u8),
    PosDelta(u32, u8),
    Peer(Peer),
    Target(Tgt),
    Ping(u16),
    Pong(u16, u32, u8),
    Message(u16),
    Packet(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Peer {
    Entity(u64),
    V4([u8; 4], u16),
    V6([u16; 8], u16),
    Netcode(u64),
    Steam(u64),
    Local(u64),
    Server,
}

impl Peer {
    pub fn get(&self) -> PeerId {
        match self {
            Peer::Entity(x) => PeerId::Entity(*x),
            Peer::V4(a, p) => PeerId::Raw(SocketAddr::from((Ipv4Addr::from(*a), *p))),
            Peer::V6(a, p) => PeerId::Raw(SocketAddr::from((Ipv6Addr::from(*a), *p))),
            Peer::Netcode(x) => PeerId::Netcode(*x),
            Peer::Steam(x) => PeerId::Steam(*x),
            Peer::Local(x) => PeerId::Local(*x),
            Peer::Server => PeerId::Server,
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Tgt {
    None,
    AllExceptSingle(Peer),
    AllExcept(Vec<Peer>),
    All,
    Only(Vec<Peer>),
    Single(Peer),
}

impl Tgt {
    pub fn get(&self) -> NetworkTarget {
        let l = |v: &Vec<Peer>| v.iter().map(|p| p.get()).collect();
        match self {
            Tgt::None => Target::None,
            Tgt::AllExceptSingle(p) => Target::AllExceptSingle(p.get()),
            Tgt::AllExcept(v) => Target::AllExcept(l(v)),
            Tgt::All => Target::All,
            Tgt::Only(v) => Target::Only(l(v)),
            Tgt::Single(p) => Target::Single(p.get()),
        }
    }
}

pub fn peer() -> BoxedStrategy<Peer> {
    prop_oneof![
        edgy_u64(u64::MAX).prop_map(Peer::Entity),
        (any::<[u8; 4]>(), edgy_u16()).prop_map(|(a, p)| Peer::V4(a, p)),
        (any::<[u16; 8]>(), edgy_u16()).prop_map(|(a, p)| Peer::V6(a, p)),
        edgy_u64(u64::MAX).prop_map(Peer::Netcode),
        edgy_u64(u64::MAX).prop_map(Peer::Steam),
        edgy_u64(u64::MAX).prop_map(Peer::Local),
        Just(Peer::Server),
    ]
    .boxed()
}

fn tgt() -> BoxedStrategy<Tgt> {
    prop_oneof![
        Just(Tgt::None),
        peer().prop_map(Tgt::AllExceptSingle),
        vec(peer(), 0..9).prop_map(Tgt::AllExcept),
        Just(Tgt::All),
        vec(peer(), 0..9).prop_map(Tgt::Only),
        peer().prop_map(Tgt::Single),
    ]
    .boxed()
}

fn bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => vec(any::<u8>(), 0..12),
        2 => vec(any::<u8>(), 60..70),
        1 => (16380usize..16390, any::<u8>()).prop_map(|(n, b)| vec![b; n]),
    ]
    .boxed()
}

/// (index, generation, marked): the index excludes u32::MAX and the generation the marker bit.
fn ent() -> BoxedStrategy<(u32, u32, bool)> {
    (
        edgy_u64(u32::MAX as u64 - 1),
        edgy_u64((1 << 31) - 1),
        any::<bool>(),
    )
        .prop_map(|(i, g, m)| (i as u32, g as u32, m))
        .boxed()
}

pub fn mk_ent(e: &(u32, u32, bool)) -> Entity {
    let base = Entity::from_index_and_generation(
        EntityIndex::from_raw_u32(e.0).unwrap(),
        EntityGeneration::from_bits(e.1),
    );
    if e.2 {
        Entity::from_bits(base.to_bits() | 1 << 63)
    } else {
        base
    }
}

fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        any::<u8>().prop_map(Val::U8),
        edgy_u16().prop_map(Val::U16),
        bytes().prop_map(Val::Bytes),
        proptest::option::of(edgy_u16()).prop_map(Val::OptU16),
        proptest::option::of(bytes()).prop_map(Val::OptBytes),
        proptest::option::of(proptest::option::of(any::<u8>())).prop_map(Val::OptOpt),
        (edgy_u16(), bytes()).prop_map(|(a, b)| Val::Pair(a, b)),
        (edgy_u32(), ent(), peer()).prop_map(|(a, b, c)| Val::Triple(a, b, c)),
        (any::<u8>(), edgy_u16(), any::<u8>(), edgy_u16(), any::<u8>(), edgy_u16(), any::<u8>(), edgy_u16())
            .prop_map(|(a, b, c, d, e, f, g, h)| Val::Eight(a, b, c, d, e, f, g, h)),
        vec(edgy_u16(), 0..80).prop_map(Val::VecU16),
        vec(bytes(), 0..6).prop_map(Val::VecVec),
        vec(edgy_u32(), 0..9).prop_map(Val::SmallTicks),
        vec(ent(), 0..9).prop_map(Val::SmallEnts),
        vec((edgy_u16(), bytes()), 0..8).prop_map(Val::Map),
        vec((peer(), edgy_u32()), 0..8).prop_map(Val::PeerMap),
        ent().prop_map(|(a, b, c)| Val::Ent(a, b, c)),
        edgy_u32().prop_map(Val::Tick),
        any::<u8>().prop_map(Val::Overstep),
        (edgy_u32(), any::<u8>()).prop_map(|(a, b)| Val::PosDelta(a, b)),
        peer().prop_map(Val::Peer),
        tgt().prop_map(Val::Target),
        edgy_u16().prop_map(Val::Ping),
        (edgy_u16(), edgy_u32(), any::<u8>()).prop_map(|(a, b, c)| Val::Pong(a, b, c)),
        edgy_u16().prop_map(Val::Message),
        edgy_u16().prop_map(Val::Packet),
    ]
    .boxed()
}

fn pos_delta(t: u32, o: u8) -> PositiveTickDelta {
    use lightyear_core::time::TickInstant;
    let inst = TickInstant::from_tick_and_overstep(Tick(t), Overstep::from_u8(o));
    PositiveTickDelta { value: inst.value }
}

/// Comparable projection of a decoded value: `Pong` has no equality of its own.
trait Eqv: ToBytes + Debug {
    fn eqv(&self, o: &Self) -> bool;
}
macro_rules! eqv {
    ($($t:ty),* $(,)?) => { $(impl Eqv for $t { fn eqv(&self, o: &Self) -> bool { self == o } })* };
}
eqv!(
    u8,
    u16,
    Bytes,
    Option<u16>,
    Option<Bytes>,
    Option<Option<u8>>,
    (u16, Bytes),
    (Tick, Entity, PeerId),
    (u8, u16, u8, u16, u8, u16, u8, u16),
    Vec<u16>,
    Vec<Bytes>,
    SmallVec<[Tick; 4]>,
    SmallVec<[Entity; 2]>,
    HashMap<u16, Bytes>,
    HashMap<PeerId, Tick>,
    Entity,
    Tick,
    Overstep,
    PositiveTickDelta,
    PeerId,
    NetworkTarget,
    Ping,
    MessageId,
    PacketId,
);
impl Eqv for Pong {
    fn eqv(&self, o: &Self) -> bool {
        self.ping_id == o.ping_id && self.frame_time == o.frame_time
    }
}

fn rt<T: Eqv>(v: &T, tail: &[u8], cuts: &[usize], out: &mut Writer, obs: &mut Obs) -> Res {
    let before = out.len();
    v.to_bytes(out)
        .map_err(|e| Fail::new("encode-error", format!("{v:?} does not encode: {e}")))?;
    let len = out.len() - before;
    ensure_eq!(v.bytes_len(), len, "length", "announced length of {v:?} is not the written one");
    let all = out.as_mut()[before..].to_vec();
    // what follows a value never changes how it decodes
    let mut framed = all.clone();
    framed.extend_from_slice(tail);
    let mut r = Reader::from(framed);
    let back = T::from_bytes(&mut r)
        .map_err(|e| Fail::new("decode-error", format!("{v:?} does not decode back: {e}")))?;
    ensure!(back.eqv(v), "roundtrip", "{v:?} came back as {back:?} ({})", hex(&all));
    ensure_eq!(r.position() as usize, len, "consumed", "decoding {v:?} consumed the wrong length");
    ensure_eq!(r.remaining(), tail.len(), "consumed", "bytes left after {v:?}");
    // a truncated encoding is reported, never completed
    for c in cuts {
        if len == 0 {
            break;
        }
        let n = c % len;
        let mut r = Reader::from(all[..n].to_vec());
        if let Ok(x) = T::from_bytes(&mut r) {
            return Err(Fail::new(
                "truncated-accepted",
                format!("{n} of {len} bytes of {v:?} decode to {x:?}"),
            ));
        }
    }
    // a second writer type gives the same bytes
    let mut plain: Vec<u8> = Vec::new();
    v.to_bytes(&mut plain)
        .map_err(|e| Fail::new("encode-error", format!("{e}")))?;
    ensure_eq!(plain, all, "writer-dependent", "bytes depend on the writer for {v:?}");
    obs.nontrivial_if(len > 1);
    Ok(())
}

fn rt_val(v: &Val, tail: &[u8], cuts: &[usize], w: &mut Writer, obs: &mut Obs) -> Res {
    let by = |b: &Vec<u8>| Bytes::from(b.clone());
    macro_rules! go {
        ($e:expr) => {
            rt(&$e, tail, cuts, w, obs)
        };
    }
    match v {
        Val::U8(x) => go!(*x),
        Val::U16(x) => go!(*x),
        Val::Bytes(b) => go!(by(b)),
        Val::OptU16(x) => go!(*x),
        Val::OptBytes(x) => go!(x.as_ref().map(by)),
        Val::OptOpt(x) => go!(*x),
        Val::Pair(a, b) => go!((*a, by(b))),
        Val::Triple(t, e, p) => go!((Tick(*t), mk_ent(e), p.get())),
        Val::Eight(a, b, c, d, e, f, g, h) => go!((*a, *b, *c, *d, *e, *f, *g, *h)),
        Val::VecU16(x) => {
            // both list types have one wire format
            let mut a = Writer::default();
            x.to_bytes(&mut a).unwrap();
            let mut b = Writer::default();
            let s: SmallVec<[u16; 4]> = x.iter().copied().collect();
            s.to_bytes(&mut b).unwrap();
            ensure_eq!(a.into_bytes(), b.into_bytes(), "smallvec-format", "list formats differ");
            go!(x.clone())
        }
        Val::VecVec(x) => go!(x.iter().map(by).collect::<Vec<_>>()),
        Val::SmallTicks(x) => go!(x.iter().map(|t| Tick(*t)).collect::<SmallVec<[Tick; 4]>>()),
        Val::SmallEnts(x) => go!(x.iter().map(mk_ent).collect::<SmallVec<[Entity; 2]>>()),
        Val::Map(x) => go!(x.iter().map(|(k, v)| (*k, by(v))).collect::<HashMap<_, _>>()),
        Val::PeerMap(x) => {
            go!(x.iter().map(|(k, v)| (k.get(), Tick(*v))).collect::<HashMap<_, _>>())
        }
        Val::Ent(a, b, c) => go!(mk_ent(&(*a, *b, *c))),
        Val::Tick(t) => go!(Tick(*t)),
        Val::Overstep(o) => {
            ensure_eq!(Overstep::from_u8(*o).to_u8(), *o, "overstep", "quantised overstep");
            go!(Overstep::from_u8(*o))
        }
        Val::PosDelta(t, o) => go!(pos_delta(*t, *o)),
        Val::Peer(p) => go!(p.get()),
        Val::Target(t) => go!(t.get()),
        Val::Ping(x) => go!(Ping { id: PingId(*x) }),
        Val::Pong(a, b, c) => go!(Pong { ping_id: PingId(*a), frame_time: pos_delta(*b, *c) }),
        Val::Message(x) => go!(MessageId(*x)),
        Val::Packet(x) => go!(PacketId(*x)),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RoundTrip {
    vals: Vec<Val>,
    tail: Vec<u8>,
    cuts: Vec<usize>,
    /// after which values the writer hands over what it holds
    split: Vec<bool>,
}

fn round_trip(c: &RoundTrip, obs: &mut Obs) -> Res {
    // one writer reused for a sequence of values, as senders do
    let mut w = Writer::with_capacity(10);
    let mut pieces: Vec<Bytes> = Vec::new();
    let mut plain: Vec<u8> = Vec::new();
    for (i, v) in c.vals.iter().enumerate() {
        let before = w.len();
        rt_val(v, &c.tail, &c.cuts, &mut w, obs)?;
        plain.extend_from_slice(&w.as_mut()[before..]);
        if c.split.get(i).copied().unwrap_or(false) {
            pieces.push(w.take_written());
            ensure!(w.is_empty(), "take-written", "writer still holds bytes after handing them over");
        }
    }
    pieces.push(w.take_written());
    // bytes handed over earlier are not altered by what is written later
    let joined: Vec<u8> = pieces.iter().flat_map(|p| p.iter().copied()).collect();
    ensure_eq!(joined, plain, "writer-reuse", "bytes handed over changed");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct VarCase {
    v: u64,
    tail: Vec<u8>,
}

fn varint(c: &VarCase, obs: &mut Obs) -> Res {
    let mut w = Writer::default();
    w.write_varint(c.v)
        .map_err(|e| Fail::new("encode-error", e.to_string()))?;
    let b = w.into_bytes();
    ensure_eq!(b.len(), rfc_varint_len(c.v), "varint-len", "encoded size of {}", c.v);
    ensure_eq!(varint_len(c.v), b.len(), "varint-len", "announced size of {}", c.v);
    ensure_eq!(rfc_varint(&b), Some((c.v, b.len())), "varint-format", "encoding of {}", c.v);
    let mut all = b.to_vec();
    all.extend_from_slice(&c.tail);
    let mut r = Reader::from(all.clone());
    let got = r.read_varint().map_err(|e| Fail::new("decode-error", e.to_string()))?;
    ensure_eq!(got, c.v, "varint-roundtrip", "decoded");
    ensure_eq!(r.position() as usize, b.len(), "consumed", "varint length consumed");
    let mut s: &[u8] = &all;
    ensure_eq!(s.read_varint().ok(), Some(c.v), "varint-roundtrip", "decoded from a slice");
    ensure_eq!(s.len(), c.tail.len(), "consumed", "slice left");
    for n in 0..b.len() {
        ensure!(
            Reader::from(b[..n].to_vec()).read_varint().is_err(),
            "truncated-accepted",
            "{n} bytes of the varint {} decode",
            c.v
        );
    }
    obs.nontrivial_if(b.len() > 1);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Op {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Var(u64),
    Raw(Vec<u8>),
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        any::<u8>().prop_map(Op::U8),
        edgy_u16().prop_map(Op::U16),
        edgy_u32().prop_map(Op::U32),
        edgy_u64(u64::MAX).prop_map(Op::U64),
        any::<i8>().prop_map(Op::I8),
        any::<i16>().prop_map(Op::I16),
        any::<i32>().prop_map(Op::I32),
        any::<i64>().prop_map(Op::I64),
        edgy_u64((1 << 62) - 1).prop_map(Op::Var),
        vec(any::<u8>(), 0..40).prop_map(Op::Raw),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct OpsCase {
    ops: Vec<Op>,
    cap: usize,
}

fn int_ops(c: &OpsCase, obs: &mut Obs) -> Res {
    let mut w = Writer::with_capacity(c.cap);
    let mut model: Vec<u8> = vec![];
    for o in &c.ops {
        match o {
            Op::U8(x) => w.write_u8(*x).unwrap(),
            Op::U16(x) => w.write_u16(*x).unwrap(),
            Op::U32(x) => w.write_u32(*x).unwrap(),
            Op::U64(x) => w.write_u64(*x).unwrap(),
            Op::I8(x) => w.write_i8(*x).unwrap(),
            Op::I16(x) => w.write_i16(*x).unwrap(),
            Op::I32(x) => w.write_i32(*x).unwrap(),
            Op::I64(x) => w.write_i64(*x).unwrap(),
            Op::Var(x) => w.write_varint(*x).unwrap(),
            Op::Raw(x) => w.extend_from_slice(x),
        }
        match o {
            Op::U8(x) => model.push(*x),
            Op::U16(x) => model.extend(x.to_be_bytes()),
            Op::U32(x) => model.extend(x.to_be_bytes()),
            Op::U64(x) => model.extend(x.to_be_bytes()),
            Op::I8(x) => model.push(*x as u8),
            Op::I16(x) => model.extend(x.to_be_bytes()),
            Op::I32(x) => model.extend(x.to_be_bytes()),
            Op::I64(x) => model.extend(x.to_be_bytes()),
            Op::Var(x) => put_varint(&mut model, *x),
            Op::Raw(x) => model.extend(x),
        }
        ensure_eq!(w.len(), model.len(), "writer-len", "writer length after {o:?}");
    }
    let b = w.into_bytes();
    ensure_eq!(&b[..], &model[..], "byte-order", "written bytes");
    let mut r = Reader::from(b);
    for o in &c.ops {
        let pos = r.position() as usize;
        let got = match o {
            Op::U8(_) => r.read_u8().map(Op::U8).ok(),
            Op::U16(_) => r.read_u16().map(Op::U16).ok(),
            Op::U32(_) => r.read_u32().map(Op::U32).ok(),
            Op::U64(_) => r.read_u64().map(Op::U64).ok(),
            Op::I8(_) => r.read_i8().map(Op::I8).ok(),
            Op::I16(_) => r.read_i16().map(Op::I16).ok(),
            Op::I32(_) => r.read_i32().map(Op::I32).ok(),
            Op::I64(_) => r.read_i64().map(Op::I64).ok(),
            Op::Var(_) => r.read_varint().map(Op::Var).ok(),
            Op::Raw(x) => r.split_len(x.len()).map(|b| Op::Raw(b.to_vec())).ok(),
        };
        ensure_eq!(got.as_ref(), Some(o), "int-roundtrip", "read back");
        ensure_eq!(r.remaining_slice(), &model[r.position() as usize..], "reader-rest", "rest");
        ensure!(r.position() as usize >= pos, "reader-pos", "reader went back");
    }
    ensure!(!r.has_remaining(), "reader-rest", "reader has {} bytes left", r.remaining());
    ensure!(r.read_u8().is_err() && r.split_len(1).is_err(), "reader-end", "read past the end");
    obs.nontrivial_if(c.ops.len() > 2);
    Ok(())
}

/// A message of the default (serde based) format, with borrowed-from-nothing owned fields.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct SerdeMsg {
    a: u64,
    b: i32,
    s: String,
    v: Vec<i16>,
    o: Option<Box<SerdeMsg>>,
    e: SerdeEnum,
    m: std::collections::BTreeMap<u8, bool>,
    f: (u8, char),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum SerdeEnum {
    Unit,
    New(u32),
    Struct { x: i64, y: u8 },
}

fn serde_msg() -> BoxedStrategy<SerdeMsg> {
    let leaf = |o: Option<Box<SerdeMsg>>| {
        (
            edgy_u64(u64::MAX),
            any::<i32>(),
            ".{0,12}",
            vec(any::<i16>(), 0..10),
            prop_oneof![
                Just(SerdeEnum::Unit),
                edgy_u32().prop_map(SerdeEnum::New),
                (any::<i64>(), any::<u8>()).prop_map(|(x, y)| SerdeEnum::Struct { x, y })
            ],
            proptest::collection::btree_map(any::<u8>(), any::<bool>(), 0..4),
            (any::<u8>(), any::<char>()),
        )
            .prop_map(move |(a, b, s, v, e, m, f)| SerdeMsg { a, b, s, v, o: o.clone(), e, m, f })
    };
    prop_oneof![
        leaf(None),
        leaf(None).prop_flat_map(move |m| leaf(Some(Box::new(m))))
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct SerdeCase {
    msgs: Vec<SerdeMsg>,
    tail: Vec<u8>,
}

fn serde_rt(c: &SerdeCase, obs: &mut Obs) -> Res {
    let fns = SerializeFns::<SerdeMsg>::default();
    let mut w = Writer::with_capacity(3);
    let mut ends = vec![];
    for m in &c.msgs {
        (fns.serialize)(m, &mut w).map_err(|e| Fail::new("encode-error", e.to_string()))?;
        ends.push(w.len() as u64);
    }
    w.extend_from_slice(&c.tail);
    let all = w.into_bytes();
    let mut r = Reader::from(all.clone());
    for (m, end) in c.msgs.iter().zip(&ends) {
        let got = (fns.deserialize)(&mut r).map_err(|e| Fail::new("decode-error", e.to_string()))?;
        ensure_eq!(&got, m, "roundtrip", "message");
        ensure_eq!(r.position(), *end, "consumed", "position after a message");
    }
    ensure_eq!(r.take_remaining(), c.tail, "consumed", "what follows the messages");
    if let Some(end) = ends.first() {
        for n in 0..(*end as usize).min(64) {
            let mut r = Reader::from(all.slice(..n));
            if (fns.deserialize)(&mut r).is_ok() {
                return Err(Fail::new("truncated-accepted", format!("prefix of {n} bytes decodes")));
            }
        }
    }
    obs.nontrivial_if(c.msgs.len() > 1);
    Ok(())
}

// ---------------------------------------------------------------------------------------- C02

#[derive(Debug, Clone, Serialize, Deserialize)]
struct DecodeCase {
    bytes: Vec<u8>,
}

/// Bytes that look like framing: lengths, counts and tags followed by little.
fn hostile() -> BoxedStrategy<Vec<u8>> {
    let piece = prop_oneof![
        3 => vec(any::<u8>(), 0..6),
        3 => edgy_u64((1 << 62) - 1).prop_map(|v| { let mut o = vec![]; put_varint(&mut o, v); o }),
        1 => (0u8..8).prop_map(|b| vec![b]),
        1 => Just(vec![0xff; 8]),
        1 => Just(vec![0x80; 4]),
    ];
    vec(piece, 0..10).prop_map(|v| v.concat()).boxed()
}

fn decode_all(c: &DecodeCase, obs: &mut Obs) -> Res {
    // generous: many times the input, far below what a forged length asks for
    let limit = (1 << 16) + 256 * c.bytes.len();
    let mut oks = 0u64;
    macro_rules! dec {
        ($($t:ty),* $(,)?) => {$({
            let mut r = Reader::from(c.bytes.clone());
            let name = stringify!($t);
            let res = crate::fw::catch(|| with_alloc_limit(limit, || <$t>::from_bytes(&mut r)));
            match res {
                Err(p) => {
                    let sig = if p.contains("allocation of") { "alloc" } else { "panic" };
                    return Err(Fail::new(format!("decode-{sig}"), format!("decoding {name} from {}: {p}", hex(&c.bytes))));
                }
                Ok(Ok(v)) => {
                    oks += 1;
                    ensure!(r.position() as usize <= c.bytes.len(), "overread", "{name} read past the end");
                    // an accepted value has a stable encoding
                    let mut w = Writer::default();
                    v.to_bytes(&mut w).map_err(|e| Fail::new("reencode", format!("{name}: {e}")))?;
                    let b = w.into_bytes();
                    ensure_eq!(v.bytes_len(), b.len(), "length", "announced length of a decoded {name}");
                    let mut r2 = Reader::from(b);
                    let v2 = <$t>::from_bytes(&mut r2).map_err(|e| Fail::new("redecode", format!("{name}: {e}")))?;
                    ensure!(v.eqv(&v2), "reencode", "{name} {v:?} re-decodes as {v2:?}");
                }
                Ok(Err(_)) => {}
            }
        })*};
    }
    dec!(
        u8, u16, Bytes, Option<u16>, Option<Bytes>, (u16, Bytes), (Tick, Entity, PeerId), Vec<u16>,
        Vec<Bytes>, SmallVec<[Tick; 4]>, SmallVec<[Entity; 2]>, HashMap<u16, Bytes>,
        HashMap<PeerId, Tick>, Entity, Tick, Overstep, PositiveTickDelta, PeerId, NetworkTarget,
        Ping, Pong, MessageId, PacketId,
    );
    let fns = SerializeFns::<SerdeMsg>::default();
    let r = crate::fw::catch(|| {
        with_alloc_limit(limit, || (fns.deserialize)(&mut Reader::from(c.bytes.clone())).is_ok())
    });
    match r {
        Err(p) => return Err(Fail::new("decode-panic", format!("serde message from {}: {p}", hex(&c.bytes)))),
        Ok(ok) => oks += ok as u64,
    }
    obs.count("accepted", oks);
    obs.nontrivial_if(c.bytes.len() > 2);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct MutCase {
    val: Val,
    /// (position, xor) applied modulo the length
    flips: Vec<(usize, u8)>,
    cut: Option<usize>,
    extra: Vec<u8>,
}

/// A valid encoding, damaged: reaches deeper into the decoders than random bytes.
fn decode_mutated(c: &MutCase, obs: &mut Obs) -> Res {
    let mut w = Writer::default();
    rt_val(&c.val, &[], &[], &mut w, &mut Obs::default())?;
    let mut b = w.into_bytes().to_vec();
    if let Some(n) = c.cut {
        b.truncate(n % (b.len() + 1));
    }
    for (p, x) in &c.flips {
        if !b.is_empty() {
            let n = b.len();
            b[p % n] ^= x;
        }
    }
    b.extend_from_slice(&c.extra);
    decode_all(&DecodeCase { bytes: b }, obs)
}

/// The tick fraction that travels is the documented quantisation of the local one.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct QuantCase {
    ticks: u32,
    frac: f32,
}

fn quantise(c: &QuantCase, obs: &mut Obs) -> Res {
    let o = Overstep::from_f32(c.frac);
    let mut w = Writer::default();
    o.to_bytes(&mut w).unwrap();
    let back = Overstep::from_bytes(&mut Reader::from(w.into_bytes())).unwrap();
    let d = (back.to_f32() - c.frac).abs();
    ensure!(d <= 1.0 / 256.0 + 1e-6, "overstep-error", "fraction {} came back as {}", c.frac, back.to_f32());
    ensure!(back.to_f32() <= o.to_f32(), "overstep-ahead", "fraction {} came back later: {}", c.frac, back.to_f32());
    let delta = TickDelta::from_i32((c.ticks >> 1) as i32) + TickDelta::lit("0.75");
    let p = PositiveTickDelta::from(delta);
    let mut w = Writer::default();
    p.to_bytes(&mut w).unwrap();
    let q = PositiveTickDelta::from_bytes(&mut Reader::from(w.into_bytes())).unwrap();
    ensure_eq!(q.tick_diff(), c.ticks >> 1, "posdelta", "whole ticks");
    ensure_eq!(TickDelta::from(q), delta, "posdelta", "delta with an exact fraction");
    obs.nontrivial();
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "C01", "values", 240000, 2_000_000,
            || bx((vec(val(), 1..6), vec(any::<u8>(), 0..6), vec(any::<usize>(), 0..4), vec(any::<bool>(), 0..6))
                .prop_map(|(vals, tail, cuts, split)| RoundTrip { vals, tail, cuts, split })),
            round_trip,
        ),
        sub(
            "C01", "varint", 400000, 4_000_000,
            || bx((edgy_u64((1 << 62) - 1), vec(any::<u8>(), 0..4)).prop_map(|(v, tail)| VarCase { v, tail })),
            varint,
        ),
        sub(
            "C01", "integers", 160000, 1_000_000,
            || bx((vec(op(), 0..20), 0usize..40).prop_map(|(ops, cap)| OpsCase { ops, cap })),
            int_ops,
        ),
        sub(
            "C01", "serde", 80000, 400_000,
            || bx((vec(serde_msg(), 1..4), vec(any::<u8>(), 0..5)).prop_map(|(msgs, tail)| SerdeCase { msgs, tail })),
            serde_rt,
        ),
        sub(
            "C01", "quantise", 80000, 400_000,
            || bx((edgy_u32(), 0.0f32..1.0).prop_map(|(ticks, frac)| QuantCase { ticks, frac })),
            quantise,
        ),
        sub(
            "C02", "hostile", 600000, 6_000_000,
            || bx(hostile().prop_map(|bytes| DecodeCase { bytes })),
            decode_all,
        ),
        sub(
            "C02", "mutated", 400000, 4_000_000,
            || bx((val(), vec((any::<usize>(), any::<u8>()), 0..4), proptest::option::of(any::<usize>()), vec(any::<u8>(), 0..4))
                .prop_map(|(val, flips, cut, extra)| MutCase { val, flips, cut, extra })),
            decode_mutated,
        ),
    ]
}
