//! Two-sided simulation of the transport over a faulty network, with an independent model of
//! everything the transport promises. One generated case drives both; each property looks only at
//! its own assertions.

use crate::fw::{Fail, Obs, Res};
use crate::util::rfc_varint;
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::SingleThreadedExecutor;
use bevy_time::{Real, Time, Timer, TimerMode};
use bytes::{Bytes, BytesMut};
use lightyear_connection::client::Disconnected;
use lightyear_connection::prelude::NetworkingMetadata;
use lightyear_core::prelude::LocalTimeline;
use lightyear_link::{Link, LinkMtu, Linked};
use lightyear_transport::packet::fragment_size_for_min_mtu;
use lightyear_transport::plugin::{PacketAcked, PacketLost, PacketReceived, TransportPlugin};
use lightyear_transport::channel::ChannelKind;
use lightyear_transport::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::Duration;

pub struct Ch<const N: usize>;

macro_rules! with_ch {
    ($n:expr, $c:ident => $e:expr) => {
        match $n {
            0 => { type $c = Ch<0>; $e }
            1 => { type $c = Ch<1>; $e }
            2 => { type $c = Ch<2>; $e }
            3 => { type $c = Ch<3>; $e }
            4 => { type $c = Ch<4>; $e }
            _ => { type $c = Ch<5>; $e }
        }
    };
}
pub(crate) use with_ch;

// ---------------------------------------------------------------- independent wire parser

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Single { ch: u16, id: Option<u16>, payload: Vec<u8> },
    Frag { ch: u16, id: u16, idx: u64, n: u64, comp: Option<u8>, payload: Vec<u8> },
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub kind: u8,
    pub id: u16,
    pub last_ack: u16,
    pub bits: u32,
    pub tick: u32,
    pub items: Vec<Item>,
    pub raw_body: usize,
}

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("wanted {n} bytes, {} left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn varint(&mut self) -> Result<u64, String> {
        let (v, n) = rfc_varint(self.0).ok_or("varint cut short")?;
        self.0 = &self.0[n..];
        Ok(v)
    }
    fn bytes(&mut self) -> Result<Vec<u8>, String> {
        let n = self.varint()? as usize;
        Ok(self.take(n)?.to_vec())
    }
}

/// Decoder of the LZ4 block format, written from its specification.
pub fn lz4_block(mut s: &[u8], limit: usize) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let more = |s: &mut &[u8], mut v: usize| -> Result<usize, String> {
        if v == 15 {
            loop {
                let (b, r) = s.split_first().ok_or("lz4: length cut short")?;
                *s = r;
                v += *b as usize;
                if *b != 255 {
                    break;
                }
            }
        }
        Ok(v)
    };
    loop {
        let (tok, r) = s.split_first().ok_or("lz4: no token")?;
        s = r;
        let lit = more(&mut s, (*tok >> 4) as usize)?;
        if s.len() < lit {
            return Err("lz4: literals cut short".into());
        }
        out.extend_from_slice(&s[..lit]);
        s = &s[lit..];
        if s.is_empty() {
            return Ok(out);
        }
        if s.len() < 2 {
            return Err("lz4: offset cut short".into());
        }
        let off = u16::from_le_bytes([s[0], s[1]]) as usize;
        s = &s[2..];
        let len = more(&mut s, (*tok & 15) as usize)? + 4;
        if off == 0 || off > out.len() || out.len() + len > limit {
            return Err("lz4: bad match".into());
        }
        for _ in 0..len {
            out.push(out[out.len() - off]);
        }
    }
}

pub fn lz4_sized(s: &[u8]) -> Result<Vec<u8>, String> {
    if s.len() < 4 {
        return Err("lz4: no size".into());
    }
    let n = u32::from_le_bytes(s[..4].try_into().unwrap()) as usize;
    let out = lz4_block(&s[4..], n)?;
    if out.len() != n {
        return Err(format!("lz4: announced {n}, got {}", out.len()));
    }
    Ok(out)
}

pub fn parse(d: &[u8]) -> Result<Parsed, String> {
    let mut c = Cur(d);
    let kind = c.u8()?;
    let (id, last_ack, bits, tick) = (c.u16()?, c.u16()?, c.u32()?, c.u32()?);
    let body;
    let mut items = vec![];
    let mut c = match kind {
        0 | 1 => c,
        2 | 3 => {
            body = lz4_sized(c.0)?;
            Cur(&body)
        }
        4 => {
            if !c.0.is_empty() {
                return Err("acknowledgement packet with a body".into());
            }
            c
        }
        k => return Err(format!("packet type {k}")),
    };
    let raw_body = c.0.len();
    let wide = |v: u64| u16::try_from(v).map_err(|_| "channel id above 16 bits".to_string());
    if kind == 1 || kind == 3 {
        let ch = wide(c.varint()?)?;
        let id = c.u16()?;
        let idx = c.varint()?;
        let n = c.varint()?;
        let comp = if idx == 0 { Some(c.u8()?) } else { None };
        let payload = c.bytes()?;
        items.push(Item::Frag { ch, id, idx, n, comp, payload });
    }
    while !c.0.is_empty() {
        let ch = wide(c.varint()?)?;
        let n = c.u8()?;
        for _ in 0..n {
            let id = match c.u8()? {
                0 => None,
                1 => Some(c.u16()?),
                t => return Err(format!("option tag {t}")),
            };
            items.push(Item::Single { ch, id, payload: c.bytes()? });
        }
    }
    Ok(Parsed { kind, id, last_ack, bits, tick, items, raw_body })
}

// ---------------------------------------------------------------- cases

/// 0..6: unordered unreliable, the same with acks, sequenced unreliable, unordered reliable,
/// sequenced reliable, ordered reliable
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChanCfg {
    pub mode: u8,
    pub timer_ms: u16,
    pub factor10: u8,
    pub min_delay_ms: u16,
}

pub const UU: u8 = 0;
pub const UA: u8 = 1;
pub const US: u8 = 2;
pub const RU: u8 = 3;
pub const RS: u8 = 4;
pub const RO: u8 = 5;

impl ChanCfg {
    pub fn settings(&self) -> ChannelSettings {
        let r = ReliableSettings {
            rtt_resend_factor: self.factor10 as f32 / 10.0,
            rtt_resend_min_delay: Duration::from_millis(self.min_delay_ms as u64),
        };
        ChannelSettings {
            mode: match self.mode {
                UU => ChannelMode::UnorderedUnreliable,
                UA => ChannelMode::UnorderedUnreliableWithAcks,
                US => ChannelMode::SequencedUnreliable,
                RU => ChannelMode::UnorderedReliable(r),
                RS => ChannelMode::SequencedReliable(r),
                _ => ChannelMode::OrderedReliable(r),
            },
            send_frequency: Duration::from_millis(self.timer_ms as u64),
            ..Default::default()
        }
    }
    fn reliable(&self) -> bool {
        self.mode >= RU
    }
    fn watches(&self) -> bool {
        self.reliable() || self.mode == UA
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NetCfg {
    pub min_mtu: u16,
    pub mtu_up: u16,
    pub chans: Vec<ChanCfg>,
    /// channel ids are `base + stride * i` when set, otherwise those of the registry
    pub ids: Option<(u16, u16)>,
    pub lz4: bool,
    pub comp_min: [u16; 2],
    pub comp_max: u32,
    pub rtt_us: [u32; 2],
    pub jitter_us: [u32; 2],
    /// multipliers in tenths, minimum and maximum in ms
    pub nack: Option<(u8, u8, u16, u16)>,
    pub convs: u8,
    pub start_tick: [u32; 2],
    pub start_ms: [u32; 2],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Len {
    pub class: u8,
    pub k: u8,
    pub off: i8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Send {
    pub conv: u8,
    pub side: bool,
    pub ch: u8,
    pub len: Len,
    pub fill: u8,
    pub queued: bool,
    pub count: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    Mtu(u8, bool, u16),
    Rtt(u8, bool, u32),
    Reconnect(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Frame {
    pub dt_us: [u32; 2],
    pub ticks: [u8; 2],
    pub sends: Vec<Send>,
    /// how many messages each side reads per channel: 0 none, 255 all
    pub read: [u8; 2],
    pub ev: Option<Ev>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NetCase {
    pub cfg: NetCfg,
    pub frames: Vec<Frame>,
    pub fates: Vec<u8>,
    /// `quiet` frames from `quiet_from` on see no network faults and no load limit
    #[serde(default)]
    pub quiet: u16,
    #[serde(default)]
    pub quiet_from: u16,
}

impl NetCase {
    fn warm(&self, frame: u64) -> bool {
        frame > self.quiet_from as u64 && frame <= self.quiet_from as u64 + self.quiet as u64
    }
}

// ---------------------------------------------------------------- model

#[derive(Clone)]
struct Dgram {
    abs: u64,
    tick: u32,
    sent: Duration,
    eliciting: bool,
    acks: Vec<u64>,
    /// (channel, message, part, number of parts); message is an absolute index, or an index into
    /// the list of id-less payloads
    parts: Vec<(usize, Part)>,
    bytes: Bytes,
}

#[derive(Clone)]
enum Part {
    Whole { abs: Option<u64>, payload: Bytes },
    Frag { abs: u64, idx: u64, n: u64 },
}

struct Msg {
    payload: Bytes,
    fragmented: bool,
    /// last emission and acknowledgement of every part; empty before the first emission
    parts: Vec<(Option<Duration>, bool)>,
    bytes: Vec<Option<Vec<u8>>>,
    comp: u8,
    dead: bool,
}

struct Tx {
    cfg: ChanCfg,
    wire: u16,
    msgs: Vec<Msg>,
    active: BTreeSet<u64>,
    loose: Vec<Bytes>,
    timer: Option<Timer>,
}

#[derive(Default, Clone)]
struct RxMsg {
    got: BTreeMap<u64, ()>,
    n: u64,
    ticks: BTreeSet<u32>,
    complete: bool,
    delivered: bool,
    last: Duration,
}

#[derive(Default)]
struct Rx {
    msgs: HashMap<u64, RxMsg>,
    /// unordered unreliable: payload -> ticks at which it can be delivered
    avail: HashMap<Bytes, Vec<BTreeSet<u32>>>,
    avail_n: usize,
    /// unreliable messages of which some fragments arrived
    partial: BTreeSet<u64>,
    ready_ids: BTreeSet<u64>,
    next: u64,
    seen: Option<u64>,
    completed: Option<u64>,
    ready: Option<u64>,
    last_delivered: Option<u64>,
}

struct End {
    entity: Entity,
    min_mtu: usize,
    mtu: usize,
    rtt: Duration,
    jitter: Duration,
    tx: Vec<Tx>,
    rx: Vec<Rx>,
    next_packet: u64,
    outstanding: BTreeMap<u64, Duration>,
    /// parts of watched channels in each outstanding packet
    carried: HashMap<u64, Vec<(usize, u64, u64)>>,
    received: BTreeSet<u64>,
    newest: Option<u64>,
    ack_pending: bool,
    inbox: Vec<(u64, i64, Dgram)>,
    uniq: u64,
}

#[derive(Resource, Default)]
struct Log {
    acked: Vec<(Entity, u16, Duration)>,
    lost: Vec<(Entity, u16)>,
    received: Vec<(Entity, u32)>,
}

struct Side {
    app: App,
    now: Duration,
    tick: u32,
}

pub struct Sim<'a> {
    focus: &'static str,
    case: &'a NetCase,
    sides: [Side; 2],
    convs: Vec<[End; 2]>,
    frame: u64,
    fate_at: usize,
    perfect: bool,
    frag: usize,
    order: i64,
    pub st: Stats,
}

#[derive(Default)]
pub struct Stats {
    pub dropped: u64,
    pub duplicated: u64,
    pub delayed: u64,
    pub delivered: u64,
    pub fragments: u64,
    pub resent: u64,
    pub acks: u64,
    pub nacks: u64,
    pub packets: u64,
    pub compressed: u64,
    pub reconnects: u64,
    pub ack_only: u64,
    pub superseded: u64,
}

pub fn mode_prop(mode: u8) -> &'static str {
    match mode {
        UU | UA => "C12",
        US | RS => "C11",
        RU => "C09",
        _ => "C10",
    }
}

macro_rules! chk {
    ($s:expr, $props:expr, $cond:expr, $sig:expr, $($arg:tt)+) => {
        if $props.contains(&$s.focus) && !$cond {
            return Err(Fail::new($sig, format!($($arg)+)));
        }
    };
}

fn unwrap_id(id: u16, n: u64) -> Option<u64> {
    // the newest absolute index below n with these low bits
    if n == 0 {
        return None;
    }
    let last = n - 1;
    let back = (last as u16).wrapping_sub(id) as u64;
    last.checked_sub(back)
}

fn new_app(seed_ms: u32, tick: u32) -> Side {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin {
        task_pool_options: TaskPoolOptions::with_num_threads(1),
    });
    let mut t = Time::<Real>::default();
    let now = Duration::from_millis(seed_ms as u64);
    t.advance_by(now);
    app.insert_resource(t);
    app.init_resource::<LocalTimeline>();
    app.init_resource::<ChannelRegistry>();
    app.init_resource::<NetworkingMetadata>();
    app.init_resource::<Log>();
    app.add_plugins(TransportPlugin);
    for l in [PreUpdate.intern(), PostUpdate.intern()] {
        app.edit_schedule(l, |s| {
            s.set_executor(SingleThreadedExecutor::new());
        });
    }
    app.add_observer(|e: On<PacketAcked>, mut l: ResMut<Log>| {
        l.acked.push((e.entity, e.packet_id.0, e.rtt_sample))
    });
    app.add_observer(|e: On<PacketLost>, mut l: ResMut<Log>| {
        l.lost.push((e.entity, e.packet_id.0))
    });
    app.add_observer(|e: On<PacketReceived>, mut l: ResMut<Log>| {
        l.received.push((e.entity, e.remote_tick.0))
    });
    let mut tl = LocalTimeline::default();
    let mut left = tick;
    while left > 0 {
        let d = left.min(i32::MAX as u32);
        tl.apply_delta(d as i32);
        left -= d;
    }
    assert_eq!(tl.tick().0, tick);
    app.insert_resource(tl);
    Side { app, now, tick }
}

use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::schedule::ScheduleLabel;

fn fresh_rx(n: usize) -> Vec<Rx> {
    (0..n).map(|_| Rx::default()).collect()
}

fn fresh_tx(chans: &[ChanCfg], wires: &[u16]) -> Vec<Tx> {
    chans
        .iter()
        .zip(wires)
        .map(|(c, w)| Tx {
            cfg: c.clone(),
            wire: *w,
            msgs: vec![],
            active: BTreeSet::new(),
            loose: vec![],
            timer: (c.timer_ms > 0).then(|| {
                Timer::new(Duration::from_millis(c.timer_ms as u64), TimerMode::Repeating)
            }),
        })
        .collect()
}

impl<'a> Sim<'a> {
    pub fn new(case: &'a NetCase, focus: &'static str) -> Self {
        let cfg = &case.cfg;
        let mut sides = [
            new_app(cfg.start_ms[0], cfg.start_tick[0]),
            new_app(cfg.start_ms[1], cfg.start_tick[1]),
        ];
        let min_mtu = cfg.min_mtu as usize;
        let frag = fragment_size_for_min_mtu(min_mtu).expect("mtu large enough");
        let mut wires = vec![];
        for (si, s) in sides.iter_mut().enumerate() {
            for (i, c) in cfg.chans.iter().enumerate() {
                with_ch!(i, C => { s.app.add_channel::<C>(c.settings()); });
                if si == 0 {
                    let reg = s.app.world().resource::<ChannelRegistry>();
                    let kind = with_ch!(i, C => ChannelKind::of::<C>());
                    wires.push(match cfg.ids {
                        Some((b, st)) => b.wrapping_add(st.wrapping_mul(i as u16)),
                        None => *reg.get_net_from_kind(&kind).unwrap(),
                    });
                }
            }
            s.app.finish();
            s.app.cleanup();
        }
        let mut convs = vec![];
        for _ in 0..cfg.convs.max(1) {
            let mk = |si: usize, s: &mut Side| {
                let mut t = Transport::default();
                if lz4_on(cfg) {
                    t.set_compression(CompressionConfig {
                        min_payload_size: cfg.comp_min[si] as usize,
                        max_decompressed_payload_size: cfg.comp_max as usize,
                        ..CompressionConfig::LZ4
                    });
                }
                if let Some((r, j, lo, hi)) = cfg.nack {
                    t.set_packet_nack_settings(PacketNackSettings {
                        rtt_multiplier: r as f32 / 10.0,
                        jitter_multiplier: j as f32 / 10.0,
                        minimum_timeout: Duration::from_millis(lo as u64),
                        maximum_timeout: Duration::from_millis(lo as u64 + hi as u64),
                    });
                }
                let mut link = Link::default().with_mtu(LinkMtu::new(min_mtu));
                link.stats.rtt = Duration::from_micros(cfg.rtt_us[si] as u64);
                link.stats.jitter = Duration::from_micros(cfg.jitter_us[si] as u64);
                let mtu = min_mtu + cfg.mtu_up as usize;
                link.set_mtu(mtu).unwrap();
                let entity = s.app.world_mut().spawn((link, Linked, t)).id();
                for (i, c) in cfg.chans.iter().enumerate() {
                    let mut e = s.app.world_mut().entity_mut(entity);
                    let mut t = e.get_mut::<Transport>().unwrap();
                    with_ch!(i, C => {
                        t.add_channel_send::<C>(c.settings(), wires[i]);
                        t.add_channel_receive::<C>(c.settings(), wires[i]);
                    });
                }
                End {
                    entity,
                    min_mtu,
                    mtu,
                    rtt: Duration::from_micros(cfg.rtt_us[si] as u64),
                    jitter: Duration::from_micros(cfg.jitter_us[si] as u64),
                    tx: fresh_tx(&cfg.chans, &wires),
                    rx: fresh_rx(cfg.chans.len()),
                    next_packet: 0,
                    outstanding: BTreeMap::new(),
                    carried: HashMap::new(),
                    received: BTreeSet::new(),
                    newest: None,
                    ack_pending: false,
                    inbox: vec![],
                    uniq: 0,
                }
            };
            let [a, b] = &mut sides;
            convs.push([mk(0, a), mk(1, b)]);
        }
        Sim {
            focus,
            case,
            sides,
            convs,
            frame: 0,
            fate_at: 0,
            perfect: false,
            frag,
            order: 0,
            st: Stats::default(),
        }
    }

    pub fn run(&mut self) -> Res {
        let frames = self.case.frames.clone();
        for f in &frames {
            self.step(f)?;
        }
        self.quiesce()
    }

    fn quiesce(&mut self) -> Res {
        self.perfect = true;
        let mut dt = Duration::from_millis(20);
        for c in &self.case.cfg.chans {
            dt = dt.max(Duration::from_millis(c.timer_ms as u64 + 1));
            for conv in &self.convs {
                for e in conv {
                    dt = dt.max(
                        e.rtt.mul_f32(c.factor10 as f32 / 10.0)
                            + Duration::from_millis(c.min_delay_ms as u64 + 1),
                    );
                }
            }
        }
        let f = Frame {
            dt_us: [dt.as_micros() as u32; 2],
            ticks: [1, 1],
            sends: vec![],
            read: [255, 255],
            ev: None,
        };
        let mut rounds = 0;
        loop {
            self.step(&f)?;
            rounds += 1;
            let busy = self.convs.iter().flatten().any(|e| {
                !e.inbox.is_empty()
                    || e.tx.iter().any(|t| {
                        !t.loose.is_empty() || (!t.active.is_empty() && can_resend(&t.cfg, e.rtt))
                    })
            });
            if (!busy && rounds >= 3) || rounds >= 120 {
                break;
            }
        }
        for (ci, conv) in self.convs.iter().enumerate() {
            for s in 0..2 {
                let (from, to) = (&conv[s], &conv[1 - s]);
                for (k, t) in from.tx.iter().enumerate() {
                    if !t.cfg.reliable() || !can_resend(&t.cfg, from.rtt) {
                        continue;
                    }
                    let sent = t.msgs.len() as u64;
                    chk!(
                        self,
                        [mode_prop(t.cfg.mode), "C14", "C17"],
                        t.active.is_empty(),
                        "never-acknowledged",
                        "conversation {ci}, channel {k} (mode {}): {} reliable messages are not acknowledged after {rounds} rounds on a perfect network, first {:?}",
                        t.cfg.mode, t.active.len(), t.active.first()
                    );
                    let delivered = match t.cfg.mode {
                        RO => to.rx[k].next,
                        RU => to.rx[k].msgs.values().filter(|m| m.delivered).count() as u64,
                        _ => match to.rx[k].last_delivered {
                            Some(l) => l + 1,
                            None => 0,
                        },
                    };
                    chk!(
                        self,
                        [mode_prop(t.cfg.mode), "C13", "C17"],
                        delivered == sent,
                        "reliable-not-delivered",
                        "conversation {ci}, channel {k} (mode {}): {sent} messages sent, delivery reached {delivered} after {rounds} rounds on a perfect network",
                        t.cfg.mode
                    );
                }
            }
        }
        Ok(())
    }

    fn step(&mut self, f: &Frame) -> Res {
        self.frame += 1;
        if self.frame == self.case.quiet_from as u64 + 1 {
            // nothing stays in the network while the ids come around
            for e in self.convs.iter_mut().flatten() {
                e.inbox.clear();
            }
        }
        if let Some(ev) = &f.ev {
            self.event(ev);
        }
        for s in 0..2 {
            self.side_frame(s, f)?;
        }
        Ok(())
    }

    fn event(&mut self, ev: &Ev) {
        let n = self.convs.len();
        match *ev {
            Ev::Mtu(c, side, up) => {
                let e = &mut self.convs[c as usize % n][side as usize];
                e.mtu = e.min_mtu + up as usize;
                let mut w = self.sides[side as usize].app.world_mut().entity_mut(e.entity);
                w.get_mut::<Link>().unwrap().set_mtu(e.mtu).unwrap();
            }
            Ev::Rtt(c, side, us) => {
                let e = &mut self.convs[c as usize % n][side as usize];
                e.rtt = Duration::from_micros(us as u64);
                let mut w = self.sides[side as usize].app.world_mut().entity_mut(e.entity);
                w.get_mut::<Link>().unwrap().stats.rtt = e.rtt;
            }
            Ev::Reconnect(c) => {
                self.st.reconnects += 1;
                let chans = &self.case.cfg.chans;
                for s in 0..2 {
                    let e = &mut self.convs[c as usize % n][s];
                    let wires: Vec<u16> = e.tx.iter().map(|t| t.wire).collect();
                    e.tx = fresh_tx(chans, &wires);
                    e.rx = fresh_rx(chans.len());
                    e.next_packet = 0;
                    e.outstanding.clear();
                    e.carried.clear();
                    e.received.clear();
                    e.newest = None;
                    e.ack_pending = false;
                    e.inbox.clear();
                    let w = self.sides[s].app.world_mut();
                    w.entity_mut(e.entity).insert(Disconnected::default());
                    w.entity_mut(e.entity).remove::<Disconnected>();
                }
            }
        }
    }

    fn side_frame(&mut self, s: usize, f: &Frame) -> Res {
        let dt = Duration::from_micros(f.dt_us[s] as u64);
        // time, tick and arrivals
        let mut arrivals: Vec<Vec<Dgram>> = vec![];
        {
            let side = &mut self.sides[s];
            side.now += dt;
            side.tick = side.tick.saturating_add(f.ticks[s] as u32);
            let w = side.app.world_mut();
            w.resource_mut::<Time<Real>>().advance_by(dt);
            w.resource_mut::<LocalTimeline>().apply_delta(f.ticks[s] as i32);
            for conv in &mut self.convs {
                let e = &mut conv[s];
                let (mut due, later): (Vec<_>, Vec<_>) =
                    e.inbox.drain(..).partition(|(at, _, _)| *at <= self.frame);
                e.inbox = later;
                due.sort_by_key(|(at, o, _)| (*at, *o));
                let mut em = w.entity_mut(e.entity);
                let mut link = em.get_mut::<Link>().unwrap();
                for (_, _, d) in &due {
                    link.recv.push_raw(BytesMut::from(&d.bytes[..]));
                }
                arrivals.push(due.into_iter().map(|(_, _, d)| d).collect());
            }
            *w.resource_mut::<Log>() = Log::default();
            w.run_schedule(PreUpdate);
        }
        let log = std::mem::take(&mut *self.sides[s].app.world_mut().resource_mut::<Log>());
        for (ci, arr) in arrivals.into_iter().enumerate() {
            self.after_receive(s, ci, arr, &log, dt)?;
            self.read(s, ci, f.read[s])?;
        }
        for send in f.sends.iter().filter(|x| x.side as usize == s) {
            self.send(s, send)?;
        }
        // queued sends get their ids during the flush, after the direct ones
        let queued: Vec<&Send> = f
            .sends
            .iter()
            .filter(|x| x.side as usize == s && x.queued)
            .collect();
        for q in queued {
            let ci = q.conv as usize % self.convs.len();
            let payloads = self.payloads(s, ci, q);
            let e = &mut self.convs[ci][s];
            let k = q.ch as usize % e.tx.len();
            let world = self.sides[s].app.world();
            let t = world.get::<Transport>(e.entity).unwrap();
            for p in payloads {
                with_ch!(k, C => t.send::<C>(p.clone()).unwrap());
                let frag = p.len() > self.frag;
                e.tx[k].push(p, frag);
            }
        }
        self.sides[s].app.world_mut().run_schedule(PostUpdate);
        for ci in 0..self.convs.len() {
            self.after_send(s, ci)?;
        }
        Ok(())
    }

    fn payloads(&mut self, s: usize, ci: usize, x: &Send) -> Vec<Bytes> {
        let e = &mut self.convs[ci][s];
        let (frag, mtu) = (self.frag as i64, e.mtu as i64);
        let o = x.len.off as i64;
        let k = x.len.k as i64;
        let len = match x.len.class % 7 {
            0 => o.rem_euclid(24),
            1 => frag + o.rem_euclid(7) - 3,
            2 => frag * (1 + k % 6) + o.rem_euclid(5) - 2,
            3 => mtu - 13 - o.rem_euclid(16),
            4 => k * frag / 100 + o.abs(),
            5 => 63 + o.rem_euclid(4) - 1,
            _ => (frag * k / 60).max(0),
        }
        .clamp(0, frag.max(40) * 8) as usize;
        let mut out = vec![];
        // The load stays moderate: thousands of unacknowledged packets in flight outrun the 16-bit
        // packet ids, which no part of the protocol is made for.
        let warm = self.case.warm(self.frame);
        let each = len.div_ceil(self.frag).max(1);
        let mut pending: usize = e
            .tx
            .iter()
            .flat_map(|t| t.active.iter().map(|a| t.msgs[*a as usize].payload.len()))
            .map(|l| l.div_ceil(self.frag).max(1))
            .sum();
        let cap = if each == 1 && len < 24 { 600 } else { 120 };
        for _ in 0..x.count.max(1) {
            pending += each;
            if pending > cap && !warm {
                break;
            }
            e.uniq += 1;
            let mut p = vec![x.fill; len];
            if x.fill % 3 == 0 {
                let mut z = e.uniq.wrapping_mul(0x9e3779b97f4a7c15) | 1;
                for b in p.iter_mut() {
                    z ^= z << 13;
                    z ^= z >> 7;
                    z ^= z << 17;
                    *b = z as u8;
                }
            }
            for (b, v) in p.iter_mut().zip(e.uniq.to_le_bytes()).take(len.min(4)) {
                *b = v;
            }
            out.push(Bytes::from(p));
        }
        out
    }

    fn send(&mut self, s: usize, x: &Send) -> Res {
        if x.queued {
            return Ok(());
        }
        let ci = x.conv as usize % self.convs.len();
        let payloads = self.payloads(s, ci, x);
        let e = &mut self.convs[ci][s];
        let k = x.ch as usize % e.tx.len();
        let world = self.sides[s].app.world_mut();
        let mut em = world.entity_mut(e.entity);
        let mut t = em.get_mut::<Transport>().unwrap();
        for p in payloads {
            let id = with_ch!(k, C => t.send_mut::<C>(p.clone()).unwrap());
            let frag = p.len() > self.frag;
            let want = e.tx[k].push(p, frag);
            chk!(
                self,
                ["C14", "C17"],
                id.map(|i| i.0) == want,
                "message-id",
                "channel {k} (mode {}): send returned id {id:?}, expected {want:?}",
                e.tx[k].cfg.mode
            );
        }
        Ok(())
    }

    fn after_receive(&mut self, s: usize, ci: usize, arr: Vec<Dgram>, log: &Log, dt: Duration) -> Res {
        let now = self.sides[s].now;
        let focus = self.focus;
        let e = &mut self.convs[ci][s];
        let entity = e.entity;
        let here = |l: &str| format!("side {s} conversation {ci}: {l}");
        // acknowledgements
        let got_recv: Vec<u32> = log.received.iter().filter(|x| x.0 == entity).map(|x| x.1).collect();
        let want_recv: Vec<u32> = arr.iter().map(|d| d.tick).collect();
        if focus == "C08" && got_recv != want_recv {
            return Err(Fail::new(
                "packet-received",
                here(&format!("PacketReceived ticks {got_recv:?}, arrivals {want_recv:?}")),
            ));
        }
        let mut want_acked: BTreeMap<u64, Duration> = BTreeMap::new();
        for d in &arr {
            for a in &d.acks {
                if let Some(t) = e.outstanding.remove(a) {
                    want_acked.insert(*a, now - t);
                }
            }
            e.received.insert(d.abs);
            e.newest = Some(e.newest.map_or(d.abs, |n| n.max(d.abs)));
            e.ack_pending |= d.eliciting;
        }
        while e.received.len() > 4096 {
            e.received.pop_first();
        }
        let mut got_acked: BTreeMap<u64, Duration> = BTreeMap::new();
        for (_, id, rtt) in log.acked.iter().filter(|x| x.0 == entity) {
            let abs = unwrap_id(*id, e.next_packet).unwrap_or(u64::MAX);
            if got_acked.insert(abs, *rtt).is_some() && focus == "C08" {
                return Err(Fail::new("acked-twice", here(&format!("packet {abs} acknowledged twice"))));
            }
        }
        if focus == "C08" && got_acked != want_acked {
            return Err(Fail::new(
                "packet-acked",
                here(&format!("PacketAcked {got_acked:?}, expected {want_acked:?}")),
            ));
        }
        self.st.acks += want_acked.len() as u64;
        // losses
        let nack = match self.case.cfg.nack {
            Some((r, j, lo, hi)) => (r as f32 / 10.0, j as f32 / 10.0, lo as u64, lo as u64 + hi as u64),
            None => (1.5, 0.0, 10, 3000),
        };
        let timeout = (e.rtt.mul_f32(nack.0) + e.jitter.mul_f32(nack.1))
            .min(Duration::from_millis(nack.3))
            .max(Duration::from_millis(nack.2));
        let got_lost: BTreeSet<u64> = log
            .lost
            .iter()
            .filter(|x| x.0 == entity)
            .map(|x| unwrap_id(x.1, e.next_packet).unwrap_or(u64::MAX))
            .collect();
        let n_lost = log.lost.iter().filter(|x| x.0 == entity).count();
        let slack = Duration::from_micros(2);
        let mut lost = BTreeSet::new();
        for (abs, t) in &e.outstanding {
            let age = now - *t;
            let far = e.next_packet - abs > (i16::MAX / 3) as u64;
            let must = far || age > timeout + slack;
            let may = must || age + slack >= timeout;
            let got = got_lost.contains(abs);
            if focus == "C08" && ((must && !got) || (got && !may)) {
                return Err(Fail::new(
                    if got { "lost-too-early" } else { "loss-not-reported" },
                    here(&format!("packet {abs} sent {age:?} ago, timeout {timeout:?}, reported lost: {got}")),
                ));
            }
            if (may && got) || must {
                lost.insert(*abs);
            }
        }
        if focus == "C08" && (n_lost != got_lost.len() || !got_lost.iter().all(|l| lost.contains(l))) {
            return Err(Fail::new(
                "lost-not-outstanding",
                here(&format!("PacketLost {got_lost:?}, expected {lost:?}")),
            ));
        }
        // message notifications
        let mut want_acks: Vec<Vec<u16>> = vec![vec![]; e.tx.len()];
        let mut want_nacks: Vec<Vec<u16>> = vec![vec![]; e.tx.len()];
        for l in &lost {
            e.outstanding.remove(l);
            for (k, m, _) in e.carried.remove(l).unwrap_or_default() {
                want_nacks[k].push(m as u16);
                self.st.nacks += 1;
                if e.tx[k].cfg.mode == UA && e.tx[k].msgs[m as usize].fragmented {
                    e.tx[k].msgs[m as usize].dead = true;
                }
            }
        }
        for a in want_acked.keys() {
            for (k, m, p) in e.carried.remove(a).unwrap_or_default() {
                let tx = &mut e.tx[k];
                let msg = &mut tx.msgs[m as usize];
                let was = msg.parts.iter().all(|x| x.1);
                msg.parts[p as usize].1 = true;
                let all = msg.parts.iter().all(|x| x.1);
                if tx.cfg.reliable() {
                    if all && tx.active.remove(&m) {
                        want_acks[k].push(m as u16);
                    }
                } else if all && !was && !msg.dead {
                    want_acks[k].push(m as u16);
                }
            }
        }
        let world = self.sides[s].app.world();
        let t = world.get::<Transport>(entity).unwrap();
        for (k, tx) in e.tx.iter_mut().enumerate() {
            if let Some(timer) = &mut tx.timer {
                timer.tick(dt);
            }
            let kind = with_ch!(k, C => ChannelKind::of::<C>());
            let cs = t.channel_send(kind).unwrap();
            for (name, got, want) in [
                ("ack", cs.message_acks(), &mut want_acks[k]),
                ("nack", cs.message_nacks(), &mut want_nacks[k]),
            ] {
                let mut got: Vec<u16> = got.iter().map(|m| m.0).collect();
                got.sort();
                want.sort();
                if focus == "C14" && got != *want {
                    return Err(Fail::new(
                        format!("message-{name}"),
                        here(&format!(
                            "channel {k} (mode {}): message {name}s {got:?}, expected {want:?}",
                            tx.cfg.mode
                        )),
                    ));
                }
            }
        }
        // message contents that became available
        let (a, b) = self.convs[ci].split_at_mut(1);
        let (me, peer) = if s == 0 { (&mut a[0], &b[0]) } else { (&mut b[0], &a[0]) };
        for (k, rx) in me.rx.iter_mut().enumerate() {
            if me.tx[k].cfg.reliable() {
                continue;
            }
            // documented: incomplete unreliable messages are given up after three seconds without
            // a further fragment
            let cutoff = now.saturating_sub(Duration::from_secs(3));
            let gone: Vec<u64> =
                rx.partial.iter().filter(|a| rx.msgs[*a].last <= cutoff).copied().collect();
            for a in gone {
                rx.partial.remove(&a);
                let m = rx.msgs.get_mut(&a).unwrap();
                m.got.clear();
                m.ticks.clear();
            }
        }
        for d in &arr {
            for (k, part) in &d.parts {
                me.rx[*k].arrive(&peer.tx[*k], part, d.tick, now, &mut self.st);
            }
        }
        Ok(())
    }

    fn read(&mut self, s: usize, ci: usize, limit: u8) -> Res {
        let focus = self.focus;
        let entity = self.convs[ci][s].entity;
        for k in 0..self.case.cfg.chans.len() {
            let (a, b) = self.convs[ci].split_at_mut(1);
            let (me, peer) = if s == 0 { (&mut a[0], &b[0]) } else { (&mut b[0], &a[0]) };
            let tx = &peer.tx[k];
            let mode = tx.cfg.mode;
            let rx = &mut me.rx[k];
            let mut em = self.sides[s].app.world_mut().entity_mut(entity);
            let mut t = em.get_mut::<Transport>().unwrap();
            let ch = t.channel_receive_mut(tx.wire).unwrap();
            let mut n = 0;
            while n < limit as usize || limit == 255 {
                let got = ch.read_message();
                n += 1;
                let active = focus == mode_prop(mode) || focus == "C17" || focus == "C13";
                match rx.deliver(tx, mode, got.as_ref()) {
                    Ok(()) => {}
                    Err(_) if !active => {}
                    Err(mut f) => {
                        // reassembly is only at stake for fragmented messages
                        if focus == "C13" && !tx.msgs.iter().any(|m| m.fragmented) {
                            continue;
                        }
                        f.msg = format!("side {s} conversation {ci} channel {k} (mode {mode}): {}", f.msg);
                        return Err(f);
                    }
                }
                if got.is_none() {
                    break;
                }
                self.st.delivered += 1;
            }
        }
        Ok(())
    }

    fn after_send(&mut self, s: usize, ci: usize) -> Res {
        let now = self.sides[s].now;
        let tick = self.sides[s].tick;
        let frag_size = self.frag;
        let lz4 = lz4_on(&self.case.cfg);
        let (a, b) = self.convs[ci].split_at_mut(1);
        let (me, peer) = if s == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
        let sent: Vec<Bytes> = {
            let mut em = self.sides[s].app.world_mut().entity_mut(me.entity);
            em.get_mut::<Link>().unwrap().send.drain().collect()
        };
        let at = format!("side {s} conversation {ci}");
        // what each channel has to emit now
        let mut due: Vec<BTreeSet<(u64, u64)>> = vec![];
        let mut may: Vec<BTreeSet<(u64, u64)>> = vec![];
        for tx in &me.tx {
            let (mut d, mut m) = (BTreeSet::new(), BTreeSet::new());
            if tx.timer.as_ref().is_none_or(|t| t.is_finished()) {
                let delay = me
                    .rtt
                    .mul_f32(tx.cfg.factor10 as f32 / 10.0)
                    .max(Duration::from_millis(tx.cfg.min_delay_ms as u64));
                for id in &tx.active {
                    let msg = &tx.msgs[*id as usize];
                    for (p, (last, acked)) in msg.parts.iter().enumerate() {
                        match last {
                            None => {
                                d.insert((*id, p as u64));
                            }
                            Some(t) if !*acked && !delay.is_zero() => {
                                let age = now - *t;
                                if age > delay + Duration::from_micros(2) {
                                    d.insert((*id, p as u64));
                                } else if age + Duration::from_micros(2) > delay {
                                    m.insert((*id, p as u64));
                                }
                            }
                            _ => {}
                        }
                    }
                    if msg.parts.is_empty() {
                        // compressed: the number of parts is known once the first one is seen
                        d.insert((*id, u64::MAX));
                    }
                }
            }
            due.push(d);
            may.push(m);
        }
        let mut sent_ids: Vec<Vec<u16>> = vec![vec![]; me.tx.len()];
        let mut data = 0;
        let n_sent = sent.len();
        for bytes in sent {
            self.st.packets += 1;
            let p = match parse(&bytes) {
                Ok(p) => p,
                Err(err) => {
                    chk!(self, ["C13", "C36", "C08"], false, "unreadable-datagram", "{at}: {err}: {}", crate::util::hex(&bytes));
                    continue;
                }
            };
            chk!(
                self, ["C13", "C36"], bytes.len() <= me.mtu, "datagram-above-mtu",
                "{at}: datagram of {} bytes on a link with mtu {}", bytes.len(), me.mtu
            );
            chk!(
                self, ["C08", "C17"], p.id == me.next_packet as u16, "packet-id",
                "{at}: packet id {} where {} comes next", p.id, me.next_packet as u16
            );
            chk!(
                self, ["C08"], p.tick == tick, "packet-tick",
                "{at}: packet carries tick {} at tick {tick}", p.tick
            );
            // acknowledgements in the header: exactly what arrived
            let mut acks = vec![];
            match me.newest {
                None => {
                    chk!(
                        self, ["C08", "C17"], p.bits == 0 && p.last_ack == u16::MAX, "acks-nothing-received",
                        "{at}: nothing was received, yet the header acknowledges {} / {:032b}", p.last_ack, p.bits
                    );
                }
                Some(n) => {
                    let mut bits = 0u32;
                    acks.push(n);
                    for i in 0..32u64 {
                        if n > i && me.received.contains(&(n - 1 - i)) {
                            bits |= 1 << i;
                            acks.push(n - 1 - i);
                        }
                    }
                    chk!(
                        self, ["C08", "C17"], p.last_ack == n as u16 && p.bits == bits, "header-acks",
                        "{at}: header acknowledges {} / {:032b}, received {} / {bits:032b}", p.last_ack, p.bits, n as u16
                    );
                }
            }
            let abs = me.next_packet;
            me.next_packet += 1;
            let mut d = Dgram {
                abs,
                tick,
                sent: now,
                eliciting: p.kind != 4,
                acks,
                parts: vec![],
                bytes: bytes.clone(),
            };
            if p.kind == 4 {
                self.st.ack_only += 1;
                chk!(
                    self, ["C08"], me.ack_pending && n_sent == 1, "ack-only",
                    "{at}: header-only packet among {n_sent} packets, acknowledgement pending: {}", me.ack_pending
                );
            } else {
                data += 1;
                chk!(self, ["C13"], !p.items.is_empty(), "empty-data-packet", "{at}: data packet without messages");
            }
            if p.kind == 2 || p.kind == 3 {
                self.st.compressed += 1;
                chk!(
                    self, ["C36"], lz4 && p.kind == 2 && bytes.len() < 13 + p.raw_body, "compression-policy",
                    "{at}: packet of {} bytes for a body of {} (compression enabled: {lz4})", bytes.len(), p.raw_body
                );
                chk!(
                    self, ["C36"],
                    p.raw_body >= self.case.cfg.comp_min[s] as usize && p.raw_body <= self.case.cfg.comp_max as usize,
                    "compression-bounds", "{at}: a body of {} bytes was compressed", p.raw_body
                );
            }
            for it in p.items {
                let wire = match &it {
                    Item::Single { ch, .. } | Item::Frag { ch, .. } => *ch,
                };
                let Some(k) = me.tx.iter().position(|t| t.wire == wire) else {
                    chk!(self, ["C13"], false, "unknown-channel-sent", "{at}: channel id {wire} is not registered");
                    continue;
                };
                let mode = me.tx[k].cfg.mode;
                let props = [mode_prop(mode), "C13", "C17", "C36"];
                let tx = &mut me.tx[k];
                match it {
                    Item::Single { id: None, payload, .. } => {
                        let pos = tx.loose.iter().position(|x| x[..] == payload[..]);
                        chk!(
                            self, props, mode == UU && pos.is_some(), "sent-unknown-message",
                            "{at} channel {k} (mode {mode}): a message of {} bytes without id was sent, which is not waiting to be sent", payload.len()
                        );
                        if let Some(pos) = pos {
                            let payload = tx.loose.swap_remove(pos);
                            d.parts.push((k, Part::Whole { abs: None, payload }));
                        }
                    }
                    Item::Single { id: Some(id), payload, .. } => {
                        sent_ids[k].push(id);
                        let abs = unwrap_id(id, tx.msgs.len() as u64);
                        let ok = abs.is_some_and(|a| {
                            let m = &tx.msgs[a as usize];
                            !m.fragmented && m.payload[..] == payload[..]
                        });
                        chk!(
                            self, props, ok, "sent-wrong-content",
                            "{at} channel {k} (mode {mode}): message id {id} (of {} sent) was sent with {} bytes which are not its content", tx.msgs.len(), payload.len()
                        );
                        let Some(abs) = abs.filter(|_| ok) else { continue };
                        let fresh = due[k].remove(&(abs, 0)) || may[k].remove(&(abs, 0));
                        chk!(
                            self, [mode_prop(mode), "C16"], fresh, "sent-not-due",
                            "{at} channel {k} (mode {mode}): message {abs} was sent although it was not due (last sent {:?} ago, acknowledged: {})",
                            tx.msgs[abs as usize].parts[0].0.map(|t| now - t), tx.msgs[abs as usize].parts[0].1
                        );
                        let m = &mut tx.msgs[abs as usize];
                        if m.parts[0].0.is_some() {
                            self.st.resent += 1;
                        }
                        m.parts[0].0 = Some(now);
                        d.parts.push((k, Part::Whole { abs: Some(abs), payload: m.payload.clone() }));
                    }
                    Item::Frag { id, idx, n, comp, payload, .. } => {
                        self.st.fragments += 1;
                        sent_ids[k].push(id);
                        let abs = unwrap_id(id, tx.msgs.len() as u64);
                        let ok = abs.is_some_and(|a| {
                            let m = &mut tx.msgs[a as usize];
                            m.accept_fragment(idx, n, comp, &payload, frag_size, lz4)
                        });
                        chk!(
                            self, props, ok, "sent-bad-fragment",
                            "{at} channel {k} (mode {mode}): fragment {idx} of {n} of message {id} ({} bytes) does not belong to the message sent", payload.len()
                        );
                        let Some(abs) = abs.filter(|_| ok) else { continue };
                        if due[k].remove(&(abs, u64::MAX)) {
                            due[k].extend((0..n).map(|i| (abs, i)));
                        }
                        let fresh = due[k].remove(&(abs, idx)) || may[k].remove(&(abs, idx));
                        let m = &mut tx.msgs[abs as usize];
                        chk!(
                            self, [mode_prop(mode), "C16", "C13"], fresh, "sent-not-due",
                            "{at} channel {k} (mode {mode}): fragment {idx} of message {abs} was sent although it was not due"
                        );
                        if m.parts[idx as usize].0.is_some() {
                            self.st.resent += 1;
                        }
                        m.parts[idx as usize].0 = Some(now);
                        if m.comp == 1 && m.bytes.iter().all(|b| b.is_some()) {
                            let whole: Vec<u8> = m.bytes.iter().flatten().flatten().copied().collect();
                            let plain = lz4_sized(&whole);
                            chk!(
                                self, ["C13", "C36"], plain.as_deref().is_ok_and(|p| p == &m.payload[..]),
                                "bad-compressed-message",
                                "{at} channel {k}: the fragments of message {abs} do not decompress to its content"
                            );
                        }
                        d.parts.push((k, Part::Frag { abs, idx, n }));
                    }
                }
            }
            if d.eliciting {
                me.outstanding.insert(abs, now);
                let mut parts = vec![];
                for (k, p) in &d.parts {
                    if me.tx[*k].cfg.watches() {
                        match p {
                            Part::Whole { abs: Some(a), .. } => parts.push((*k, *a, 0)),
                            Part::Frag { abs, idx, .. } => parts.push((*k, *abs, *idx)),
                            _ => {}
                        }
                    }
                }
                if !parts.is_empty() {
                    me.carried.insert(abs, parts);
                }
            }
            // fate of the datagram
            let fate = if self.perfect || self.case.warm(self.frame) || self.case.fates.is_empty() {
                0
            } else {
                self.fate_at += 1;
                self.case.fates[self.fate_at % self.case.fates.len()]
            };
            let base = self.frame + s as u64; // side 1 runs after side 0 in a frame
            self.order += 1;
            let hi = (fate / 8) as u64;
            let mut put = |extra: u64, front: bool| {
                let o = if front { -self.order } else { self.order };
                peer.inbox.push((base + extra, o, d.clone()));
            };
            match fate % 8 {
                3 | 7 => self.st.dropped += 1,
                4 => {
                    self.st.delayed += 1;
                    put(1 + hi % 4, hi > 16)
                }
                5 => {
                    self.st.duplicated += 1;
                    put(0, false);
                    put(hi % 7, hi > 16);
                }
                6 => {
                    self.st.delayed += 1;
                    put(hi % 20, false)
                }
                _ => put(0, hi > 24),
            }
        }
        chk!(
            self, ["C08"], !(data == 0 && me.ack_pending && n_sent == 0), "ack-not-sent",
            "{at}: an acknowledgement is pending and nothing was sent"
        );
        if n_sent > 0 {
            me.ack_pending = false;
        }
        let world = self.sides[s].app.world();
        let t = world.get::<Transport>(me.entity).unwrap();
        for (k, tx) in me.tx.iter_mut().enumerate() {
            let mode = tx.cfg.mode;
            let ready = tx.timer.as_ref().is_none_or(|t| t.is_finished());
            chk!(
                self, [mode_prop(mode), "C13", "C16", "C17"], due[k].is_empty(), "due-not-sent",
                "{at} channel {k} (mode {mode}): {} message parts were due and not sent, first {:?}", due[k].len(), due[k].first()
            );
            chk!(
                self, [mode_prop(mode), "C13", "C16", "C17"], !(ready && !tx.loose.is_empty()), "due-not-sent",
                "{at} channel {k} (mode {mode}): {} messages were not sent", tx.loose.len()
            );
            let kind = with_ch!(k, C => ChannelKind::of::<C>());
            let mut got: Vec<u16> = t.channel_send(kind).unwrap().messages_sent().iter().map(|m| m.0).collect();
            got.sort();
            sent_ids[k].sort();
            chk!(
                self, ["C14"], got == sent_ids[k], "messages-sent",
                "{at} channel {k} (mode {mode}): messages_sent {got:?}, emitted {:?}", sent_ids[k]
            );
            if !tx.cfg.reliable() {
                let done: Vec<u64> = tx
                    .active
                    .iter()
                    .filter(|a| {
                        let m = &tx.msgs[**a as usize];
                        !m.parts.is_empty() && m.parts.iter().all(|p| p.0.is_some())
                    })
                    .copied()
                    .collect();
                for a in done {
                    tx.active.remove(&a);
                }
            }
        }
        Ok(())
    }
}

fn lz4_on(cfg: &NetCfg) -> bool {
    cfg.lz4
}

fn can_resend(c: &ChanCfg, rtt: Duration) -> bool {
    !rtt.mul_f32(c.factor10 as f32 / 10.0)
        .max(Duration::from_millis(c.min_delay_ms as u64))
        .is_zero()
}

impl Tx {
    fn push(&mut self, payload: Bytes, fragmented: bool) -> Option<u16> {
        if self.cfg.mode == UU && !fragmented {
            self.loose.push(payload);
            return None;
        }
        let id = self.msgs.len() as u64;
        self.msgs.push(Msg {
            payload,
            fragmented,
            parts: if fragmented { vec![] } else { vec![(None, false)] },
            bytes: vec![],
            comp: 0,
            dead: false,
        });
        self.active.insert(id);
        Some(id as u16)
    }
}

impl Msg {
    fn accept_fragment(&mut self, idx: u64, n: u64, comp: Option<u8>, payload: &[u8], size: usize, lz4: bool) -> bool {
        if !self.fragmented || idx >= n || n > 1 << 20 {
            return false;
        }
        if self.parts.is_empty() {
            self.parts = vec![(None, false); n as usize];
            self.bytes = vec![None; n as usize];
            self.comp = u8::from(lz4 && n as usize != self.payload.len().div_ceil(size));
        }
        if self.parts.len() as u64 != n || payload.is_empty() {
            return false;
        }
        if let Some(c) = comp {
            if c > 1 || (c == 1 && !lz4) {
                return false;
            }
            self.comp = c;
        }
        if idx + 1 < n && payload.len() != size || payload.len() > size {
            return false;
        }
        if self.comp == 0 {
            let at = idx as usize * size;
            let end = (at + size).min(self.payload.len());
            let plain = n as usize == self.payload.len().div_ceil(size)
                && at <= end
                && self.payload[at..end] == *payload;
            // the flag comes with fragment 0 only: another fragment may belong to a compressed one
            if !plain && !(lz4 && idx != 0) {
                return false;
            }
        }
        match &self.bytes[idx as usize] {
            Some(b) => b[..] == *payload,
            None => {
                self.bytes[idx as usize] = Some(payload.to_vec());
                true
            }
        }
    }
}

impl Rx {
    fn arrive(&mut self, tx: &Tx, part: &Part, tick: u32, now: Duration, st: &mut Stats) {
        let mode = tx.cfg.mode;
        let abs = match part {
            Part::Whole { abs: None, payload } => {
                self.avail.entry(payload.clone()).or_default().push([tick].into());
                self.avail_n += 1;
                return;
            }
            Part::Whole { abs: Some(a), .. } => *a,
            Part::Frag { abs, .. } => *abs,
        };
        if mode == US || mode == RS {
            match self.seen {
                Some(n) if abs < n => {
                    st.superseded += 1;
                    return;
                }
                Some(n) if abs > n => {
                    if self.ready.take().is_some() {
                        st.superseded += 1;
                    }
                    self.seen = Some(abs);
                }
                None => self.seen = Some(abs),
                _ => {}
            }
        }
        let m = self.msgs.entry(abs).or_default();
        if m.complete && mode >= RU {
            return;
        }
        m.ticks.insert(tick);
        m.last = now;
        match part {
            Part::Whole { .. } => {
                m.n = 1;
                m.got.insert(0, ());
            }
            Part::Frag { idx, n, .. } => {
                m.n = *n;
                m.got.insert(*idx, ());
            }
        }
        if m.got.len() as u64 != m.n {
            if mode < RU {
                self.partial.insert(abs);
            }
        } else {
            self.partial.remove(&abs);
            match mode {
                UU | UA => {
                    let ticks = std::mem::take(&mut m.ticks);
                    m.got.clear();
                    self.avail.entry(tx.msgs[abs as usize].payload.clone()).or_default().push(ticks);
                    self.avail_n += 1;
                }
                US | RS => {
                    m.complete = true;
                    m.got.clear();
                    if self.completed != Some(abs) {
                        self.completed = Some(abs);
                        self.ready = Some(abs);
                    }
                }
                _ => {
                    m.complete = true;
                    self.ready_ids.insert(abs);
                }
            }
        }
    }

    /// Compares one result of `read_message` with what may be delivered now.
    fn deliver(
        &mut self,
        tx: &Tx,
        mode: u8,
        got: Option<&(lightyear_core::tick::Tick, Bytes, Option<lightyear_transport::packet::message::MessageId>)>,
    ) -> Res {
        let fail = |sig: &str, msg: String| Err(Fail::new(sig, msg));
        if mode == UU || mode == UA {
            let Some((tick, bytes, _)) = got else {
                if self.avail_n != 0 {
                    return fail("not-delivered", format!("{} complete messages arrived and are not delivered", self.avail_n));
                }
                return Ok(());
            };
            let Some(v) = self.avail.get_mut(bytes) else {
                return fail("delivered-not-arrived", format!("a message of {} bytes was delivered which did not arrive (again)", bytes.len()));
            };
            let Some(p) = v.iter().position(|t| t.contains(&tick.0)) else {
                return fail("delivered-tick", format!("delivered with tick {}, arrived with {v:?}", tick.0));
            };
            v.swap_remove(p);
            if v.is_empty() {
                self.avail.remove(bytes);
            }
            self.avail_n -= 1;
            return Ok(());
        }
        let Some((tick, bytes, id)) = got else {
            let missing = match mode {
                US | RS => self.ready,
                RU => self.ready_ids.first().copied(),
                _ => self.ready_ids.first().copied().filter(|a| *a == self.next),
            };
            if let Some(a) = missing {
                return fail("not-delivered", format!("message {a} arrived completely and is not delivered"));
            }
            return Ok(());
        };
        let abs = id.and_then(|i| unwrap_id(i.0, tx.msgs.len() as u64));
        let Some(abs) = abs else {
            return fail("delivered-unknown", format!("delivered message has id {id:?}, {} were sent", tx.msgs.len()));
        };
        if tx.msgs[abs as usize].payload != *bytes {
            return fail("delivered-content", format!("message {abs} was delivered with {} bytes that are not its content ({} bytes)", bytes.len(), tx.msgs[abs as usize].payload.len()));
        }
        let Some(m) = self.msgs.get_mut(&abs) else {
            return fail("delivered-not-arrived", format!("message {abs} was delivered and never arrived"));
        };
        if m.delivered {
            return fail("delivered-twice", format!("message {abs} was delivered twice"));
        }
        if !m.complete {
            return fail("delivered-incomplete", format!("message {abs} was delivered before all its parts arrived"));
        }
        if !m.ticks.contains(&tick.0) {
            return fail("delivered-tick", format!("message {abs} delivered with tick {}, arrived with {:?}", tick.0, m.ticks));
        }
        m.delivered = true;
        match mode {
            US | RS => {
                if let Some(l) = self.last_delivered
                    && l >= abs
                {
                    return fail("delivered-older", format!("message {abs} was delivered after message {l}"));
                }
                if self.ready != Some(abs) {
                    return fail("delivered-superseded", format!("message {abs} was delivered, the newest arrived is {:?}", self.seen));
                }
                self.ready = None;
            }
            RU => {
                self.ready_ids.remove(&abs);
            }
            _ => {
                if abs != self.next {
                    return fail("delivered-out-of-order", format!("message {abs} was delivered where {} comes next", self.next));
                }
                self.ready_ids.remove(&abs);
                self.next += 1;
            }
        }
        self.last_delivered = Some(abs);
        Ok(())
    }
}

pub fn run_case(case: &NetCase, focus: &'static str, obs: &mut Obs) -> Res {
    let mut sim = Sim::new(case, focus);
    let r = sim.run();
    let st = &sim.st;
    for (l, n) in [
        ("datagrams", st.packets),
        ("dropped", st.dropped),
        ("delayed", st.delayed),
        ("duplicated", st.duplicated),
        ("delivered", st.delivered),
        ("fragments", st.fragments),
        ("resent", st.resent),
        ("packet acks", st.acks),
        ("message nacks", st.nacks),
        ("compressed", st.compressed),
        ("reconnects", st.reconnects),
        ("ack-only", st.ack_only),
        ("superseded", st.superseded),
    ] {
        obs.count(l, n);
    }
    obs.nontrivial_if(match focus {
        "C08" => st.acks > 0 && st.dropped + st.delayed + st.duplicated > 0,
        "C09" | "C10" => st.resent > 0 && st.delivered > 0,
        "C11" => st.superseded > 0,
        "C12" => st.delivered > 0 && st.dropped + st.duplicated + st.delayed > 0,
        "C13" => st.fragments > 0 && st.delivered > 0,
        "C14" => st.acks > 0 && st.nacks > 0,
        "C17" => st.reconnects > 0 && st.delivered > 0,
        "C36" => st.compressed > 0,
        _ => st.packets > 2,
    });
    r
}
