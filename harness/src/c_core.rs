//! C03 sequence numbers, C04 tick and time arithmetic, C05 history buffer, C06 confirmed history,
//! C35 containers.

use crate::fw::{Fail, Obs, Res, Sub, bx, sub};
use crate::util::*;
use crate::{ensure, ensure_eq};
use bytes::BytesMut;
use lightyear_core::buffer_pool::BufferPool;
use lightyear_core::confirmed_history::ConfirmedHistory;
use lightyear_core::history_buffer::{HistoryBuffer, HistoryState};
use lightyear_core::tick::{AtomicTick, Tick};
use lightyear_core::time::{Overstep, TickDelta, TickInstant, TimeDelta};
use lightyear_sync::ping::store::PingId;
use lightyear_transport::packet::PacketId;
use lightyear_transport::packet::message::MessageId;
use lightyear_utils::free_list::FreeList;
use lightyear_utils::ready_buffer::ReadyBuffer;
use lightyear_utils::registry::{RegistryHasher, TypeKind, TypeMapper};
use lightyear_utils::sequence_buffer::SequenceBuffer;
use lightyear_utils::wrapping_id::{WrappedId, wrapping_diff};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::time::Duration;

// ---------------------------------------------------------------------------------------- C03

#[derive(Debug, Clone, Serialize, Deserialize)]
struct SeqCase {
    base: u16,
    /// distances from the base, within one half of the circle
    offs: Vec<u16>,
    shift: u16,
    delta: i16,
}

fn seq(c: &SeqCase, obs: &mut Obs) -> Res {
    macro_rules! laws {
        ($t:ident) => {{
            let name = stringify!($t);
            // positions on an unwrapped number line, all within 2^15 of one another
            let pts: Vec<(u64, $t)> = c
                .offs
                .iter()
                .map(|o| {
                    let x = c.base as u64 + (*o % 0x8000) as u64;
                    (x, $t(x as u16))
                })
                .collect();
            for (xa, a) in &pts {
                for (xb, b) in &pts {
                    let d = *xa as i64 - *xb as i64;
                    let want = xa.cmp(xb);
                    ensure_eq!(a.partial_cmp(b), Some(want), "order", "{name} {} vs {}", a.0, b.0);
                    ensure_eq!((a < b, a > b, a == b), (d < 0, d > 0, d == 0), "order", "{name} {} {}", a.0, b.0);
                    ensure_eq!((*a - *b) as i64, d, "difference", "{name} {} - {}", a.0, b.0);
                    ensure_eq!(wrapping_diff(b.0, a.0) as i64, d, "difference", "diff {} {}", b.0, a.0);
                    // moving both around the circle changes nothing
                    let (sa, sb) = (*a + $t(c.shift), *b + $t(c.shift));
                    ensure_eq!(sa.partial_cmp(&sb), Some(want), "rotation", "{name} shifted by {}", c.shift);
                    ensure_eq!((*b + (*a - *b)), *a, "inverse", "{name} b + (a - b)");
                }
                ensure_eq!((*a + c.delta), $t(((*xa as i64 + c.delta as i64).rem_euclid(65536)) as u16), "add", "{name} + {}", c.delta);
                ensure_eq!((*a - c.shift), $t(((*xa as i64 - c.shift as i64).rem_euclid(65536)) as u16), "sub", "{name} - {}", c.shift);
                let mut m = *a;
                m += c.shift;
                ensure_eq!(m - c.shift, *a, "inverse", "{name} += then -");
                for n in [1usize, 32, 64, 256, 1024] {
                    ensure_eq!(a.rem(n), a.0 as usize % n, "rem", "{name} index");
                }
            }
            // a run of increments across the border stays strictly increasing
            let mut x = $t(c.base);
            for _ in 0..16 {
                let prev = x;
                x += 1;
                ensure!(x > prev && prev < x && x - prev == 1, "increment", "{name} {} then {}", prev.0, x.0);
            }
        }};
    }
    laws!(PacketId);
    laws!(MessageId);
    laws!(PingId);
    obs.nontrivial_if(c.offs.len() > 1);
    obs.label_if(
        c.offs.iter().any(|o| c.base as u32 + (*o % 0x8000) as u32 > 0xffff),
        "wraps",
    );
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum SbOp {
    Push(u16, u32),
    Remove(u16),
    Get(u16),
    Clear,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct SbCase {
    base: u16,
    ops: Vec<SbOp>,
}

/// Keys within one window of 64 consecutive (wrapping) ids never collide.
fn seq_buffer(c: &SbCase, obs: &mut Obs) -> Res {
    let mut b = SequenceBuffer::<PacketId, u32, 64>::new();
    let mut m: HashMap<u16, u32> = HashMap::new();
    let key = |o: u16| c.base.wrapping_add(o % 64);
    // N divides 2^16, so a window stays collision-free across the wrap
    for op in &c.ops {
        match op {
            SbOp::Push(k, v) => {
                b.push(&PacketId(key(*k)), *v);
                m.insert(key(*k), *v);
            }
            SbOp::Remove(k) => {
                let (g, w) = (b.remove(&PacketId(key(*k))), m.remove(&key(*k)));
                ensure_eq!(g, w, "seqbuf-remove", "remove {}", key(*k));
            }
            SbOp::Get(_) => {}
            SbOp::Clear => {
                b.clear();
                m.clear();
            }
        }
        for o in 0..64 {
            ensure_eq!(b.get(&PacketId(key(o))), m.get(&key(o)), "seqbuf-get", "key {}", key(o));
        }
    }
    obs.nontrivial_if(c.ops.len() > 3);
    Ok(())
}

// ---------------------------------------------------------------------------------------- C04

#[derive(Debug, Clone, Serialize, Deserialize)]
struct TickCase {
    a: u32,
    b: u32,
    d: i32,
    u: u32,
    mins: Vec<u32>,
}

fn ticks(c: &TickCase, obs: &mut Obs) -> Res {
    let (a, b) = (Tick(c.a), Tick(c.b));
    let sat = |x: i64| Tick(x.clamp(0, u32::MAX as i64) as u32);
    ensure_eq!(a.cmp(&b), c.a.cmp(&c.b), "tick-order", "order");
    ensure_eq!((a - b) as i64, (c.a as i64 - c.b as i64).clamp(i32::MIN as i64, i32::MAX as i64), "tick-diff", "{} - {}", c.a, c.b);
    ensure_eq!(a - c.u, sat(c.a as i64 - c.u as i64), "tick-sub", "{} - {}", c.a, c.u);
    ensure_eq!(a + b, sat(c.a as i64 + c.b as i64), "tick-add", "{} + {}", c.a, c.b);
    ensure_eq!(a + c.d, sat(c.a as i64 + c.d as i64), "tick-add", "{} + {}", c.a, c.d);
    let mut x = a;
    x += c.u;
    ensure_eq!(x, sat(c.a as i64 + c.u as i64), "tick-add", "{} += {}", c.a, c.u);
    let t = AtomicTick::from(c.a);
    let mut min = c.a;
    for m in &c.mins {
        t.set_if_lower(Tick(*m));
        min = min.min(*m);
        ensure_eq!(t.get(), Tick(min), "atomic-min", "minimum tracker");
    }
    obs.nontrivial_if(c.a != c.b);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct AtomicCase {
    start: u32,
    threads: Vec<Vec<u32>>,
}

fn atomic_threads(c: &AtomicCase, obs: &mut Obs) -> Res {
    let t = AtomicTick::from(c.start);
    std::thread::scope(|s| {
        for v in &c.threads {
            let t = &t;
            s.spawn(move || v.iter().for_each(|x| t.set_if_lower(Tick(*x))));
        }
    });
    let min = c.threads.iter().flatten().copied().min().unwrap_or(u32::MAX).min(c.start);
    ensure_eq!(t.get(), Tick(min), "atomic-min", "concurrent minimum");
    obs.nontrivial_if(c.threads.iter().filter(|v| !v.is_empty()).count() > 1);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct InstCase {
    t1: u32,
    f1: u16,
    t2: u32,
    f2: u16,
    /// integer and fractional part of a delta; the sign separately
    di: u32,
    df: u16,
    neg: bool,
    dur_us: u64,
    dur2_us: u64,
    tick_us: u64,
    scale: f32,
}

const Q: f64 = 65536.0;

fn ov(bits: u16) -> Overstep {
    // exact in f32: 16 bits of mantissa
    Overstep::from_f32(bits as f32 / 65536.0)
}

fn inst(t: u32, f: u16) -> TickInstant {
    TickInstant::from_tick_and_overstep(Tick(t), ov(f))
}

/// The instant as a number of 2^-16 ticks.
fn units(i: TickInstant) -> i128 {
    (i.tick().0 as i128) * 65536 + (i.overstep().to_f32() as f64 * Q) as i128
}

fn instants(c: &InstCase, obs: &mut Obs) -> Res {
    let (a, b) = (inst(c.t1, c.f1), inst(c.t2, c.f2));
    ensure_eq!(a.tick(), Tick(c.t1), "instant-tick", "whole part");
    ensure_eq!(a.overstep().to_f32(), c.f1 as f32 / 65536.0, "instant-overstep", "fraction");
    ensure_eq!(TickInstant::from(Tick(c.t1)), inst(c.t1, 0), "instant-from", "from a tick");
    ensure_eq!(a.cmp(&b), (c.t1, c.f1).cmp(&(c.t2, c.f2)), "instant-order", "order of {a:?} {b:?}");

    // oversteps accumulate within the tick
    let (mut up, mut down) = (ov(c.f1), ov(c.f1));
    up += ov(c.f2);
    down -= ov(c.f2);
    ensure_eq!(up.to_f32(), c.f1.saturating_add(c.f2) as f32 / 65536.0, "overstep-add", "{} += {}", c.f1, c.f2);
    ensure_eq!(down.to_f32(), c.f1.saturating_sub(c.f2) as f32 / 65536.0, "overstep-sub", "{} -= {}", c.f1, c.f2);

    // instants and deltas: exact fixed-point arithmetic, checked in 2^-16 units
    let mag = TickDelta::from(inst(c.di, c.df));
    let d = if c.neg { -mag } else { mag };
    let du = (c.di as i128 * 65536 + c.df as i128) * if c.neg { -1 } else { 1 };
    ensure_eq!(d.is_negative(), du < 0, "delta-sign", "{d:?}");
    ensure_eq!(d.is_positive(), du > 0, "delta-sign", "{d:?}");
    ensure_eq!(d.tick_diff(), c.di, "delta-parts", "whole part of {d:?}");
    ensure_eq!(d.overstep().to_f32(), c.df as f32 / 65536.0, "delta-parts", "fraction of {d:?}");
    ensure_eq!(-(-d), d, "delta-neg", "double negation");
    ensure_eq!(d + (-d), TickDelta::zero(), "delta-neg", "sum with the opposite");
    let want_i = {
        // nearest, ties away from zero
        let (n, r) = ((du.abs()) / 65536, (du.abs()) % 65536);
        (n + i128::from(r >= 32768)) * du.signum()
    };
    if want_i.abs() < i32::MAX as i128 {
        ensure_eq!(d.to_i32() as i128, want_i, "delta-round", "rounding {d:?}");
    }
    ensure_eq!(TickDelta::from_i32(c.di as i32).to_i32(), c.di as i32, "delta-int", "integer");
    let sum = units(a) + du;
    if (0..(1i128 << 48)).contains(&sum) {
        let s = a + d;
        ensure_eq!(units(s), sum, "instant-add", "{a:?} + {d:?}");
        ensure_eq!(s - d, a, "instant-inverse", "({a:?} + {d:?}) - {d:?}");
        ensure_eq!(s - a, d, "instant-diff", "({a:?} + {d:?}) - {a:?}");
        ensure_eq!(a.cmp(&s), 0.cmp(&du), "instant-order", "adding moves in the sign's direction");
    }
    let diff = units(a) - units(b);
    if diff.abs() < (1i128 << 47) {
        ensure_eq!(b + (a - b), a, "instant-diff", "b + (a - b)");
        ensure_eq!(a - b, -(b - a), "instant-diff", "a - b is minus b - a");
        ensure_eq!((a - b).is_negative(), a < b, "delta-sign", "sign of a difference");
    }

    // durations: f32 accuracy, sign and monotonicity
    let td = Duration::from_micros(c.tick_us);
    let (d1, d2) = (Duration::from_micros(c.dur_us), Duration::from_micros(c.dur2_us));
    let x1 = TickDelta::from_duration(d1, td);
    let x2 = TickDelta::from_duration(d2, td);
    let exact = c.dur_us as f64 / c.tick_us as f64;
    let tol = exact * 4e-7 + 1e-6;
    ensure!((x1.to_f32() as f64 - exact).abs() <= tol, "dur-ticks", "{d1:?} at {td:?} per tick is {} ticks, expected {exact}", x1.to_f32());
    if d1 <= d2 {
        ensure!(x1.tick_diff() <= x2.tick_diff() + u32::from(d2 == d1), "dur-monotone", "{d1:?} {d2:?}");
        ensure!(x1.to_f32() <= x2.to_f32(), "dur-monotone", "{d1:?} -> {} but {d2:?} -> {}", x1.to_f32(), x2.to_f32());
    }
    let back = x1.to_duration(td).as_secs_f64();
    let d1s = d1.as_secs_f64();
    ensure!((back - d1s).abs() <= d1s * 1e-6 + 1e-6, "dur-roundtrip", "{d1:?} came back as {back} s");
    let i1 = TickInstant::from_duration(d1, td);
    ensure_eq!(TickDelta::from(i1), x1, "dur-instant", "instant and delta from one duration");
    let backi = i1.as_duration(td).as_secs_f64();
    ensure!((backi - d1s).abs() <= d1s * 1e-6 + 1e-6, "dur-roundtrip", "instant {d1:?} came back as {backi} s");
    let t = TimeDelta::from_duration(d1).unwrap();
    let p = TickDelta::from_time_delta(t, td);
    let n = TickDelta::from_time_delta(-t, td);
    ensure_eq!(p, x1, "timedelta", "positive time delta");
    ensure_eq!(n, -x1, "timedelta", "negative time delta");
    let tb = n.to_time_delta(td);
    ensure!(n.is_negative() != tb.is_positive() || d1.is_zero(), "timedelta-sign", "{n:?} -> {tb:?}");
    let abs = if n.is_negative() { -tb } else { tb };
    let abs = abs.as_duration().map_err(|e| Fail::new("timedelta-sign", e.to_string()))?.as_secs_f64();
    ensure!((abs - d1s).abs() <= d1s * 1e-6 + 1e-6, "timedelta", "{d1:?} came back as {abs} s");
    let m = (x1 * c.scale).to_f32() as f64;
    let want = exact * c.scale as f64;
    if want.abs() < 1e8 {
        ensure!((m - want).abs() <= want.abs() * 1e-6 + 1e-5, "delta-scale", "{exact} * {} = {m}", c.scale);
    }
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------- C05

#[derive(Debug, Clone, Serialize, Deserialize)]
enum HOp {
    Add { gap: u8, val: Option<u8>, via_state: bool },
    Extend { gap: u8 },
    ClearUntil(u8),
    ClearAfter(u8),
    PopUntil(u8),
    ClearExcept(u8),
    Pop,
    Clear,
    Shift(i8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct HCase {
    start: u32,
    ops: Vec<HOp>,
}

fn hop() -> BoxedStrategy<HOp> {
    prop_oneof![
        8 => (0u8..6, proptest::option::weighted(0.75, 0u8..5), any::<bool>()).prop_map(|(gap, val, via_state)| HOp::Add { gap, val, via_state }),
        1 => (0u8..6).prop_map(|gap| HOp::Extend { gap }),
        2 => any::<u8>().prop_map(HOp::ClearUntil),
        2 => any::<u8>().prop_map(HOp::ClearAfter),
        2 => any::<u8>().prop_map(HOp::PopUntil),
        1 => any::<u8>().prop_map(HOp::ClearExcept),
        1 => Just(HOp::Pop),
        1 => (0u8..20).prop_map(|x| if x == 0 { HOp::Clear } else { HOp::Pop }),
        1 => any::<i8>().prop_map(HOp::Shift),
    ]
    .boxed()
}

type St = Option<u8>;

fn st(s: Option<&HistoryState<u8>>) -> Option<St> {
    s.map(|s| s.value().copied())
}

/// The model is the set of explicit entries; every query is answered from it by definition.
fn history(c: &HCase, obs: &mut Obs) -> Res {
    let mut h = HistoryBuffer::<u8>::default();
    let mut m: BTreeMap<u32, St> = BTreeMap::new();
    let at = |m: &BTreeMap<u32, St>, t: u32| m.range(..=t).next_back().map(|(_, s)| *s);
    let mut cursor = c.start.max(1000);
    let mut cuts = 0;
    for op in &c.ops {
        // ticks around the stored ones, sometimes outside
        let lo = m.keys().next().copied().unwrap_or(cursor);
        let hi = m.keys().next_back().copied().unwrap_or(cursor);
        let pick = |x: u8| (lo - 3) + (x as u32 % (hi - lo + 7));
        let before = m.clone();
        match op {
            HOp::Add { gap, val, via_state } => {
                let t = hi + *gap as u32;
                match (val, via_state) {
                    (v, true) => h.add_state(Tick(t), match v { Some(v) => HistoryState::Updated(*v), None => HistoryState::Removed }),
                    (Some(v), false) => h.add_update(Tick(t), *v),
                    (None, false) => h.add_remove(Tick(t)),
                }
                m.insert(t, *val);
                cursor = t;
            }
            HOp::Extend { gap } => {
                if let Some(s) = m.remove(&hi) {
                    h.set_most_recent_tick(Tick(hi + *gap as u32));
                    m.insert(hi + *gap as u32, s);
                }
            }
            HOp::ClearUntil(x) => {
                let t = pick(*x);
                h.clear_until_tick(Tick(t));
                if let Some(s) = at(&m, t) {
                    m.retain(|k, _| *k > t);
                    m.insert(t, s);
                    cuts += 1;
                }
            }
            HOp::ClearAfter(x) => {
                let t = pick(*x);
                h.clear_after_tick(Tick(t));
                m.retain(|k, _| *k <= t);
                cuts += 1;
            }
            HOp::PopUntil(x) => {
                let t = pick(*x);
                let r = h.pop_until_tick(Tick(t));
                ensure_eq!(st(r.as_ref()), at(&m, t), "pop-until", "state at {t}");
                if let Some(s) = at(&m, t) {
                    m.retain(|k, _| *k > t);
                    m.insert(t, s);
                    cuts += 1;
                }
            }
            HOp::ClearExcept(x) => {
                let t = pick(*x);
                let r = h.clear_except_tick(Tick(t));
                let s = at(&m, t);
                ensure_eq!(st(r.as_ref()), s, "clear-except", "state at {t}");
                m.clear();
                if let Some(s) = s {
                    m.insert(t, s);
                }
            }
            HOp::Pop => {
                let r = h.pop();
                let w = m.pop_first();
                ensure_eq!(r.map(|(t, s)| (t.0, s.into_value())), w, "pop", "oldest");
            }
            HOp::Clear => {
                h.clear();
                m.clear();
            }
            HOp::Shift(d) => {
                h.update_ticks(*d as i32);
                m = m.into_iter().map(|(k, s)| ((k as i64 + *d as i64) as u32, s)).collect();
                cursor = (cursor as i64 + *d as i64) as u32;
            }
        }
        // what each cut promises, stated on the answers rather than on the entries
        let after = |t: u32| st(h.get_state(Tick(t)));
        match op {
            HOp::ClearUntil(_) | HOp::PopUntil(_) => {
                let x = match op { HOp::ClearUntil(x) | HOp::PopUntil(x) => *x, _ => 0 };
                let t = (lo - 3) + (x as u32 % (hi - lo + 7));
                for u in t..=hi + 3 {
                    ensure_eq!(after(u), at(&before, u), "cut-changes-kept", "state at {u} after dropping states before {t}");
                }
            }
            HOp::ClearAfter(x) => {
                let t = (lo - 3) + (*x as u32 % (hi - lo + 7));
                for u in lo - 3..=t {
                    ensure_eq!(after(u), at(&before, u), "cut-changes-kept", "state at {u} after dropping states after {t}");
                }
            }
            _ => {}
        }
        // every query against the model
        let keys: Vec<u32> = m.keys().copied().collect();
        ensure_eq!(h.len(), m.len(), "len", "entries after {op:?}");
        ensure_eq!(h.is_empty(), m.is_empty(), "len", "emptiness");
        ensure_eq!(h.oldest().map(|e| e.0.0), keys.first().copied(), "oldest", "oldest tick");
        ensure_eq!(h.most_recent().map(|e| e.0.0), keys.last().copied(), "newest", "newest tick");
        let (l, u) = (keys.first().copied().unwrap_or(cursor), keys.last().copied().unwrap_or(cursor));
        for t in l.saturating_sub(4)..=u + 4 {
            ensure_eq!(st(h.get_state(Tick(t))), at(&m, t), "get-state", "state at {t} after {op:?}");
            ensure_eq!(h.get(Tick(t)).copied(), at(&m, t).flatten(), "get", "value at {t} after {op:?}");
        }
        for t in u..u + 3 {
            let want = if m.is_empty() { None } else { at(&m, t - 1).flatten() };
            ensure_eq!(h.second_most_recent(Tick(t)).copied(), want, "second", "value before {t}");
        }
        let present: Vec<(u32, u8)> = m.iter().filter_map(|(k, s)| s.map(|v| (*k, v))).collect();
        let it: Vec<(u32, u8)> = (&h).into_iter().map(|(t, v)| (t.0, *v)).collect();
        ensure_eq!(it, present, "iter", "present values in order");
    }
    let owned: Vec<(u32, u8)> = h.into_iter().map(|(t, v)| (t.0, v)).collect();
    let present: Vec<(u32, u8)> = m.iter().filter_map(|(k, s)| s.map(|v| (*k, v))).collect();
    ensure_eq!(owned, present, "iter", "present values in order (owned)");
    obs.nontrivial_if(cuts > 0 && c.ops.len() > 4);
    Ok(())
}

// ---------------------------------------------------------------------------------------- C06

#[derive(Debug, Clone, Serialize, Deserialize)]
enum COp {
    Insert(u8, St),
    InsertExplicit(u8, St),
    InsertSorted(u8, St),
    AddUnchanged(u8),
    PushUnchanged(u8),
    ClearUntil(u8),
    PopPresent,
    Shift(i8),
    Clear,
}

fn cop() -> BoxedStrategy<COp> {
    let s = || proptest::option::weighted(0.75, 0u8..3);
    prop_oneof![
        6 => (any::<u8>(), s()).prop_map(|(t, s)| COp::Insert(t, s)),
        2 => (any::<u8>(), s()).prop_map(|(t, s)| COp::InsertExplicit(t, s)),
        2 => (0u8..4, s()).prop_map(|(t, s)| COp::InsertSorted(t, s)),
        3 => any::<u8>().prop_map(COp::AddUnchanged),
        3 => any::<u8>().prop_map(COp::PushUnchanged),
        2 => any::<u8>().prop_map(COp::ClearUntil),
        1 => Just(COp::PopPresent),
        1 => any::<i8>().prop_map(COp::Shift),
        1 => Just(COp::Clear),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CCase {
    start: u32,
    ops: Vec<COp>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Raw {
    Ex(St),
    /// carries on whatever precedes it
    Same,
    /// an explicit state that was equal to its predecessor when it arrived
    Merged(St),
}

#[derive(Clone, Default)]
struct CModel(BTreeMap<u32, Raw>);

impl CModel {
    /// `ideal`: an explicit state stays what it was; otherwise a merged one follows its predecessor
    /// (the documented storage).
    fn resolve(&self, up_to: u32, ideal: bool) -> Option<St> {
        self.0.range(..=up_to).rev().find_map(|(_, r)| match r {
            Raw::Ex(s) => Some(*s),
            Raw::Merged(s) if ideal => Some(*s),
            _ => None,
        })
    }
    fn before(&self, t: u32, ideal: bool) -> Option<St> {
        t.checked_sub(1).and_then(|t| self.resolve(t, ideal))
    }
}

fn hs(s: St) -> HistoryState<u8> {
    match s {
        Some(v) => HistoryState::Updated(v),
        None => HistoryState::Removed,
    }
}

fn confirmed(c: &CCase, obs: &mut Obs) -> Res {
    let mut h = ConfirmedHistory::<u8>::default();
    let mut m = CModel::default();
    let mut base = c.start.max(1000);
    let mut late = None;
    let mut inserts = 0;
    for op in &c.ops {
        let hi = m.0.keys().next_back().copied().unwrap_or(base);
        let lo = m.0.keys().next().copied().unwrap_or(base);
        let pick = |x: &u8| (lo - 4) + (*x as u32 % (hi - lo + 12));
        match op {
            COp::Insert(x, s) | COp::InsertSorted(x, s) => {
                let t = if let COp::Insert(..) = op { pick(x) } else { hi + *x as u32 };
                if let COp::Insert(..) = op {
                    match s {
                        Some(v) => h.insert_present(Tick(t), *v),
                        None => h.insert_removed(Tick(t)),
                    }
                } else {
                    // SAFETY: `t` is not older than the newest entry
                    unsafe { h.insert_assume_sorted(Tick(t), hs(*s)) }
                }
                let raw = if m.before(t, false) == Some(*s) { Raw::Merged(*s) } else { Raw::Ex(*s) };
                m.0.insert(t, raw);
                inserts += 1;
                // right after its arrival an authoritative state is what its tick answers
                ensure_eq!(st(h.get_state_at(Tick(t))), Some(*s), "insert-lost", "state at {t} just inserted");
            }
            COp::InsertExplicit(x, s) => {
                let t = pick(x);
                h.insert_explicit(Tick(t), hs(*s));
                m.0.insert(t, Raw::Ex(*s));
                inserts += 1;
            }
            COp::AddUnchanged(x) => {
                let t = pick(x);
                let ok = h.add_unchanged(Tick(t));
                let want = m.before(t, false).is_some() && !m.0.contains_key(&t);
                ensure_eq!(ok, want, "add-unchanged", "at {t}");
                if want {
                    m.0.insert(t, Raw::Same);
                }
            }
            COp::PushUnchanged(x) => {
                let t = pick(x);
                let r = h.push_unchanged(Tick(t));
                let want = (!m.0.is_empty() && t > hi && m.resolve(hi, false).flatten().is_some()).then_some(hi);
                ensure_eq!(r.map(|t| t.0), want, "push-unchanged", "at {t}, newest {hi}");
                if want.is_some() {
                    m.0.insert(t, Raw::Same);
                }
            }
            COp::ClearUntil(x) => {
                let t = pick(x);
                let before: Vec<_> = (t..=hi + 3).map(|u| st(h.get_state_at_or_before(Tick(u)))).collect();
                h.clear_until_tick(Tick(t));
                let after: Vec<_> = (t..=hi + 3).map(|u| st(h.get_state_at_or_before(Tick(u)))).collect();
                ensure_eq!(after, before, "cut-changes-kept", "answers from {t} on, after dropping older states");
                ensure!(
                    h.get_nth_tick(0).is_none_or(|o| o.0 >= t),
                    "cut-keeps-old",
                    "oldest is {:?} after dropping states before {t}",
                    h.get_nth_tick(0)
                );
                let (at, ideal) = (m.resolve(t, false), m.resolve(t, true));
                m.0.retain(|k, _| *k >= t);
                if let Some(s) = at {
                    // the answer at the cut becomes an entry of its own
                    if at != ideal {
                        late = late.or(Some((t, ideal, at)));
                    }
                    m.0.insert(t, Raw::Ex(s));
                }
            }
            COp::PopPresent => {
                let first = m.0.pop_first();
                let want = first.and_then(|(t, r)| match r {
                    Raw::Ex(Some(v)) => Some((t, v)),
                    _ => None,
                });
                let r = h.pop_present();
                ensure_eq!(r.map(|(t, v)| (t.0, v)), want, "pop-present", "oldest");
                if let (Some((_, Raw::Ex(s))), Some(mut e)) = (first, m.0.first_entry())
                    && !matches!(e.get(), Raw::Ex(_))
                {
                    *e.get_mut() = Raw::Ex(s);
                }
            }
            COp::Shift(d) => {
                h.update_ticks(*d as i32);
                m.0 = std::mem::take(&mut m.0).into_iter().map(|(k, r)| ((k as i64 + *d as i64) as u32, r)).collect();
                base = (base as i64 + *d as i64) as u32;
            }
            COp::Clear => {
                h.clear();
                m.0.clear();
            }
        }
        let keys: Vec<u32> = m.0.keys().copied().collect();
        ensure_eq!(h.len(), keys.len(), "len", "entries after {op:?}");
        ensure_eq!(h.is_empty(), keys.is_empty(), "len", "emptiness");
        let (l, u) = (keys.first().copied().unwrap_or(base), keys.last().copied().unwrap_or(base));
        for t in l.saturating_sub(4)..=u + 4 {
            let want = m.resolve(t, false);
            ensure_eq!(st(h.get_state_at_or_before(Tick(t))), want, "at-or-before", "state at {t} after {op:?}");
            ensure_eq!(h.get_present(Tick(t)).copied(), want.flatten(), "present", "value at {t} after {op:?}");
            let exact = m.0.contains_key(&t).then_some(want).flatten();
            ensure_eq!(st(h.get_state_at(Tick(t))), exact, "at", "state exactly at {t} after {op:?}");
            if late.is_none() && want != m.resolve(t, true) {
                late = Some((t, m.resolve(t, true), want));
            }
        }
        for (n, k) in keys.iter().enumerate() {
            ensure_eq!(h.get_nth_tick(n).map(|t| t.0), Some(*k), "nth", "tick {n}");
            let want = m.resolve(*k, false).map(|s| (*k, s));
            ensure_eq!(h.get_nth_state(n).map(|(t, s)| (t.0, s.value().copied())), want, "nth", "state {n}");
            let wp = want.and_then(|(k, s)| s.map(|v| (k, v)));
            ensure_eq!(h.get_nth_present(n).map(|(t, v)| (t.0, *v)), wp, "nth", "value {n}");
        }
        ensure!(h.get_nth_state(keys.len()).is_none(), "nth", "past the end");
        let newest = keys.last().and_then(|k| m.resolve(*k, false).flatten().map(|v| (*k, v)));
        ensure_eq!(h.newest_present().map(|(t, v)| (t.0, *v)), newest, "newest", "newest present");
        let want: Vec<(u32, u8)> = keys.iter().filter_map(|k| m.resolve(*k, false).flatten().map(|v| (*k, v))).collect();
        let it: Vec<(u32, u8)> = (&h).into_iter().map(|(t, v)| (t.0, *v)).collect();
        ensure_eq!(it, want, "iter", "present values in order");
    }
    let keys: Vec<u32> = m.0.keys().copied().collect();
    let want: Vec<(u32, u8)> = keys.iter().filter_map(|k| m.resolve(*k, false).flatten().map(|v| (*k, v))).collect();
    let it: Vec<(u32, u8)> = h.into_iter().map(|(t, v)| (t.0, v)).collect();
    ensure_eq!(it, want, "iter", "present values in order (owned)");
    obs.nontrivial_if(inserts > 2);
    if let Some((t, ideal, got)) = late {
        obs.label("late-update-overrides-merged");
        return Err(Fail::new(
            "late-update-overrides-merged",
            format!("the authoritative state received for tick {t} was {ideal:?}, the history answers {got:?} after a late update for an earlier tick"),
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C35

#[derive(Debug, Clone, Serialize, Deserialize)]
enum ROp {
    Push(u8),
    PopItem(u8),
    PopUntil(u8),
    DrainUntil(u8),
    DrainAfter(u8),
    Drain,
    Clear,
}

fn rop() -> BoxedStrategy<ROp> {
    prop_oneof![
        8 => (0u8..24).prop_map(ROp::Push),
        3 => (0u8..26).prop_map(ROp::PopItem),
        2 => (0u8..26).prop_map(ROp::PopUntil),
        2 => (0u8..26).prop_map(ROp::DrainUntil),
        2 => (0u8..26).prop_map(ROp::DrainAfter),
        1 => Just(ROp::Drain),
        1 => Just(ROp::Clear),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RCase {
    ops: Vec<ROp>,
}

fn ready(c: &RCase, obs: &mut Obs) -> Res {
    let mut b = ReadyBuffer::<u8, usize>::new();
    // key -> items in it; equal keys may come out in any order
    let mut m: Vec<(u8, usize)> = vec![];
    fn take(m: &mut Vec<(u8, usize)>, got: (u8, usize)) -> Res {
        match m.iter().position(|e| *e == got) {
            Some(i) => {
                m.remove(i);
                Ok(())
            }
            None => Err(Fail::new("ready-foreign", format!("{got:?} came out but is not inside"))),
        }
    }
    for (n, op) in c.ops.iter().enumerate() {
        let min = m.iter().map(|e| e.0).min();
        match op {
            ROp::Push(k) => {
                b.push(*k, n);
                m.push((*k, n));
            }
            ROp::PopItem(k) => {
                ensure_eq!(b.has_item(k), min.is_some_and(|m| m <= *k), "ready-has", "ready at {k}");
                let peek = b.peek_item(k).map(|(k, v)| (k, *v));
                let r = b.pop_item(k);
                ensure_eq!(r, peek, "ready-peek", "peek and pop");
                ensure_eq!(r.map(|e| e.0), min.filter(|m| m <= k), "ready-pop", "key popped at {k}");
                if let Some(e) = r {
                    take(&mut m, e)?;
                }
            }
            ROp::PopUntil(k) => {
                // everything up to `k` leaves; the last of them is returned
                let want = m.iter().filter(|e| e.0 <= *k).map(|e| e.0).max();
                let r = b.pop_until(k);
                ensure_eq!(r.map(|e| e.0), want, "ready-pop-until", "key returned for {k}");
                if let Some(e) = r {
                    take(&mut m, e)?;
                }
                m.retain(|e| e.0 > *k);
            }
            ROp::DrainUntil(k) => {
                let r = b.drain_until(k);
                ensure!(r.windows(2).all(|w| w[0].0 <= w[1].0), "ready-order", "drained out of order: {r:?}");
                let n = m.iter().filter(|e| e.0 <= *k).count();
                ensure_eq!(r.len(), n, "ready-drain", "items up to {k}");
                for e in r {
                    ensure!(e.0 <= *k, "ready-drain", "{e:?} is after {k}");
                    take(&mut m, e)?;
                }
            }
            ROp::DrainAfter(k) => {
                let r = b.drain_after(k);
                let n = m.iter().filter(|e| e.0 >= *k).count();
                ensure_eq!(r.len(), n, "ready-drain", "items from {k} on");
                for e in r {
                    ensure!(e.0 >= *k, "ready-drain", "{e:?} is before {k}");
                    take(&mut m, e)?;
                }
            }
            ROp::Drain => {
                let mut r: Vec<_> = b.drain().collect();
                r.sort();
                m.sort();
                ensure_eq!(r, m, "ready-drain", "everything");
                m.clear();
            }
            ROp::Clear => {
                b.clear();
                m.clear();
            }
        }
        ensure_eq!(b.len(), m.len(), "ready-len", "after {op:?}");
        ensure_eq!(b.is_empty(), m.is_empty(), "ready-len", "after {op:?}");
    }
    obs.nontrivial_if(c.ops.len() > 4);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct FCase {
    /// insert, or remove this slot
    ops: Vec<Option<u8>>,
}

fn free_list(c: &FCase, obs: &mut Obs) -> Res {
    const N: usize = 8;
    let mut f = FreeList::<usize, N>::new();
    let mut m: [Option<usize>; N] = [None; N];
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            None => {
                if m.iter().all(|x| x.is_some()) {
                    continue;
                }
                let i = f.insert(n);
                ensure!(i < N && m[i].is_none(), "slot-reused", "slot {i} was handed out while in use");
                m[i] = Some(n);
            }
            Some(i) => {
                let i = *i as usize % N;
                f.remove(i);
                m[i] = None;
            }
        }
        ensure_eq!(f.len(), m.iter().flatten().count(), "freelist-len", "length");
        for i in 0..N + 2 {
            ensure_eq!(f.get(i).copied(), m.get(i).copied().flatten(), "freelist-get", "slot {i}");
        }
        let all: Vec<_> = f.iter().collect();
        let want: Vec<_> = m.iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x))).collect();
        ensure_eq!(all, want, "freelist-iter", "iteration");
    }
    obs.nontrivial_if(c.ops.len() > 4);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum BOp {
    Take,
    /// write n bytes into buffer i, then hand it over
    Handoff(u8, u16),
    Recycle(u8),
    DropView(u8),
    Reclaim,
    SetCap(u8),
}

fn bop() -> BoxedStrategy<BOp> {
    prop_oneof![
        4 => Just(BOp::Take),
        4 => (any::<u8>(), 0u16..300).prop_map(|(i, n)| BOp::Handoff(i, n)),
        2 => any::<u8>().prop_map(BOp::Recycle),
        4 => any::<u8>().prop_map(BOp::DropView),
        3 => Just(BOp::Reclaim),
        1 => (0u8..4).prop_map(BOp::SetCap),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BCase {
    pre: u8,
    max: u8,
    ops: Vec<BOp>,
}

/// Recycled memory is never visible through two owners at once.
fn pool(c: &BCase, obs: &mut Obs) -> Res {
    let mut cap = 128usize;
    let mut p = BufferPool::new(cap, c.max as usize);
    p.preallocate(c.pre as usize);
    let mut open: VecDeque<BytesMut> = VecDeque::new();
    let mut views: Vec<(BytesMut, Vec<u8>)> = vec![];
    let mut fill = 0u8;
    let mut taken = 0usize;
    let mut handoffs = 0;
    for op in &c.ops {
        match op {
            BOp::Take => {
                let b = p.take();
                taken += 1;
                ensure!(b.is_empty(), "pool-dirty", "a taken buffer holds {} bytes", b.len());
                ensure!(b.capacity() >= cap, "pool-capacity", "capacity {} below {cap}", b.capacity());
                open.push_back(b);
            }
            BOp::Handoff(i, n) => {
                if open.is_empty() {
                    continue;
                }
                let k = *i as usize % open.len();
                let mut b = open.remove(k).unwrap();
                fill = fill.wrapping_add(1);
                let data = vec![fill; *n as usize];
                b.extend_from_slice(&data);
                let v = p.split_for_handoff(b);
                ensure_eq!(&v[..], &data[..], "pool-payload", "payload handed over");
                views.push((v, data));
                handoffs += 1;
            }
            BOp::Recycle(i) => {
                if !open.is_empty() {
                    let k = *i as usize % open.len();
                    let mut b = open.remove(k).unwrap();
                    b.extend_from_slice(&[0xee; 5]);
                    p.recycle(b);
                }
            }
            BOp::DropView(i) => {
                if !views.is_empty() {
                    let k = *i as usize % views.len();
                    views.swap_remove(k);
                }
            }
            BOp::Reclaim => p.reclaim_pending(),
            BOp::SetCap(x) => {
                cap = [128, 64, 200, 128][*x as usize];
                p.set_buffer_capacity(cap);
            }
        }
        // scribble over every open buffer: no handed-over payload may change
        fill = fill.wrapping_add(1);
        for b in &mut open {
            let n = b.capacity();
            b.clear();
            b.resize(n, fill);
            b.clear();
        }
        for (v, d) in &views {
            ensure_eq!(&v[..], &d[..], "pool-aliasing", "a handed-over payload changed");
        }
        ensure!(p.misses() <= taken, "pool-misses", "{} misses for {taken} takes", p.misses());
    }
    obs.nontrivial_if(handoffs > 1);
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
struct Kind(std::any::TypeId);
impl From<std::any::TypeId> for Kind {
    fn from(t: std::any::TypeId) -> Self {
        Kind(t)
    }
}
impl TypeKind for Kind {}

macro_rules! tags { ($($n:ident),*) => { $(struct $n;)* } }
tags!(T0, T1, T2, T3, T4, T5, T6, T7);

#[derive(Debug, Clone, Serialize, Deserialize)]
struct TmCase {
    a: Vec<u8>,
    b: Vec<u8>,
}

fn mapper(regs: &[u8]) -> (TypeMapper<Kind>, Vec<Kind>) {
    let mut m = TypeMapper::<Kind>::new();
    let kinds = regs
        .iter()
        .map(|i| match i % 8 {
            0 => m.add::<T0>(),
            1 => m.add::<T1>(),
            2 => m.add::<T2>(),
            3 => m.add::<T3>(),
            4 => m.add::<T4>(),
            5 => m.add::<T5>(),
            6 => m.add::<T6>(),
            _ => m.add::<T7>(),
        })
        .collect();
    (m, kinds)
}

fn hash_of(regs: &[u8]) -> u64 {
    let mut h = RegistryHasher::default();
    for i in regs {
        match i % 8 {
            0 => h.hash::<T0>(),
            1 => h.hash::<T1>(),
            2 => h.hash::<T2>(),
            3 => h.hash::<T3>(),
            4 => h.hash::<T4>(),
            5 => h.hash::<T5>(),
            6 => h.hash::<T6>(),
            _ => h.hash::<T7>(),
        }
    }
    let x = h.finish();
    assert_eq!(x, h.finish(), "hash changes between calls");
    x
}

fn type_mapper(c: &TmCase, obs: &mut Obs) -> Res {
    let (m, kinds) = mapper(&c.a);
    // ids are dense in first-registration order, and the two directions agree
    let mut order: Vec<u8> = vec![];
    for i in &c.a {
        if !order.contains(&(i % 8)) {
            order.push(i % 8);
        }
    }
    for (i, k) in c.a.iter().zip(&kinds) {
        let want = order.iter().position(|x| *x == i % 8).unwrap() as u16;
        ensure_eq!(m.net_id(k).copied(), Some(want), "net-id", "id of type {i}");
        ensure_eq!(m.kind(want).copied(), Some(*k), "net-kind", "type of id {want}");
        ensure!(m.name(k).is_some_and(|n| n.ends_with(&format!("T{}", i % 8))), "net-name", "name of {i}");
    }
    ensure!(m.kind(order.len() as u16).is_none(), "net-kind", "unassigned id resolves");
    // one sequence, one set of ids and one hash; a different sequence, a different hash
    let (m2, _) = mapper(&c.a);
    ensure_eq!(m, m2, "registration-deterministic", "mapper");
    let canon = |v: &[u8]| v.iter().map(|x| x % 8).collect::<Vec<_>>();
    ensure_eq!(hash_of(&c.a) == hash_of(&c.b), canon(&c.a) == canon(&c.b), "protocol-hash", "hash equality of {:?} {:?}", c.a, c.b);
    obs.nontrivial_if(order.len() > 1);
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C03", "order", 400000, 4_000_000, || bx((edgy_u16(), vec(edgy_u16(), 1..6), edgy_u16(), any::<i16>())
            .prop_map(|(base, offs, shift, delta)| SeqCase { base, offs, shift, delta })), seq),
        sub("C03", "window", 80000, 400_000, || bx((edgy_u16(), vec(prop_oneof![
                4 => (any::<u16>(), any::<u32>()).prop_map(|(k, v)| SbOp::Push(k, v)),
                2 => any::<u16>().prop_map(SbOp::Remove),
                1 => any::<u16>().prop_map(SbOp::Get),
                1 => (0u8..6).prop_map(|x| if x == 0 { SbOp::Clear } else { SbOp::Get(0) }),
            ], 0..40)).prop_map(|(base, ops)| SbCase { base, ops })), seq_buffer),
        sub("C04", "ticks", 600000, 4_000_000, || bx((edgy_u32(), edgy_u32(), any::<i32>(), edgy_u32(), vec(edgy_u32(), 0..6))
            .prop_map(|(a, b, d, u, mins)| TickCase { a, b, d, u, mins })), ticks),
        sub("C04", "atomic", 4000, 20_000, || bx((edgy_u32(), vec(vec(edgy_u32(), 0..50), 1..4))
            .prop_map(|(start, threads)| AtomicCase { start, threads })), atomic_threads),
        sub("C04", "instants", 1600000, 12_000_000, || bx(((edgy_u32(), edgy_u16(), edgy_u32(), edgy_u16()),
                (edgy_u64((1 << 31) - 1), edgy_u16(), any::<bool>()),
                (0u64..4_000_000_000, 0u64..4_000_000_000, 1_000u64..200_000, -3.0f32..3.0))
            .prop_map(|((t1, f1, t2, f2), (di, df, neg), (dur_us, dur2_us, tick_us, scale))|
                InstCase { t1, f1, t2, f2, di: di as u32, df, neg, dur_us, dur2_us, tick_us, scale })), instants),
        sub("C05", "history", 600000, 6_000_000, || bx((1000u32..u32::MAX - 100_000, vec(hop(), 0..24))
            .prop_map(|(start, ops)| HCase { start, ops })), history),
        sub("C06", "confirmed", 600000, 6_000_000, || bx((1000u32..u32::MAX - 100_000, vec(cop(), 0..20))
            .prop_map(|(start, ops)| CCase { start, ops })), confirmed),
        sub("C35", "ready", 400000, 2_000_000, || bx(vec(rop(), 0..30).prop_map(|ops| RCase { ops })), ready),
        sub("C35", "freelist", 200000, 1_000_000, || bx(vec(proptest::option::weighted(0.4, any::<u8>()), 0..30).prop_map(|ops| FCase { ops })), free_list),
        sub("C35", "pool", 200000, 1_000_000, || bx((0u8..6, 0u8..6, vec(bop(), 0..40)).prop_map(|(pre, max, ops)| BCase { pre, max, ops })), pool),
        sub("C35", "registry", 200000, 1_000_000, || bx(prop_oneof![
                (vec(0u8..8, 0..8), vec(0u8..8, 0..8)).prop_map(|(a, b)| TmCase { a, b }),
                vec(0u8..8, 1..8).prop_flat_map(|a| { let n = a.len(); (Just(a), 0..n, 0..n) }).prop_map(|(a, i, j)| { let mut b = a.clone(); b.swap(i, j); TmCase { a, b } }),
            ]), type_mapper),
    ]
}
