//! C38 input histories.

use crate::fw::{Obs, Res, Sub, bx, sub};
use crate::{ensure, ensure_eq};
use lightyear_core::tick::Tick;
use lightyear_inputs::input_buffer::{Compressed, InputBuffer};
use lightyear_inputs::input_message::ActionStateSequence;
use lightyear_inputs_native::prelude::{ActionState, NativeStateSequence};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

/// Compares two values under a signature.
macro_rules! eq {
    ($a:expr, $b:expr, $sig:expr) => {
        ensure_eq!($a, $b, $sig, "{}", $sig)
    };
}

type Buf = InputBuffer<ActionState<u8>, u8>;
type Seq = NativeStateSequence<u8>;

/// What a history says, tick by tick: its first tick and the value at each.
#[derive(Clone, Debug, PartialEq)]
struct View {
    start: Option<u32>,
    values: Vec<Option<u8>>,
}

impl View {
    fn of(b: &Buf) -> View {
        let start = b.start_tick.map(|t| t.0);
        let values = (0..b.len() as u32)
            .map(|i| b.get(Tick(start.unwrap() + i)).map(|a| a.0))
            .collect();
        View { start, values }
    }
    /// First tick after the last one held.
    fn end(&self) -> u32 {
        self.start.map_or(0, |s| s + self.values.len() as u32)
    }
    fn get(&self, t: u32) -> Option<u8> {
        let s = self.start?;
        t.checked_sub(s).and_then(|i| self.values.get(i as usize).copied().flatten())
    }
    fn last(&self) -> Option<u8> {
        self.values.last().copied().flatten()
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum BufOp {
    /// relative to the tick after the last one held
    Set(i32, u8),
    Empty(i32),
    /// a gap of many ticks
    Far(u32, u8),
    Pop(i32),
    PopKeep(i32),
    Clip(i32),
    Extend(i32, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BufCase {
    base: u32,
    ops: Vec<BufOp>,
}

fn near() -> BoxedStrategy<i32> {
    bx(prop_oneof![6 => Just(0i32), 3 => 1i32..6, 4 => -8i32..0])
}

fn buf_case() -> BoxedStrategy<BufCase> {
    let op = prop_oneof![
        10 => (near(), 0u8..3).prop_map(|(d, v)| BufOp::Set(d, v)),
        3 => near().prop_map(BufOp::Empty),
        3 => near().prop_map(BufOp::Pop),
        3 => near().prop_map(BufOp::PopKeep),
        2 => near().prop_map(BufOp::Clip),
        2 => (near(), 0u8..6).prop_map(|(a, b)| BufOp::Extend(a, b)),
    ];
    let far = prop_oneof![
        30 => Just(None),
        1 => (200_000u32..400_000, 0u8..3).prop_map(|(n, v)| Some(BufOp::Far(n, v))),
    ];
    bx((prop_oneof![1 => Just(0u32), 2 => 1u32..6, 4 => 100u32..200], vec(op, 1..25), far).prop_map(
        |(base, mut ops, far)| {
            ops.extend(far);
            BufCase { base, ops }
        },
    ))
}

fn check_reads(b: &Buf, v: &View) -> Res {
    if let Some(s) = v.start {
        eq!(b.end_tick().map(|t| t.0 + 1), Some(v.end().max(1)), "end-tick");
        for t in s.saturating_sub(2)..v.end() + 3 {
            let (get, predict) = (b.get(Tick(t)).map(|a| a.0), b.get_predict(Tick(t)).map(|a| a.0));
            eq!(get, v.get(t), "get");
            let want = if t >= v.end() { v.last() } else { v.get(t) };
            eq!(predict, want, "predict");
        }
    }
    eq!(b.get_last().map(|a| a.0), v.last(), "last");
    let want = v.last().map(|x| (v.end() - 1, x));
    eq!(b.get_last_with_tick().map(|(t, a)| (t.0, a.0)), want, "last-with-tick");
    Ok(())
}

fn check_buffer(c: &BufCase, obs: &mut Obs) -> Res {
    let mut b = Buf::default();
    for op in &c.ops {
        let old = View::of(&b);
        let next = if old.start.is_some() { old.end() } else { c.base };
        let at = |d: i32| if old.start.is_some() { next.saturating_add_signed(d) } else { next };
        let (keep_from, keep_to): (u32, u32);
        match op {
            BufOp::Set(..) | BufOp::Empty(_) | BufOp::Far(..) => {
                let (t, value) = match op {
                    BufOp::Set(d, v) => (at(*d), Some(*v)),
                    BufOp::Empty(d) => (at(*d), None),
                    BufOp::Far(n, v) => (next + n, Some(*v)),
                    _ => unreachable!(),
                };
                match value {
                    Some(v) => b.set(Tick(t), ActionState(v)),
                    None => b.set_empty(Tick(t)),
                }
                if let BufOp::Far(n, _) = op {
                    obs.label("long gap");
                    eq!(b.get(Tick(next + n - 1)).map(|a| a.0), old.last(), "gap");
                    eq!(b.get_predict(Tick(next + n)).map(|a| a.0), value, "set");
                    return Ok(());
                }
                let new = View::of(&b);
                if old.start.is_some_and(|s| t < s) {
                    eq!(new, old, "before-start");
                    continue;
                }
                eq!(new.get(t), value, "set");
                eq!(new.start, Some(old.start.unwrap_or(t)), "start");
                eq!(new.end(), (t + 1).max(next), "end");
                for g in next..t {
                    if old.start.is_some() {
                        eq!(new.get(g), old.last(), "gap");
                        obs.label("gap");
                    }
                }
                // Ticks after a change may repeat it, without a break.
                let mut follows = true;
                for u in t + 1..next {
                    let same = new.get(u) == old.get(u);
                    follows &= new.get(u) == value;
                    ensure!(same || follows, "after", "setting {t} changed {u} from {:?} to {:?}", old.get(u), new.get(u));
                    obs.label("overwrites");
                }
                (keep_from, keep_to) = (0, t.min(next));
                obs.nontrivial();
            }
            BufOp::Pop(d) => {
                let t = at(*d);
                let got = b.pop(Tick(t)).map(|a| a.0);
                eq!(got, old.get(t), "pop");
                (keep_from, keep_to) = (t + 1, next);
                if old.start.is_some_and(|s| t >= s) {
                    obs.label("pop");
                    let new = View::of(&b);
                    ensure!(new.start.unwrap() > t, "popped", "{t} still held: {new:?}");
                }
            }
            BufOp::PopKeep(d) => {
                let t = at(*d);
                b.pop_keeping_last(Tick(t));
                let new = View::of(&b);
                if let Some(v) = old.last() {
                    eq!(new.last(), Some(v), "keep-last");
                    eq!(new.end(), next, "keep-last");
                    if old.start.is_some_and(|s| t >= s) {
                        obs.label("pop keeping the last");
                        eq!(new.start, Some((t + 1).clamp(old.start.unwrap(), next - 1)), "popped");
                    }
                }
                (keep_from, keep_to) = (t + 1, next);
            }
            BufOp::Clip(d) => {
                let t = at(*d);
                b.clip_after(Tick(t));
                let new = View::of(&b);
                ensure!(new.values.is_empty() || new.end() <= (t + 1).min(next), "clip", "{new:?} after {t}");
                (keep_from, keep_to) = (0, (t + 1).min(next));
                obs.label_if(t + 1 < next, "clip");
            }
            BufOp::Extend(d, n) => {
                let (s, e) = (at(*d), at(*d) + *n as u32);
                b.extend_to_range(Tick(s), Tick(e));
                let new = View::of(&b);
                ensure!(new.start.unwrap() <= s && new.end() > e, "extend", "{s}..={e} not within {new:?}");
                for u in new.start.unwrap()..new.end() {
                    if old.start.is_none_or(|o| u < o || u >= next) {
                        eq!(new.get(u), None, "extend-value");
                    }
                }
                (keep_from, keep_to) = (0, next);
                obs.label("extend");
            }
        }
        let new = View::of(&b);
        if let Some(s) = old.start {
            for u in s.max(keep_from)..keep_to {
                eq!(new.get(u), old.get(u), "kept");
            }
        }
        check_reads(&b, &new)?;
    }
    Ok(())
}

// --------------------------------------------------------------------------------- sequences

#[derive(Debug, Clone, Serialize, Deserialize)]
enum SeqOp {
    /// the sender records a value, or nothing, after a gap
    Record(u8, Option<u8>),
    /// a message built now arrives: ticks included, ticks back from the last
    Send(u8, u8),
    /// the receiver goes on with its own prediction for some ticks
    Predict(u8),
    Pop(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct SeqCase {
    base: u32,
    ops: Vec<SeqOp>,
}

fn seq_case() -> BoxedStrategy<SeqCase> {
    let op = prop_oneof![
        10 => (prop_oneof![5 => Just(0u8), 1 => 1u8..4], prop_oneof![6 => (0u8..3).prop_map(Some), 1 => Just(None)])
            .prop_map(|(g, v)| SeqOp::Record(g, v)),
        8 => (prop_oneof![1u8..8, 1u8..30], prop_oneof![6 => Just(0u8), 1 => 0u8..6]).prop_map(|(n, b)| SeqOp::Send(n, b)),
        3 => (1u8..6).prop_map(SeqOp::Predict),
        2 => (1u8..8).prop_map(SeqOp::Pop),
    ];
    bx((prop_oneof![1u32..4, 1000u32..1010], vec(op, 2..50)).prop_map(|(base, ops)| SeqCase { base, ops }))
}

fn snapshots(s: &Seq) -> Vec<Compressed<ActionState<u8>>> {
    s.clone().get_snapshots_from_message(Duration::ZERO).collect()
}

fn check_sequence(c: &SeqCase, obs: &mut Obs) -> Res {
    let mut tx = Buf::default();
    let mut rx = Buf::default();
    for op in &c.ops {
        match op {
            SeqOp::Record(gap, v) => {
                let t = tx.end_tick().map_or(Tick(c.base), |t| t + 1 + *gap as i32);
                match v {
                    Some(v) => tx.set(t, ActionState(*v)),
                    None => tx.set_empty(t),
                }
            }
            SeqOp::Pop(n) => {
                if let Some(s) = rx.start_tick {
                    rx.pop_keeping_last(s + *n as i32);
                }
            }
            SeqOp::Predict(n) => {
                for _ in 0..*n {
                    if let Some((t, v)) = rx.get_last_with_tick() {
                        let v = v.clone();
                        rx.set(t + 1, v);
                    }
                }
            }
            SeqOp::Send(n, back) => {
                let from = View::of(&tx);
                let Some(start) = from.start else { continue };
                let end = (from.end() - 1).saturating_sub(*back as u32).max(start);
                let Some(seq) = Seq::build_from_input_buffer(&tx, *n as u32, Tick(end)) else {
                    return Err(crate::fw::Fail::new("build", "nothing built from a buffer with ticks"));
                };
                // What the sequence says is what the sender recorded.
                let first = (end + 1).saturating_sub(*n as u32).max(start);
                eq!(seq.len() as u32, end + 1 - first, "length");
                let mut said = None;
                for (i, s) in snapshots(&seq).into_iter().enumerate() {
                    match s {
                        Compressed::Input(v) => said = Some(v.0),
                        Compressed::Absent => said = None,
                        Compressed::SameAsPrecedent => ensure!(i > 0, "first", "the first state repeats nothing"),
                    }
                    eq!(said, from.get(first + i as u32), "built");
                }
                let json = serde_json::to_vec(&seq).unwrap();
                let seq: Seq = serde_json::from_slice(&json).unwrap();

                let old = View::of(&rx);
                let last = rx.last_remote_tick.map(|t| t.0);
                if let Some(l) = last.filter(|l| *l >= end) {
                    // An older message that arrives late brings nothing new.
                    let mismatch = seq.update_buffer(&mut rx, Tick(end), Duration::ZERO);
                    eq!(mismatch, None, "stale-mismatch");
                    eq!(rx.last_remote_tick, Some(Tick(l)), "stale-last-remote");
                    let new = View::of(&rx);
                    eq!(new.start, old.start, "stale-start");
                    if let Some(s) = old.start {
                        eq!(new.end(), old.end(), "stale-end");
                        for t in s..old.end() {
                            eq!(new.get(t), old.get(t), "stale");
                        }
                    }
                    obs.label("older message");
                    continue;
                }
                obs.label_if(old.start.is_some_and(|s| last.map_or(first, |l| first.max(l + 1)) < s), "before the buffer");
                let fresh = last.map_or(first, |l| first.max(l + 1));
                let gap = last.is_some_and(|l| first > l + 1);
                let mismatch = seq.update_buffer(&mut rx, Tick(end), Duration::ZERO).map(|t| t.0);
                let new = View::of(&rx);
                eq!(rx.last_remote_tick, Some(Tick(end)), "last-remote");
                for t in fresh..=end {
                    eq!(new.get(t), from.get(t), "received");
                }
                if let Some(s) = old.start {
                    for t in s..fresh.min(old.end()) {
                        eq!(new.get(t), old.get(t), "earlier");
                    }
                    for t in old.end().max(s)..fresh {
                        eq!(new.get(t), old.last(), "gap");
                        obs.label("gap");
                    }
                }
                // The first tick where the prediction was wrong, and nothing predicted survives it.
                let sure = !gap || last.is_none_or(|l| old.end() == l + 1 || fresh < old.end());
                let predicted = |t: u32| if t >= old.end() { old.last() } else { old.get(t) };
                let wrong = (fresh..=end).find(|t| {
                    // beyond what was held, the prediction repeats the previous tick
                    let p = if *t >= old.end() && *t > fresh { from.get(*t - 1) } else { predicted(*t) };
                    p != from.get(*t)
                });
                if sure {
                    eq!(mismatch, wrong, "mismatch");
                }
                match mismatch {
                    Some(_) => {
                        obs.label("mismatch");
                        eq!(new.end(), end + 1, "after-mismatch");
                    }
                    None => {
                        eq!(new.end(), (end + 1).max(old.end()), "end");
                        for t in end + 1..old.end() {
                            eq!(new.get(t), old.get(t), "predictions");
                        }
                    }
                }
                obs.nontrivial_if(old.start.is_some());
                check_reads(&rx, &new)?;
            }
        }
    }
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C38", "history", 60_000, 2_000_000, buf_case, check_buffer),
        sub("C38", "sequence", 40_000, 2_000_000, seq_case, check_sequence),
    ]
}
