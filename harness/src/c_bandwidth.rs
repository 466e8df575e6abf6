//! C16: send scheduling under a bandwidth cap — quota, priority order, what is kept and dropped.

use crate::ensure;
use crate::fw::*;
use crate::sim::{Ch, Item, parse, with_ch};
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_time::{Real, Time, Timer, TimerMode};
use bytes::Bytes;
use lightyear_connection::prelude::NetworkingMetadata;
use lightyear_core::prelude::LocalTimeline;
use lightyear_link::{Link, LinkMtu, Linked};
use lightyear_transport::channel::ChannelKind;
use lightyear_transport::packet::fragment_size_for_min_mtu;
use lightyear_transport::packet::priority_manager::PriorityConfig;
use lightyear_transport::plugin::TransportPlugin;
use lightyear_transport::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chan {
    mode: u8,
    timer_ms: u16,
    min_delay_ms: u16,
    prio100: u32,
    retry: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    ch: u8,
    len: u16,
    prio100: u32,
    queued: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    dt_ms: u16,
    refill: bool,
    msgs: Vec<Msg>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mtu: u16,
    burst: u16,
    /// 1 byte per second: the burst is all there is; otherwise fast enough to refill by waiting
    slow: bool,
    chans: Vec<Chan>,
    steps: Vec<Step>,
}

const RATE: u32 = 2_000_000;

fn strategy(slow: bool) -> BoxedStrategy<Case> {
    let prio = || prop_oneof![3 => Just(100u32), 2 => 1u32..1000, 1 => 1u32..20_000];
    let chan = (
        0u8..6,
        prop_oneof![3 => Just(0u16), 1 => 1u16..60],
        prop_oneof![Just(0u16), 1u16..60],
        prop_oneof![2 => prio(), 1 => Just(100), 1 => Just(u32::MAX)],
        any::<bool>(),
    )
        .prop_map(|(mode, timer_ms, min_delay_ms, prio100, retry)| Chan { mode, timer_ms, min_delay_ms, prio100, retry });
    let msg = (
        0u8..6,
        prop_oneof![4 => 4u16..40, 2 => 40u16..400, 1 => 400u16..2400],
        prio(),
        proptest::bool::weighted(0.3),
    )
        .prop_map(|(ch, len, prio100, queued)| Msg { ch, len, prio100, queued });
    let step = (1u16..50, any::<bool>(), vec(msg, 0..14)).prop_map(|(dt_ms, refill, msgs)| Step { dt_ms, refill, msgs });
    (prop_oneof![60u16..300, Just(1200u16)], 0u16..3000, vec(chan, 1..6), vec(step, 1..8))
        .prop_map(move |(mtu, extra, chans, steps)| Case {
            mtu,
            // sometimes the burst is below the size of a datagram
            burst: if slow && extra % 5 == 0 { 20 + extra % (mtu + 100) } else { mtu + extra },
            slow,
            chans,
            steps,
        })
        .boxed()
}

fn prio(p: u32) -> f32 {
    if p == u32::MAX { f32::INFINITY } else { p as f32 / 100.0 }
}

struct Pending {
    ch: usize,
    base: f32,
    acc: f32,
    len: usize,
    /// time of the last emission of each part
    parts: Vec<Option<Duration>>,
    gone: bool,
}

impl Pending {
    fn started(&self) -> bool {
        self.parts.iter().any(|p| p.is_some())
    }
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let mut app = App::new();
    app.add_plugins(TaskPoolPlugin {
        task_pool_options: TaskPoolOptions::with_num_threads(1),
    });
    app.insert_resource(Time::<Real>::default());
    app.init_resource::<LocalTimeline>();
    app.init_resource::<ChannelRegistry>();
    app.init_resource::<NetworkingMetadata>();
    app.add_plugins(TransportPlugin);
    let rate = if case.slow { 1 } else { RATE };
    let mut t = Transport::new(PriorityConfig::new(rate).with_burst_size(case.burst as u32));
    let mut wires = vec![];
    for (i, c) in case.chans.iter().enumerate() {
        let rel = ReliableSettings {
            rtt_resend_factor: 1.5,
            rtt_resend_min_delay: Duration::from_millis(c.min_delay_ms as u64),
        };
        let settings = ChannelSettings {
            mode: match c.mode {
                0 => ChannelMode::UnorderedUnreliable,
                1 => ChannelMode::UnorderedUnreliableWithAcks,
                2 => ChannelMode::SequencedUnreliable,
                3 => ChannelMode::UnorderedReliable(rel),
                4 => ChannelMode::SequencedReliable(rel),
                _ => ChannelMode::OrderedReliable(rel),
            },
            send_frequency: Duration::from_millis(c.timer_ms as u64),
            priority: prio(c.prio100),
            retry_unsent_messages: c.retry,
            ..Default::default()
        };
        with_ch!(i, C => {
            app.add_channel::<C>(settings);
            let reg = app.world().resource::<ChannelRegistry>();
            let id = *reg.get_net_from_kind(&ChannelKind::of::<C>()).unwrap();
            t.add_channel_send::<C>(settings, id);
            wires.push(id);
        });
    }
    app.finish();
    app.cleanup();
    let mtu = case.mtu as usize;
    let frag = fragment_size_for_min_mtu(mtu).expect("mtu");
    let mut start = Instant::now();
    let entity = app
        .world_mut()
        .spawn((Link::default().with_mtu(LinkMtu::new(mtu)), Linked, t))
        .id();
    let mut msgs: Vec<Pending> = vec![];
    let mut by_id: HashMap<(usize, u16), usize> = HashMap::new();
    let mut next_id = vec![0u16; case.chans.len()];
    let mut timers: Vec<Option<Timer>> = case
        .chans
        .iter()
        .map(|c| (c.timer_ms > 0).then(|| Timer::new(Duration::from_millis(c.timer_ms as u64), TimerMode::Repeating)))
        .collect();
    let mut now = Duration::ZERO;
    // bytes that can certainly be sent, and bytes sent since `start`
    let mut sure = case.burst as usize;
    let mut spent = 0usize;
    let mut steps = case.steps.clone();
    if !case.slow {
        // at the end, everything that is kept has to come out
        let total: usize = case.steps.iter().flat_map(|s| &s.msgs).map(|m| m.len as usize + 20 + 20 * (m.len as usize / frag)).sum();
        for _ in 0..(4 + 3 * total / mtu).min(90) {
            steps.push(Step { dt_ms: 61, refill: true, msgs: vec![] });
        }
    }
    let (mut limited, mut dropped, mut sent_n) = (0u64, 0u64, 0u64);
    for (si, s) in steps.iter().enumerate() {
        if si >= case.steps.len() && msgs.iter().all(|m| m.gone || (m.started() && m.parts.iter().all(|p| p.is_some()))) {
            break;
        }
        let dt = Duration::from_millis(s.dt_ms as u64);
        now += dt;
        let w = app.world_mut();
        w.resource_mut::<Time<Real>>().advance_by(dt);
        if s.refill && !case.slow {
            std::thread::sleep(Duration::from_micros(case.burst as u64 + 200).mul_f64(1.2e6 / RATE as f64));
            sure = case.burst as usize;
        }
        w.run_schedule(PreUpdate);
        let mut em = w.entity_mut(entity);
        let mut t = em.get_mut::<Transport>().unwrap();
        for (i, tm) in timers.iter_mut().enumerate() {
            if let Some(tm) = tm {
                tm.tick(dt);
            }
            let _ = i;
        }
        let (queued, direct): (Vec<&Msg>, Vec<&Msg>) = s.msgs.iter().partition(|m| m.queued);
        for m in direct.into_iter().chain(queued) {
            let k = m.ch as usize % case.chans.len();
            let mode = case.chans[k].mode;
            let n = msgs.len() as u32;
            let mut p = vec![0x55u8; m.len as usize];
            p[..4].copy_from_slice(&n.to_le_bytes());
            let bytes = Bytes::from(p);
            let has_id = mode != 0 || m.len as usize > frag;
            with_ch!(k, C => {
                if m.queued {
                    t.send_with_priority::<C>(bytes, prio(m.prio100)).unwrap();
                } else {
                    t.send_mut_with_priority::<C>(bytes, prio(m.prio100)).unwrap();
                }
            });
            if has_id {
                by_id.insert((k, next_id[k]), msgs.len());
                next_id[k] = next_id[k].wrapping_add(1);
            }
            let parts = (m.len as usize).div_ceil(frag).max(1);
            msgs.push(Pending { ch: k, base: prio(m.prio100), acc: 0.0, len: m.len as usize, parts: vec![None; parts], gone: false });
        }
        // candidates of this flush: (message, part) -> effective priority
        let ready: Vec<bool> = timers.iter().map(|t| t.as_ref().is_none_or(|t| t.is_finished())).collect();
        let mut cand: BTreeMap<(usize, usize), f32> = BTreeMap::new();
        for (mi, m) in msgs.iter_mut().enumerate() {
            let c = &case.chans[m.ch];
            if m.gone || !ready[m.ch] {
                continue;
            }
            let eff = if c.mode >= 3 {
                let mult = if c.timer_ms > 0 { c.timer_ms as f32 / s.dt_ms as f32 } else { 1.0 };
                m.acc += m.base * mult;
                m.acc * prio(c.prio100)
            } else {
                m.base * prio(c.prio100)
            };
            let delay = Duration::from_millis(c.min_delay_ms as u64);
            for (pi, p) in m.parts.iter().enumerate() {
                let due = match p {
                    None => true,
                    Some(t) => c.mode >= 3 && !delay.is_zero() && now - *t > delay,
                };
                if due {
                    cand.insert((mi, pi), eff);
                }
            }
        }
        app.world_mut().run_schedule(PostUpdate);
        let elapsed = start.elapsed();
        let sent: Vec<Bytes> = app.world_mut().entity_mut(entity).get_mut::<Link>().unwrap().send.drain().collect();
        let bytes: usize = sent.iter().map(|b| b.len()).sum();
        spent += bytes;
        sent_n += sent.len() as u64;
        // token bucket, over the window since `start` (and since the last refill below)
        let allowed = case.burst as f64 + rate as f64 * elapsed.as_secs_f64() * 1.01 + 16.0;
        ensure!(
            spent as f64 <= allowed,
            "quota-exceeded",
            "step {si}: {spent} bytes sent in {elapsed:?} with a burst of {} and {rate} bytes per second", case.burst
        );
        let mut last = f32::INFINITY;
        let mut last_what = String::new();
        for b in &sent {
            let p = match parse(b) {
                Ok(p) => p,
                Err(e) => return Err(Fail::new("unreadable-datagram", format!("step {si}: {e}"))),
            };
            ensure!(b.len() <= mtu, "datagram-above-mtu", "step {si}: {} bytes, mtu {mtu}", b.len());
            for it in p.items {
                let (mi, pi) = match &it {
                    Item::Single { payload, ch, .. } => {
                        ensure!(payload.len() >= 4, "unknown-message", "step {si}: message of {} bytes", payload.len());
                        let n = u32::from_le_bytes(payload[..4].try_into().unwrap()) as usize;
                        ensure!(
                            msgs.get(n).is_some_and(|m| m.len == payload.len() && wires[m.ch] == *ch),
                            "unknown-message", "step {si}: message {n} of {} bytes on channel {ch}", payload.len()
                        );
                        (n, 0)
                    }
                    Item::Frag { ch, id, idx, .. } => {
                        let k = wires.iter().position(|w| w == ch);
                        let mi = k.and_then(|k| by_id.get(&(k, *id))).copied();
                        ensure!(mi.is_some(), "unknown-message", "step {si}: fragment of message {id} on channel {ch}");
                        (mi.unwrap(), *idx as usize)
                    }
                };
                let mode = case.chans[msgs[mi].ch].mode;
                let Some(eff) = cand.remove(&(mi, pi)) else {
                    return Err(Fail::new(
                        "sent-not-due",
                        format!("step {si}: part {pi} of message {mi} (channel mode {mode}) was sent; dropped earlier: {}, last sent: {:?}, channel ready: {}", msgs[mi].gone, msgs[mi].parts.get(pi), ready[msgs[mi].ch]),
                    ));
                };
                let what = format!("message {mi} part {pi} (mode {mode}, priority {eff})");
                ensure!(
                    last >= eff || last >= eff * (1.0 - 1e-4),
                    "priority-order", "step {si}: {what} was sent after {last_what}"
                );
                last = last.min(eff);
                last_what = what;
                msgs[mi].parts[pi] = Some(now);
            }
        }
        if !cand.is_empty() {
            limited += 1;
            ensure!(
                bytes + mtu > sure,
                "held-back", "step {si}: {} parts were held back after {bytes} bytes, although at least {sure} bytes of quota were left (mtu {mtu})", cand.len()
            );
            for ((mi, pi), eff) in &cand {
                ensure!(
                    bytes == 0 || *eff * (1.0 - 1e-4) <= last,
                    "priority-order", "step {si}: message {mi} part {pi} (priority {eff}) was held back while {last_what} was sent"
                );
            }
        }
        sure = sure.saturating_sub(bytes);
        if !cand.is_empty() {
            // bandwidth ran out: channels which do not keep unsent messages drop them
            for m in msgs.iter_mut() {
                let c = &case.chans[m.ch];
                if c.mode < 3 && !c.retry && ready[m.ch] && !m.gone && !m.started() {
                    m.gone = true;
                    dropped += 1;
                }
            }
        }
        for m in msgs.iter_mut() {
            if case.chans[m.ch].mode < 3 && m.parts.iter().all(|p| p.is_some()) {
                m.gone = true;
            }
        }
        if s.refill && !case.slow {
            // later windows count from here: the bucket holds at most one burst now
            start = Instant::now();
            spent = 0;
        }
    }
    // (without acknowledgements, resends can use up all bandwidth)
    let resends = case.chans.iter().any(|c| c.mode >= 3 && c.min_delay_ms > 0);
    if !case.slow && !resends && steps.len() < case.steps.len() + 90 {
        for (mi, m) in msgs.iter().enumerate() {
            let c = &case.chans[m.ch];
            ensure!(
                m.gone || m.parts.iter().all(|p| p.is_some()),
                "never-sent",
                "message {mi} (mode {}, {} bytes, retry {}) was never sent completely although bandwidth was available again", c.mode, m.len, c.retry
            );
        }
    }
    obs.count("packets", sent_n);
    obs.count("limited flushes", limited);
    obs.count("dropped unsent", dropped);
    obs.nontrivial_if(limited > 0 && sent_n > 0);
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C16", "burst", 20_000, 1_000_000, || strategy(true), check),
        sub("C16", "refill", 1600, 40_000, || strategy(false), check),
    ]
}
