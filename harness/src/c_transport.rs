//! C08–C14, C17, C36: the transport over a faulty network.

use crate::fw::*;
use crate::sim::*;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;

fn chan(modes: &'static [u8]) -> impl Strategy<Value = ChanCfg> {
    (
        proptest::sample::select(modes),
        prop_oneof![4 => Just(0u16), 1 => 1u16..120],
        prop_oneof![3 => Just(15u8), 1 => 0u8..30],
        prop_oneof![2 => Just(0u16), 2 => 1u16..80],
    )
        .prop_map(|(mode, timer_ms, factor10, min_delay_ms)| ChanCfg { mode, timer_ms, factor10, min_delay_ms })
}

fn cfg(modes: &'static [u8], lz4: BoxedStrategy<bool>, reg_ids: bool) -> impl Strategy<Value = NetCfg> {
    (
        (
            prop_oneof![2 => 38u16..70, 3 => 70u16..320, 2 => Just(1200u16), 1 => 320u16..2000],
            prop_oneof![3 => Just(0u16), 1 => 1u16..500],
            vec(chan(modes), 1..5),
            if reg_ids {
                Just(None).boxed()
            } else {
                option::weighted(0.4, (prop_oneof![Just(0u16), 55u16..70, 16380u16..16390, 60000u16..65000], prop_oneof![Just(1u16), 1u16..100])).boxed()
            },
        ),
        (lz4, [prop_oneof![Just(0u16), Just(128), 0u16..300], prop_oneof![Just(0u16), Just(128), 0u16..300]], prop_oneof![Just(65536u32), 20u32..3000]),
        (
            [prop_oneof![1 => Just(0u32), 4 => 1u32..200_000], prop_oneof![1 => Just(0u32), 4 => 1u32..200_000]],
            [prop_oneof![2 => Just(0u32), 1 => 0u32..60_000], prop_oneof![2 => Just(0u32), 1 => 0u32..60_000]],
            option::weighted(0.5, (0u8..40, 0u8..30, 0u16..400, 0u16..2000)),
        ),
        prop_oneof![3 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
        [prop_oneof![Just(0u32), 0u32..100_000, Just(u32::MAX - 300)], prop_oneof![Just(0u32), 0u32..100_000, Just(1u32)]],
        [1u32..100_000, 1u32..100_000],
    )
        .prop_map(|((min_mtu, mtu_up, chans, ids), (lz4, comp_min, comp_max), (rtt_us, jitter_us, nack), convs, start_tick, start_ms)| NetCfg {
            min_mtu,
            mtu_up,
            chans,
            ids,
            lz4,
            comp_min,
            comp_max,
            rtt_us,
            jitter_us,
            nack,
            convs,
            start_tick,
            start_ms,
        })
}

fn len() -> impl Strategy<Value = Len> {
    (0u8..7, 0u8..200, any::<i8>()).prop_map(|(class, k, off)| Len { class, k, off })
}

fn send() -> impl Strategy<Value = Send> {
    (0u8..3, any::<bool>(), 0u8..4, len(), any::<u8>(), proptest::bool::weighted(0.25), prop_oneof![6 => Just(1u16), 1 => 2u16..6, 1 => 200u16..300])
        .prop_map(|(conv, side, ch, len, fill, queued, count)| {
            // a large batch is of small messages
            let len = if count > 100 { Len { class: 0, ..len } } else { len };
            Send { conv, side, ch, len, fill, queued, count }
        })
}

fn frame(ev: BoxedStrategy<Option<Ev>>) -> impl Strategy<Value = Frame> {
    (
        [prop_oneof![1 => Just(0u32), 6 => 1u32..100_000], prop_oneof![1 => Just(0u32), 6 => 1u32..100_000]],
        [0u8..3, 0u8..3],
        vec(send(), 0..4),
        [prop_oneof![3 => Just(255u8), 1 => 0u8..3], prop_oneof![3 => Just(255u8), 1 => 0u8..3]],
        ev,
    )
        .prop_map(|(dt_us, ticks, sends, read, ev)| Frame { dt_us, ticks, sends, read, ev })
}

fn fates() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        4 => vec(any::<u8>(), 1..48),
        // mostly delivered
        2 => vec(prop_oneof![5 => Just(0u8), 1 => any::<u8>()], 1..64),
        // mostly dropped
        1 => vec(prop_oneof![3 => Just(3u8), 1 => any::<u8>()], 1..32),
        // shuffled only
        1 => vec(any::<u8>().prop_map(|b| (b & 0xf8) | 6), 1..48),
    ]
}

fn no_reconnect() -> BoxedStrategy<Option<Ev>> {
    option::weighted(
        0.1,
        prop_oneof![
            (0u8..3, any::<bool>(), 0u16..500).prop_map(|(c, s, u)| Ev::Mtu(c, s, u)),
            (0u8..3, any::<bool>(), 0u32..200_000).prop_map(|(c, s, u)| Ev::Rtt(c, s, u)),
        ],
    )
    .boxed()
}

fn net(modes: &'static [u8], lz4: f64, frames: usize) -> BoxedStrategy<NetCase> {
    (cfg(modes, proptest::bool::weighted(lz4).boxed(), false), vec(frame(no_reconnect()), 2..frames), fates())
        .prop_map(|(cfg, frames, fates)| NetCase { cfg, frames, fates, quiet: 0, quiet_from: 0 })
        .boxed()
}

fn net_reconnect() -> BoxedStrategy<NetCase> {
    let ev = option::weighted(0.15, (0u8..3).prop_map(Ev::Reconnect)).boxed();
    (cfg(&[0, 1, 2, 3, 4, 5], Just(false).boxed(), true), vec(frame(ev), 4..30), fates())
        .prop_map(|(cfg, frames, fates)| NetCase { cfg, frames, fates, quiet: 0, quiet_from: 0 })
        .boxed()
}

/// Long runs that carry message ids (small messages) or packet ids (one message per packet)
/// around 65536 before a short random part.
fn wrap(modes: &'static [u8], packets: bool) -> BoxedStrategy<NetCase> {
    (
        cfg(modes, Just(false).boxed(), false),
        vec(frame(no_reconnect()), 4..24),
        fates(),
        0u32..60,
        proptest::sample::select(modes),
        any::<bool>(),
    )
        .prop_map(move |(mut cfg, mut frames, fates, delta, mode, side)| {
            cfg.convs = 1;
            cfg.chans.truncate(2);
            cfg.chans[0] = ChanCfg { mode, timer_ms: 0, factor10: 15, min_delay_ms: 50 };
            if packets {
                cfg.min_mtu = 100;
                cfg.mtu_up = 0;
                cfg.chans[0].mode = 0;
                if cfg.chans.len() < 2 {
                    cfg.chans.push(ChanCfg { mode, timer_ms: 0, factor10: 15, min_delay_ms: 50 });
                }
            } else {
                cfg.min_mtu = 1200;
            }
            let mut left = 65536 - delta;
            let mut warm = vec![];
            while left > 0 {
                let n = left.min(if packets { 3000 } else { 2500 });
                left -= n;
                warm.push(Frame {
                    dt_us: [1000, 1000],
                    ticks: [1, 1],
                    // class 1, offset 3: exactly one fragment size, which fills most of a packet
                    sends: vec![Send { conv: 0, side, ch: 0, len: Len { class: packets as u8, k: 0, off: 3 }, fill: 1, queued: false, count: n as u16 }],
                    read: [255, 255],
                    ev: None,
                });
            }
            // the faults only start with the random part
            for f in &mut frames {
                for s in &mut f.sends {
                    s.side = if s.fill % 4 == 0 { s.side } else { side };
                }
            }
            let quiet = warm.len() as u16;
            warm.extend(frames);
            NetCase { cfg, frames: warm, fates, quiet, quiet_from: 0 }
        })
        .boxed()
}

/// Faulty traffic with fragments, then enough small messages on a perfect network to come around to
/// the same message ids, then faulty traffic again.
fn reuse(modes: &'static [u8]) -> BoxedStrategy<NetCase> {
    (
        (cfg(modes, Just(false).boxed(), false), vec(frame(no_reconnect()), 2..12), vec(frame(no_reconnect()), 4..16), fates()),
        0u32..12,
        proptest::sample::select(modes),
        vec((1u8..7, any::<bool>()), 28),
        1u32..4_000_000,
    )
        .prop_map(move |((mut cfg, mut pre, mut post, fates), delta, mode, classes, pause)| {
            cfg.convs = 1;
            cfg.mtu_up = 0;
            cfg.chans.truncate(1);
            cfg.chans[0] = ChanCfg { mode, timer_ms: 0, factor10: 15, min_delay_ms: 50 };
            cfg.min_mtu = 1200;
            for (i, f) in pre.iter_mut().chain(&mut post).enumerate() {
                for s in &mut f.sends {
                    let c = classes[i % classes.len()];
                    s.side = false;
                    s.count = s.count.min(3);
                    if c.1 {
                        s.len = Len { class: 2, k: c.0, off: s.len.off };
                    }
                }
            }
            let mut left = 65536 - delta;
            let quiet_from = pre.len() as u16;
            let mut n_quiet = 0;
            while left > 0 {
                let n = left.min(2500);
                left -= n;
                n_quiet += 1;
                pre.push(Frame {
                    dt_us: [pause / 28 + 60_000; 2],
                    ticks: [1, 1],
                    sends: vec![Send { conv: 0, side: false, ch: 0, len: Len { class: 0, k: 0, off: 5 }, fill: 1, queued: false, count: n as u16 }],
                    read: [255, 255],
                    ev: None,
                });
            }
            pre.extend(post);
            NetCase { cfg, frames: pre, fates, quiet: n_quiet, quiet_from }
        })
        .boxed()
}

pub fn subs() -> Vec<Sub> {
    const ALL: &[u8] = &[0, 1, 2, 3, 4, 5];
    let mut v = vec![];
    let mut add = |prop: &'static str, name: &'static str, q: u64, t: u64, s: fn() -> BoxedStrategy<NetCase>| {
        v.push(sub(prop, name, q, t, s, move |c: &NetCase, o| run_case(c, prop, o)));
    };
    add("C08", "network", 4800, 200_000, || net(ALL, 0.1, 50));
    add("C08", "wrap", 32, 800, || wrap(&[0, 1, 2], true));
    add("C09", "network", 4800, 200_000, || net(&[3, 3, 3, 0, 5], 0.1, 40));
    add("C09", "wrap", 48, 1600, || wrap(&[3], false));
    add("C10", "network", 4800, 200_000, || net(&[5, 5, 5, 1, 3], 0.1, 40));
    add("C10", "wrap", 48, 1600, || wrap(&[5], false));
    add("C11", "network", 6400, 300_000, || net(&[2, 4, 2, 4, 2, 4, 0], 0.1, 40));
    add("C11", "wrap", 48, 1600, || wrap(&[2, 4], false));
    add("C11", "reuse", 48, 1600, || reuse(&[2, 4, 4, 4]));
    add("C12", "network", 4800, 200_000, || net(&[0, 1, 0, 1, 2], 0.1, 40));
    add("C12", "wrap", 32, 800, || wrap(&[1], false));
    add("C13", "network", 4800, 200_000, || net(ALL, 0.2, 30));
    add("C14", "network", 4800, 200_000, || net(&[1, 3, 4, 5, 1, 3, 0, 2], 0.1, 50));
    add("C14", "wrap", 48, 1600, || wrap(&[1, 3, 4, 5], false));
    add("C16", "network", 4000, 200_000, || net(ALL, 0.0, 50));
    add("C17", "network", 4000, 150_000, net_reconnect);
    add("C36", "network", 4800, 200_000, || net(ALL, 1.0, 24));
    v
}
