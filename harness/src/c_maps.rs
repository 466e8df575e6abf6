//! C07 entity references between two worlds, C21 network targets.

use crate::c_wire::Peer;
use crate::fw::{Obs, Res, Sub, bx, sub};
use crate::{ensure, ensure_eq};
use bevy_ecs::entity::{Entity, EntityGeneration, EntityIndex, EntityMapper};
use bevy_ecs::world::World;
use lightyear_connection::network_target::{NetworkTarget, NetworkTargetResolver, Target, TargetList};
use lightyear_core::id::PeerId;
use lightyear_serde::ToBytes;
use lightyear_serde::entity_map::{EntityMap, RemoteEntityMap};
use lightyear_serde::reader::Reader;
use lightyear_serde::writer::Writer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};

fn ent(index: u32, generation: u32) -> Entity {
    Entity::from_index_and_generation(
        EntityIndex::from_raw_u32(index).unwrap(),
        EntityGeneration::from_bits(generation),
    )
}

// ---------------------------------------------------------------------------------------- C07

#[derive(Debug, Clone, Serialize, Deserialize)]
enum MapOp {
    /// side, entity
    Know(bool, u8),
    /// side, entity, by the marked reference the other side would send
    Forget(bool, u8, bool),
    Clear(bool),
    Respawn(u8),
    /// side, entities (beyond the shared ones: purely local)
    Send(bool, Vec<u8>),
    /// sent before, arrives after the operations that follow it
    Hold(bool, Vec<u8>),
    Release,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct MapCase {
    /// ids of the shared entities on both sides: index, generation
    ids: Vec<((u32, u32), (u32, u32))>,
    ops: Vec<MapOp>,
}

#[derive(Default)]
struct MapEnd {
    map: RemoteEntityMap,
    /// logical entities this end has a mapping for
    known: BTreeSet<usize>,
}

fn idx() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 0u32..6,
        2 => prop_oneof![Just(15u32), Just(16), Just(4095), Just(4096), Just((1 << 28) - 1), Just(1 << 28)],
        1 => 0u32..u32::MAX,
    ]
    .boxed()
}

fn generation() -> BoxedStrategy<u32> {
    prop_oneof![4 => 0u32..3, 1 => prop_oneof![Just(63u32), Just(64), Just((1 << 30) - 1), Just(1 << 30), Just((1 << 31) - 9)], 1 => 0u32..(1 << 31) - 8].boxed()
}

fn maps_strategy() -> BoxedStrategy<MapCase> {
    let e = 0u8..9;
    let side = any::<bool>();
    let op = prop_oneof![
        4 => (side.clone(), e.clone()).prop_map(|(s, e)| MapOp::Know(s, e)),
        2 => (side.clone(), e.clone(), any::<bool>()).prop_map(|(s, e, m)| MapOp::Forget(s, e, m)),
        1 => side.clone().prop_map(MapOp::Clear),
        1 => e.clone().prop_map(MapOp::Respawn),
        5 => (side.clone(), vec(e.clone(), 1..6)).prop_map(|(s, e)| MapOp::Send(s, e)),
        2 => (side, vec(e, 1..4)).prop_map(|(s, e)| MapOp::Hold(s, e)),
        2 => Just(MapOp::Release),
    ];
    (vec(((idx(), generation()), (idx(), generation())), 1..7), vec(op, 1..40))
        .prop_map(|(ids, ops)| MapCase { ids, ops })
        .boxed()
}

fn maps(c: &MapCase, obs: &mut Obs) -> Res {
    // distinct ids on each side, though the same number may mean different entities on the two sides
    let n = c.ids.len();
    let mut used = [BTreeSet::new(), BTreeSet::new()];
    let mut ids: Vec<[(u32, u32); 2]> = vec![];
    for (a, b) in &c.ids {
        let mut pair = [*a, *b];
        for s in 0..2 {
            while !used[s].insert(pair[s].0) {
                pair[s].0 = (pair[s].0 + 1) % (u32::MAX - 1);
            }
        }
        ids.push(pair);
    }
    // entities that exist on one side only
    let mut local = [vec![], vec![]];
    for s in 0..2 {
        let mut i = 1;
        while local[s].len() < 4 {
            if !used[s].contains(&i) {
                local[s].push(ent(i, 0));
            }
            i += 1;
        }
    }
    let id = |ids: &Vec<[(u32, u32); 2]>, i: usize, s: usize| ent(ids[i][s].0, ids[i][s].1);
    let mut ends = [MapEnd::default(), MapEnd::default()];
    // sender, bytes, per entity: what it is and whether the sender had a mapping, ids when sent
    type Sent = (usize, Vec<(Option<(usize, Entity, Entity)>, bool)>, bytes::Bytes);
    let mut held: Vec<Sent> = vec![];
    let mut sent = 0u64;
    let mut mapped = 0u64;
    let (mut marked_rm, mut late) = (0u64, 0u64);
    for op in &c.ops {
        let mut arrive: Vec<Sent> = vec![];
        match op {
            MapOp::Know(s, e) => {
                let (s, e) = (*s as usize, *e as usize % n);
                let (remote, own) = (id(&ids, e, 1 - s), id(&ids, e, s));
                ends[s].map.insert(remote, own);
                ends[s].known.insert(e);
            }
            MapOp::Forget(s, e, marked) => {
                let (s, e) = (*s as usize, *e as usize % n);
                let (remote, own) = (id(&ids, e, 1 - s), id(&ids, e, s));
                let had = ends[s].known.remove(&e);
                if *marked {
                    // what the other side would send if it had the mapping
                    let mut other = RemoteEntityMap::default();
                    other.insert(own, remote);
                    let reference = other.to_remote(remote);
                    ensure_eq!(ends[s].map.remove_by_remote(reference), Some(own), "remove-marked", "marked reference to {own:?}");
                    marked_rm += had as u64;
                } else {
                    ensure_eq!(ends[s].map.remove_by_remote(remote), had.then_some(own), "remove", "entity {e}, known {had}");
                }
            }
            MapOp::Clear(s) => {
                ends[*s as usize].map.clear();
                ends[*s as usize].known.clear();
            }
            MapOp::Respawn(e) => {
                let e = *e as usize % n;
                if !ends[0].known.contains(&e) && !ends[1].known.contains(&e) && held.is_empty() {
                    ids[e][0].1 += 1;
                    ids[e][1].1 += 1;
                }
            }
            MapOp::Send(s, es) | MapOp::Hold(s, es) => {
                let s = *s as usize;
                let mut w = Writer::default();
                let mut what = vec![];
                for e in es {
                    let e = *e as usize;
                    let (own, meta) = if e < n {
                        (id(&ids, e, s), Some((e, id(&ids, e, 0), id(&ids, e, 1))))
                    } else {
                        (local[s][e % 4], None)
                    };
                    let known = meta.is_some_and(|m| ends[s].known.contains(&m.0));
                    let out = ends[s].map.local_to_remote.get_mapped(own);
                    ensure_eq!(out, ends[s].map.to_remote(own), "to-remote", "{own:?}");
                    let len = w.len();
                    out.to_bytes(&mut w).map_err(|e| crate::fw::Fail::new("encode", format!("{e:?}")))?;
                    ensure_eq!(w.len() - len, out.bytes_len(), "length", "{out:?}");
                    what.push((meta, known));
                    sent += 1;
                    mapped += known as u64;
                }
                let m = (s, what, w.take_written());
                if matches!(op, MapOp::Hold(..)) {
                    held.push(m);
                } else {
                    arrive.push(m);
                }
            }
            MapOp::Release => {
                late += held.len() as u64;
                arrive.append(&mut held);
            }
        }
        for (s, what, bytes) in arrive {
            let r = 1 - s;
            let mut reader = Reader::from(bytes);
            for (meta, known) in what {
                let e = Entity::from_bytes(&mut reader).map_err(|e| crate::fw::Fail::new("decode", format!("{e:?}")))?;
                let local_view = ends[r].map.get_local(e);
                let got = ends[r].map.remote_to_local.get_mapped(e);
                let own = meta.map(|m| if r == 0 { m.1 } else { m.2 });
                let want = match meta {
                    // the sender named it by the receiver's id
                    Some(_) if known => own,
                    // the receiver translates
                    Some((i, ..)) if ends[r].known.contains(&i) => own,
                    _ => None,
                };
                ensure_eq!(got, want.unwrap_or(Entity::PLACEHOLDER), "reference", "entity {meta:?} from side {s}, mapped by the sender: {known}");
                ensure_eq!(local_view, want, "get-local", "entity {meta:?} from side {s}, mapped by the sender: {known}");
            }
            ensure!(!reader.has_remaining(), "decode", "bytes left");
        }
        // the two directions of each map stay inverse of each other
        for s in 0..2 {
            for i in 0..n {
                let (remote, own) = (id(&ids, i, 1 - s), id(&ids, i, s));
                let k = ends[s].known.contains(&i);
                ensure_eq!(ends[s].map.get_local(remote), k.then_some(own), "get-local", "side {s} entity {i}");
                ensure_eq!(ends[s].map.get_remote(own), k.then_some(remote), "get-remote", "side {s} entity {i}");
                if !k {
                    ensure_eq!(ends[s].map.to_remote(own), own, "to-remote", "side {s} entity {i}");
                }
            }
            for l in &local[s] {
                ensure_eq!(ends[s].map.get_remote(*l), None, "get-remote", "local entity {l:?}");
            }
            ensure_eq!(ends[s].map.local_to_remote.len(), ends[s].known.len(), "size", "side {s}");
            ensure_eq!(ends[s].map.remote_to_local.len(), ends[s].known.len(), "size", "side {s}");
        }
    }
    obs.nontrivial_if(mapped > 0 && sent > mapped);
    obs.count("references sent", sent);
    obs.count("of them mapped by the sender", mapped);
    obs.count("removed by marked reference", marked_rm);
    obs.count("messages overtaken by map changes", late);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct WorldCase {
    /// spawn order of remote ids, whether the entity is despawned again
    spawns: Vec<((u32, u32), bool)>,
    /// plain maps: source and target number
    pairs: Vec<(u8, u8)>,
}

/// Looking entities up in a world, and the plain map used for merged worlds.
fn world_maps(c: &WorldCase, obs: &mut Obs) -> Res {
    let mut w = World::new();
    let mut m = RemoteEntityMap::default();
    let mut model: HashMap<Entity, (Entity, bool)> = HashMap::new();
    for ((i, g), dead) in &c.spawns {
        let remote = ent(*i, *g);
        if model.contains_key(&remote) {
            continue;
        }
        let own = w.spawn_empty().id();
        m.insert(remote, own);
        if *dead {
            w.despawn(own);
        }
        model.insert(remote, (own, !dead));
    }
    for (remote, (own, alive)) in &model {
        let got = m.get_by_remote(&mut w, *remote).map(|e| e.id());
        ensure_eq!(got, alive.then_some(*own), "get-by-remote", "{remote:?}");
    }
    let mut plain = EntityMap::default();
    let mut pm: HashMap<u8, u8> = HashMap::new();
    for (a, b) in &c.pairs {
        plain.set_mapped(ent(*a as u32, 0), ent(*b as u32, 1));
        pm.insert(*a, *b);
    }
    for a in 0..=255u8 {
        let e = ent(a as u32, 0);
        let want = pm.get(&a).map_or(e, |b| ent(*b as u32, 1));
        ensure_eq!(plain.get_mapped(e), want, "plain-map", "{e:?}");
    }
    obs.nontrivial_if(model.len() > 1);
    Ok(())
}

// ---------------------------------------------------------------------------------------- C21

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Shape {
    None,
    AllExceptSingle,
    AllExcept,
    All,
    Only,
    Single,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct T {
    shape: Shape,
    ids: Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct TargetCase {
    peers: Vec<Peer>,
    /// which peers are known, and as which entity
    mapping: Vec<(u8, u8)>,
    /// entities of the connected clients
    clients: Vec<u8>,
    targets: Vec<T>,
    extras: Vec<Vec<u8>>,
}

fn target_strategy() -> BoxedStrategy<TargetCase> {
    let shape = prop_oneof![
        1 => Just(Shape::None), 1 => Just(Shape::All), 2 => Just(Shape::AllExceptSingle),
        4 => Just(Shape::AllExcept), 4 => Just(Shape::Only), 2 => Just(Shape::Single),
    ];
    let t = (shape, prop_oneof![2 => vec(0u8..14, 0..6), 1 => vec(0u8..14, 0..16)]).prop_map(|(shape, ids)| T { shape, ids });
    (
        vec(crate::c_wire::peer(), 14),
        vec((0u8..14, 0u8..16), 0..16),
        prop_oneof![vec(0u8..16, 0..6), vec(0u8..16, 0..20)],
        vec(t, 1..6),
        vec(prop_oneof![2 => vec(0u8..14, 0..5), 1 => vec(0u8..14, 0..14)], 1..4),
    )
        .prop_map(|(peers, mapping, clients, targets, extras)| TargetCase { peers, mapping, clients, targets, extras })
        .boxed()
}

/// Membership: the listed peers, or everyone but them.
#[derive(Clone, Debug, PartialEq)]
struct Set {
    all: bool,
    ids: BTreeSet<u8>,
}

impl Set {
    fn has(&self, x: u8) -> bool {
        self.ids.contains(&x) != self.all
    }
}

fn targets(c: &TargetCase, obs: &mut Obs) -> Res {
    // distinct peers
    let mut peers: Vec<PeerId> = vec![];
    for p in &c.peers {
        let p = p.get();
        if !peers.contains(&p) {
            peers.push(p);
        }
    }
    while peers.len() < 14 {
        let p = PeerId::Netcode(1_000_000 + peers.len() as u64);
        peers.push(p);
    }
    let stranger = PeerId::Netcode(424242);
    let stranger = if peers.contains(&stranger) { PeerId::Steam(7777) } else { stranger };
    let peer = |i: &u8| peers[*i as usize % 14];
    let cl = |i: u8| ent(i as u32, 0);
    // peer -> entity, injective as connections are
    let mut mapping = bevy_platform::collections::HashMap::<PeerId, Entity>::default();
    let mut back: HashMap<Entity, u8> = HashMap::new();
    for (p, e) in &c.mapping {
        if mapping.contains_key(&peer(p)) || back.contains_key(&cl(*e)) {
            continue;
        }
        mapping.insert(peer(p), cl(*e));
        back.insert(cl(*e), *p % 14);
    }
    let mut clients: Vec<Entity> = vec![];
    for e in &c.clients {
        if !clients.contains(&cl(*e)) {
            clients.push(cl(*e));
        }
    }
    let mut resolver = NetworkTargetResolver::default();
    let mut some = false;
    let same = |t: &NetworkTarget, s: &Set, what: &str| -> Res {
        for i in 0..14u8 {
            ensure_eq!(t.targets(&peer(&i)), s.has(i), "membership", "{what}: {:?} of {t:?}", peer(&i));
        }
        if !peers.contains(&stranger) {
            ensure_eq!(t.targets(&stranger), s.all, "membership", "{what}: a peer not listed, of {t:?}");
        }
        ensure_eq!(t.is_empty(), !s.all && s.ids.is_empty(), "empty", "{what}: {t:?}");
        Ok(())
    };
    for t in &c.targets {
        let ids: BTreeSet<u8> = t.ids.iter().copied().collect();
        let list: Vec<PeerId> = t.ids.iter().map(peer).collect();
        let first = t.ids.first().copied().unwrap_or(0);
        let tl: TargetList<PeerId> = list.iter().copied().collect();
        let (target, set) = match t.shape {
            Shape::None => (NetworkTarget::None, Set { all: false, ids: BTreeSet::new() }),
            Shape::All => (NetworkTarget::All, Set { all: true, ids: BTreeSet::new() }),
            Shape::AllExceptSingle => (NetworkTarget::AllExceptSingle(peer(&first)), Set { all: true, ids: [first].into() }),
            Shape::Single => (NetworkTarget::Single(peer(&first)), Set { all: false, ids: [first].into() }),
            Shape::AllExcept => (NetworkTarget::AllExcept(tl), Set { all: true, ids }),
            Shape::Only => (NetworkTarget::Only(tl), Set { all: false, ids }),
        };
        same(&target, &set, "built")?;
        // construction from collections
        let ids: BTreeSet<u8> = t.ids.iter().copied().collect();
        let only = Set { all: false, ids: ids.clone() };
        same(&list.iter().copied().collect::<NetworkTarget>(), &only, "collected")?;
        same(&Target::from(list.clone()), &only, "from a vector")?;
        same(&NetworkTarget::from_exclude(list.iter().copied()), &Set { all: true, ids }, "everyone but")?;
        // resolution to the connected clients
        let want: BTreeSet<Entity> = clients
            .iter()
            .copied()
            .filter(|e| match back.get(e) {
                Some(p) => set.has(*p),
                None => set.all,
            })
            .collect();
        let got: BTreeSet<Entity> = resolver.resolve(&target, &clients, &mapping).iter().copied().collect();
        ensure_eq!(got, want, "resolve", "{target:?} among {clients:?}");
        let mut called = vec![];
        target.apply_targets(clients.iter().copied(), &mapping, &mut |e| called.push(e));
        ensure_eq!(called.len(), want.len(), "apply", "{target:?}: a client called twice or not at all: {called:?}");
        ensure_eq!(called.iter().copied().collect::<BTreeSet<_>>(), want, "apply", "{target:?} among {clients:?}");
        // adding peers
        let mut t2 = target.clone();
        let mut s2 = set.clone();
        for x in &c.extras {
            t2.extend(x.iter().map(peer));
            for i in x {
                if s2.all {
                    s2.ids.remove(i);
                } else {
                    s2.ids.insert(*i);
                }
            }
            same(&t2, &s2, "extended")?;
            let want: BTreeSet<Entity> = clients.iter().copied().filter(|e| back.get(e).map_or(s2.all, |p| s2.has(*p))).collect();
            let got: BTreeSet<Entity> = resolver.resolve(&t2, &clients, &mapping).iter().copied().collect();
            ensure_eq!(got, want, "resolve", "{t2:?} among {clients:?}");
        }
        let mut w = Writer::default();
        t2.to_bytes(&mut w).map_err(|e| crate::fw::Fail::new("encode", format!("{e:?}")))?;
        let t3 = NetworkTarget::from_bytes(&mut Reader::from(w.take_written())).map_err(|e| crate::fw::Fail::new("decode", format!("{e:?}")))?;
        same(&t3, &s2, "sent over the network")?;
        some |= !want.is_empty() && want.len() < clients.len();
    }
    obs.nontrivial_if(some);
    obs.label_if(clients.len() > 4, "more than four clients");
    obs.label_if(c.targets.iter().any(|t| t.ids.len() > 4), "more than four listed peers");
    Ok(())
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("C07", "maps", 60_000, 4_000_000, maps_strategy, maps),
        sub("C07", "world", 4_000, 100_000, || {
            bx((vec(((idx(), generation()), proptest::bool::weighted(0.2)), 1..10), vec((any::<u8>(), any::<u8>()), 0..12))
                .prop_map(|(spawns, pairs)| WorldCase { spawns, pairs }))
        }, world_maps),
        sub("C21", "targets", 60_000, 4_000_000, target_strategy, targets),
    ]
}
