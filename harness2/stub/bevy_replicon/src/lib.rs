//! A minimal stand-in for the parts of `bevy_replicon` that lightyear's replication-side crates
//! name.  The real crate is a git dependency that this sandbox does not have.  It replicates
//! nothing by itself: registrations are recorded, and the harness plays replicon's part by
//! calling the registered receive functions through [`stub::deliver`] and friends.
#![allow(clippy::type_complexity, dead_code, unused_variables)]
extern crate alloc;

pub use bytes;

pub mod postcard_utils {
    use bevy_ecs::entity::Entity;
    use bytes::Bytes;
    use serde::{Serialize, de::DeserializeOwned};

    pub fn from_buf<T: DeserializeOwned>(buf: &mut Bytes) -> postcard::Result<T> {
        let all = buf.clone();
        let (value, rest) = postcard::take_from_bytes::<T>(&all)?;
        let used = all.len() - rest.len();
        let _ = buf.split_to(used);
        Ok(value)
    }
    pub fn to_extend_mut<T: Serialize + ?Sized, W: Extend<u8>>(value: &T, w: &mut W) -> postcard::Result<()> {
        let mut buf = alloc::vec![0u8; 1 << 12];
        let n = postcard::to_slice(value, &mut buf)?.len();
        w.extend(buf.into_iter().take(n));
        Ok(())
    }
    pub fn entity_to_extend_mut<W: Extend<u8>>(entity: &Entity, w: &mut W) -> postcard::Result<()> {
        to_extend_mut(&entity.to_bits(), w)
    }
    pub fn entity_from_buf(buf: &mut Bytes) -> postcard::Result<Entity> {
        let bits: u64 = from_buf(buf)?;
        Entity::try_from_bits(bits).ok_or(postcard::Error::DeserializeBadEncoding)
    }
}

pub mod prelude {
    pub use crate::client::{ClientPlugin, ClientSystems, confirm_history::ConfirmHistory};
    pub use crate::server::{ServerPlugin, ServerSystems};
    pub use crate::shared::backend::connected_client::ConnectedClient;
    pub use crate::shared::backend::{ClientMessages, ClientState, ServerMessages, ServerState};
    pub use crate::shared::replication::receive_markers::{AppMarkerExt, MarkerConfig};
    pub use crate::shared::replication::registry::rule_fns::RuleFns;
    pub use crate::shared::replication::rules::{AppRuleExt, ReplicationMode};
    pub use crate::shared::replication::signature::Signature;
    pub use crate::shared::replication::visibility::*;
    pub use crate::shared::replication::{Remote, Replicated};
    pub use crate::shared::replicon_tick::RepliconTick;
    pub use crate::shared::{AuthMethod, RepliconPlugins, RepliconSharedPlugin};
    pub use crate::shared::related_entities::SyncRelatedAppExt;
}

pub mod client {
    use bevy_app::prelude::*;
    use bevy_ecs::prelude::*;
    use crate::shared::replicon_tick::RepliconTick;

    #[derive(SystemSet, Debug, Clone, PartialEq, Eq, Hash)]
    pub enum ClientSystems { ReceivePackets, Receive, Diagnostics, Send, SendPackets }

    pub struct ClientPlugin;
    impl Plugin for ClientPlugin {
        fn build(&self, app: &mut App) {
            app.init_resource::<crate::shared::backend::ClientMessages>()
                .init_resource::<server_mutate_ticks::ServerMutateTicks>();
            app.configure_sets(PreUpdate, (ClientSystems::ReceivePackets, ClientSystems::Receive).chain());
            app.configure_sets(PostUpdate, (ClientSystems::Send, ClientSystems::SendPackets).chain());
        }
    }

    #[derive(Event, Debug, Clone)]
    pub struct UserdataReceived { pub bytes: bytes::Bytes, pub message_tick: RepliconTick }

    pub mod confirm_history {
        use super::*;
        /// Last confirmed tick plus a 64 bit mask of earlier ones.
        #[derive(Component, Debug, Clone, Copy, PartialEq)]
        pub struct ConfirmHistory { mask: u64, last_tick: RepliconTick }
        impl ConfirmHistory {
            pub fn new(last_tick: RepliconTick) -> Self { Self { mask: 1, last_tick } }
            pub fn last_tick(&self) -> RepliconTick { self.last_tick }
            pub fn contains(&self, tick: RepliconTick) -> bool {
                if tick > self.last_tick { return false; }
                let ago = self.last_tick - tick;
                ago >= 64 || (self.mask >> ago & 1) == 1
            }
            pub fn confirm(&mut self, tick: RepliconTick) {
                if tick > self.last_tick {
                    let diff = tick - self.last_tick;
                    self.mask = self.mask.checked_shl(diff).unwrap_or(0) | 1;
                    self.last_tick = tick;
                } else {
                    let ago = self.last_tick - tick;
                    if ago < 64 { self.mask |= 1 << ago; }
                }
            }
        }
    }
    pub mod server_mutate_ticks {
        use super::*;
        #[derive(Resource, Debug, Default, Clone)]
        pub struct ServerMutateTicks { last: Option<RepliconTick> }
        impl ServerMutateTicks {
            pub fn last_confirmed_tick(&self) -> Option<RepliconTick> { self.last }
            pub fn stub_set(&mut self, t: Option<RepliconTick>) { self.last = t; }
        }
    }
}

pub mod server {
    use bevy_app::prelude::*;
    use bevy_ecs::prelude::*;
    use bevy_ecs::entity::EntityHashMap;
    use bevy_ecs::schedule::{InternedScheduleLabel, ScheduleLabel};

    #[derive(SystemSet, Debug, Clone, PartialEq, Eq, Hash)]
    pub enum ServerSystems { ReceivePackets, Receive, ReadRelations, IncrementTick, Send, SendPackets, Diagnostics }

    pub struct ServerPlugin {
        pub tick_schedule: Option<InternedScheduleLabel>,
        pub track_mutate_messages: bool,
        pub mutations_timeout: core::time::Duration,
    }
    impl Default for ServerPlugin {
        fn default() -> Self {
            Self { tick_schedule: Some(FixedPostUpdate.intern()), track_mutate_messages: false, mutations_timeout: core::time::Duration::from_secs(10) }
        }
    }
    impl Plugin for ServerPlugin {
        fn build(&self, app: &mut App) {
            app.init_resource::<crate::shared::backend::ServerMessages>()
                .init_resource::<ReplicationUserdata>()
                .init_resource::<server_tick::ServerTick>()
                .init_resource::<visibility::registry::FilterRegistry>();
            app.configure_sets(PreUpdate, (ServerSystems::ReceivePackets, ServerSystems::Receive).chain());
            app.configure_sets(PostUpdate, (ServerSystems::ReadRelations, ServerSystems::IncrementTick, ServerSystems::Send, ServerSystems::SendPackets).chain());
            app.world_mut().register_required_components::<crate::prelude::ConnectedClient, visibility::client_visibility::ClientVisibility>();
        }
    }

    #[derive(Resource, Default, Debug, Clone)]
    pub struct ReplicationUserdata(pub alloc::vec::Vec<u8>);
    impl core::ops::Deref for ReplicationUserdata { type Target = alloc::vec::Vec<u8>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl core::ops::DerefMut for ReplicationUserdata { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }

    #[derive(Component, Default, Debug, Clone)]
    pub struct PriorityMap(pub EntityHashMap<f32>);
    #[derive(Component, Default, Debug, Clone, Copy)]
    pub struct ReplicatePriority(pub f32);

    pub mod server_tick {
        use bevy_ecs::prelude::*;
        use crate::shared::replicon_tick::RepliconTick;
        #[derive(Resource, Default, Debug, Clone, Copy)]
        pub struct ServerTick(RepliconTick);
        impl ServerTick {
            pub fn get(&self) -> RepliconTick { self.0 }
            pub fn increment(&mut self) { self.0 += 1; }
            pub fn increment_by(&mut self, by: u32) { self.0 += by; }
        }
        impl core::ops::Deref for ServerTick { type Target = RepliconTick; fn deref(&self) -> &RepliconTick { &self.0 } }
    }
    pub mod visibility {
        pub mod client_visibility {
            use bevy_ecs::prelude::*;
            use bevy_ecs::entity::EntityHashMap;
            use super::filters_mask::FilterBit;
            /// Which filter bits hide which entities from this client.
            #[derive(Component, Default, Debug, Clone)]
            pub struct ClientVisibility { pub hidden: EntityHashMap<u64> }
            impl ClientVisibility {
                pub fn set(&mut self, entity: Entity, bit: FilterBit, visible: bool) {
                    let m = self.hidden.entry(entity).or_insert(0);
                    if visible { *m &= !(1 << bit.0) } else { *m |= 1 << bit.0 }
                }
                pub fn stub_hidden_by(&self, entity: Entity, bit: FilterBit) -> bool {
                    self.hidden.get(&entity).is_some_and(|m| m >> bit.0 & 1 == 1)
                }
                pub fn stub_mask(&self, entity: Entity) -> u64 { self.hidden.get(&entity).copied().unwrap_or(0) }
            }
        }
        pub mod filters_mask {
            #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
            pub struct FilterBit(pub u8);
        }
        pub mod registry {
            use bevy_ecs::prelude::*;
            use super::filters_mask::FilterBit;
            use crate::prelude::{FilterScope, ScopeLifetime};
            use crate::shared::replication::registry::ReplicationRegistry;
            #[derive(Resource, Default, Debug)]
            pub struct FilterRegistry { pub scopes: alloc::vec::Vec<(&'static str, ScopeLifetime)> }
            impl FilterRegistry {
                pub fn register_scope<S: FilterScope>(&mut self, world: &mut World, registry: &mut ReplicationRegistry, lifetime: ScopeLifetime) -> FilterBit {
                    self.scopes.push((core::any::type_name::<S>(), lifetime));
                    FilterBit((self.scopes.len() - 1) as u8)
                }
            }
        }
    }
}

pub mod shared {
    use bevy_app::{PluginGroupBuilder, prelude::*};

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub enum AuthMethod { #[default] ProtocolCheck, Custom, None }
    #[derive(Default)]
    pub struct RepliconSharedPlugin { pub auth_method: AuthMethod }
    impl Plugin for RepliconSharedPlugin {
        fn build(&self, app: &mut App) {
            use crate::shared::backend::{ClientState, ServerState};
            app.init_resource::<bevy_state::prelude::State<ClientState>>()
                .init_resource::<bevy_state::prelude::NextState<ClientState>>()
                .init_resource::<bevy_state::prelude::State<ServerState>>()
                .init_resource::<bevy_state::prelude::NextState<ServerState>>()
                .init_resource::<replication::registry::ReplicationRegistry>()
                .init_resource::<replication::storage::ReplicationStorage>()
                .init_resource::<replication::rules::ReplicationRules>()
                .init_resource::<server_entity_map::ServerEntityMap>()
                .init_resource::<backend::connected_client::NetworkIdMap>();
        }
    }
    pub struct RepliconPlugins;
    impl PluginGroup for RepliconPlugins {
        fn build(self) -> PluginGroupBuilder {
            PluginGroupBuilder::start::<Self>()
                .add(RepliconSharedPlugin::default())
                .add(crate::client::ClientPlugin)
                .add(crate::server::ServerPlugin::default())
        }
    }
    pub mod related_entities {
        use bevy_app::prelude::*;
        use bevy_ecs::prelude::*;
        pub trait SyncRelatedAppExt { fn sync_related_entities<C: Component + bevy_ecs::relationship::Relationship>(&mut self) -> &mut Self; }
        impl SyncRelatedAppExt for App {
            fn sync_related_entities<C: Component + bevy_ecs::relationship::Relationship>(&mut self) -> &mut Self { self }
        }
    }
    pub mod replicon_tick {
        use core::cmp::Ordering;
        use serde::{Deserialize, Serialize};
        #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize, bevy_reflect::Reflect)]
        pub struct RepliconTick(u32);
        impl RepliconTick {
            pub const fn new(v: u32) -> Self { Self(v) }
            pub const fn get(self) -> u32 { self.0 }
        }
        impl PartialOrd for RepliconTick {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                let d = self.0.wrapping_sub(o.0);
                Some(if d == 0 { Ordering::Equal } else if d > u32::MAX / 2 { Ordering::Less } else { Ordering::Greater })
            }
        }
        impl core::ops::Add<u32> for RepliconTick { type Output = Self; fn add(self, r: u32) -> Self { Self(self.0.wrapping_add(r)) } }
        impl core::ops::AddAssign<u32> for RepliconTick { fn add_assign(&mut self, r: u32) { self.0 = self.0.wrapping_add(r) } }
        impl core::ops::Sub for RepliconTick { type Output = u32; fn sub(self, r: Self) -> u32 { self.0.wrapping_sub(r.0) } }
        impl core::ops::Sub<u32> for RepliconTick { type Output = Self; fn sub(self, r: u32) -> Self { Self(self.0.wrapping_sub(r)) } }
    }
    pub mod server_entity_map {
        use bevy_ecs::prelude::*;
        use bevy_ecs::entity::EntityHashMap;
        #[derive(Resource, Default, Debug)]
        pub struct ServerEntityMap { s2c: EntityHashMap<Entity>, c2s: EntityHashMap<Entity> }
        impl ServerEntityMap {
            pub fn to_client(&self) -> &EntityHashMap<Entity> { &self.s2c }
            pub fn to_server(&self) -> &EntityHashMap<Entity> { &self.c2s }
            pub fn insert(&mut self, server: Entity, client: Entity) { self.s2c.insert(server, client); self.c2s.insert(client, server); }
            pub fn remove_by_client(&mut self, client: Entity) -> Option<Entity> { let s = self.c2s.remove(&client)?; self.s2c.remove(&s); Some(s) }
            pub fn clear(&mut self) { self.s2c.clear(); self.c2s.clear(); }
        }
    }
    pub mod backend {
        use bevy_ecs::prelude::*;
        use bytes::Bytes;
        use alloc::vec::Vec;
        #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum ClientState { #[default] Disconnected, Connecting, Connected }
        impl bevy_state::prelude::States for ClientState {}
        #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum ServerState { #[default] Stopped, Running }
        impl bevy_state::prelude::States for ServerState {}
        #[derive(Resource, Default, Debug)]
        pub struct ClientMessages { pub received: Vec<(usize, Bytes)>, pub sent: Vec<(usize, Bytes)> }
        impl ClientMessages {
            pub fn received_count<I: Into<usize>>(&self, c: I) -> usize { let c = c.into(); self.received.iter().filter(|m| m.0 == c).count() }
            pub fn insert_received<I: Into<usize>, B: Into<Bytes>>(&mut self, c: I, m: B) { self.received.push((c.into(), m.into())) }
            pub fn drain_sent(&mut self) -> impl Iterator<Item = (usize, Bytes)> + '_ { self.sent.drain(..) }
            pub fn drain_received(&mut self) -> impl Iterator<Item = (usize, Bytes)> + '_ { self.received.drain(..) }
        }
        #[derive(Resource, Default, Debug)]
        pub struct ServerMessages { pub received: Vec<(Entity, usize, Bytes)>, pub sent: Vec<(Entity, usize, Bytes)> }
        impl ServerMessages {
            pub fn insert_received<I: Into<usize>, B: Into<Bytes>>(&mut self, e: Entity, c: I, m: B) { self.received.push((e, c.into(), m.into())) }
            pub fn drain_sent(&mut self) -> impl Iterator<Item = (Entity, usize, Bytes)> + '_ { self.sent.drain(..) }
            pub fn drain_received(&mut self) -> impl Iterator<Item = (Entity, usize, Bytes)> + '_ { self.received.drain(..) }
        }
        pub mod channels {
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum ServerChannel { Updates, Mutations }
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum ClientChannel { MutationAcks }
            impl From<ServerChannel> for usize { fn from(c: ServerChannel) -> usize { c as usize } }
            impl From<ClientChannel> for usize { fn from(c: ClientChannel) -> usize { c as usize } }
        }
        pub mod connected_client {
            use bevy_ecs::prelude::*;
            #[derive(Component, Debug, Clone, Copy)]
            pub struct ConnectedClient { pub max_size: usize }
            #[derive(Component, Debug, Clone, Copy, PartialEq, Eq, Hash)]
            pub struct NetworkId(u64);
            impl NetworkId { pub fn new(id: u64) -> Self { Self(id) } pub fn get(&self) -> u64 { self.0 } }
            #[derive(Resource, Debug, Default)]
            pub struct NetworkIdMap(pub alloc::collections::BTreeMap<u64, Entity>);
        }
    }
    pub mod replication {
        use bevy_ecs::prelude::*;
        use bevy_reflect::Reflect;
        #[derive(Component, Debug, Default, Clone, Copy, PartialEq, Reflect)]
        pub struct Replicated;
        #[derive(Component, Debug, Default, Clone, Copy, PartialEq, Reflect)]
        pub struct Remote;

        pub mod signature {
            use bevy_ecs::prelude::*;
            #[derive(Component, Debug, Clone, Copy, PartialEq)]
            pub struct Signature { pub hash: u64, pub client: Option<Entity> }
            impl Signature {
                pub fn from_hash(hash: u64) -> Self { Self { hash, client: None } }
                pub fn for_client(mut self, e: Entity) -> Self { self.client = Some(e); self }
                pub fn hash(&self) -> u64 { self.hash }
            }
        }
        pub mod visibility {
            use bevy_app::prelude::*;
            use bevy_ecs::prelude::*;
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum ScopeLifetime { WhileVisible, AfterFirstVisibility, AlwaysPresent }
            pub trait FilterScope: 'static {}
            impl FilterScope for Entity {}
            pub struct SingleComponent<C>(core::marker::PhantomData<C>);
            impl<C: Component> FilterScope for SingleComponent<C> {}
            pub trait VisibilityFilter: Component {
                type ClientComponent: Component;
                type Scope: FilterScope;
                fn is_visible(&self, client: Entity, component: Option<&Self::ClientComponent>) -> bool;
            }
            pub trait AppVisibilityExt { fn add_visibility_filter<F: VisibilityFilter>(&mut self) -> &mut Self; }
            impl AppVisibilityExt for App { fn add_visibility_filter<F: VisibilityFilter>(&mut self) -> &mut Self { self } }
        }
        pub mod receive_markers {
            use bevy_app::prelude::*;
            use bevy_ecs::prelude::*;
            use super::registry::ReplicationRegistry;
            use super::registry::receive_fns::{WriteFn, RemoveFn};
            #[derive(Debug, Clone, Copy, Default)]
            pub struct MarkerConfig { pub priority: usize, pub need_history: bool }
            pub trait AppMarkerExt {
                fn register_marker<M: Component>(&mut self) -> &mut Self;
                fn register_marker_with<M: Component>(&mut self, config: MarkerConfig) -> &mut Self;
                fn set_marker_fns<M: Component, C: Component>(&mut self, write: WriteFn<C>, remove: RemoveFn) -> &mut Self;
                fn set_receive_fns<C: Component>(&mut self, write: WriteFn<C>, remove: RemoveFn) -> &mut Self;
            }
            impl AppMarkerExt for App {
                fn register_marker<M: Component>(&mut self) -> &mut Self { self.register_marker_with::<M>(MarkerConfig::default()) }
                fn register_marker_with<M: Component>(&mut self, config: MarkerConfig) -> &mut Self {
                    let id = self.world_mut().register_component::<M>();
                    self.init_resource::<ReplicationRegistry>();
                    let mut r = self.world_mut().resource_mut::<ReplicationRegistry>();
                    // replicon keeps the markers sorted by descending priority
                    let at = r.markers.iter().position(|m| m.1.priority < config.priority).unwrap_or(r.markers.len());
                    r.markers.insert(at, (id, config, core::any::type_name::<M>()));
                    self
                }
                fn set_marker_fns<M: Component, C: Component>(&mut self, write: WriteFn<C>, remove: RemoveFn) -> &mut Self {
                    let m = self.world_mut().register_component::<M>();
                    let c = self.world_mut().register_component::<C>();
                    self.init_resource::<ReplicationRegistry>();
                    let mut r = self.world_mut().resource_mut::<ReplicationRegistry>();
                    assert!(r.markers.iter().any(|x| x.0 == m), "marker `{}` should be registered", core::any::type_name::<M>());
                    r.receive.insert((Some(m), c), super::registry::ErasedReceive::new::<C>(write, remove));
                    self
                }
                fn set_receive_fns<C: Component>(&mut self, write: WriteFn<C>, remove: RemoveFn) -> &mut Self {
                    let c = self.world_mut().register_component::<C>();
                    self.init_resource::<ReplicationRegistry>();
                    let mut r = self.world_mut().resource_mut::<ReplicationRegistry>();
                    r.receive.insert((None, c), super::registry::ErasedReceive::new::<C>(write, remove));
                    self
                }
            }
        }
        pub mod deferred_entity {
            use bevy_ecs::prelude::*;
            use bevy_ecs::component::Mutable;
            use bevy_ecs::world::EntityWorldMut;
            #[derive(Default)]
            pub struct EntityScratch { _p: () }
            /// Records structural changes and applies them on [`Self::flush`].
            pub struct DeferredEntity<'w> {
                entity: EntityWorldMut<'w>,
                ops: alloc::vec::Vec<alloc::boxed::Box<dyn FnOnce(&mut EntityWorldMut) + 'w>>,
            }
            impl<'w> DeferredEntity<'w> {
                pub fn new(entity: EntityWorldMut<'w>, scratch: &'w mut EntityScratch) -> Self { Self { entity, ops: Default::default() } }
                pub fn id(&self) -> Entity { self.entity.id() }
                pub fn contains<C: Component>(&self) -> bool { self.entity.contains::<C>() }
                pub fn get<C: Component>(&self) -> Option<&C> { self.entity.get::<C>() }
                pub fn get_mut<C: Component<Mutability = Mutable>>(&mut self) -> Option<Mut<'_, C>> { self.entity.get_mut::<C>() }
                pub fn insert<C: Component>(&mut self, c: C) -> &mut Self { self.ops.push(alloc::boxed::Box::new(move |e| { e.insert(c); })); self }
                pub fn remove<C: Component>(&mut self) -> &mut Self { self.ops.push(alloc::boxed::Box::new(move |e| { e.remove::<C>(); })); self }
                pub fn world(&self) -> &World { self.entity.world() }
                /// # Safety
                /// as the original: no structural changes
                pub unsafe fn world_mut(&mut self) -> &mut World { unsafe { self.entity.world_mut() } }
                pub fn flush(&mut self) { for op in core::mem::take(&mut self.ops) { op(&mut self.entity) } }
            }
        }
        pub mod storage {
            use bevy_ecs::prelude::*;
            use bevy_ecs::entity::EntityHashMap;
            use core::any::{Any, TypeId};
            use alloc::boxed::Box;
            use alloc::collections::BTreeMap;
            type Slot = Box<dyn Any + Send + Sync>;
            #[derive(Default)]
            pub struct EntityStorage { slots: BTreeMap<TypeId, Slot> }
            impl EntityStorage {
                pub fn get<T: Send + Sync + 'static>(&self) -> Option<&T> { self.slots.get(&TypeId::of::<T>())?.downcast_ref() }
                pub fn get_mut<T: Send + Sync + 'static>(&mut self) -> Option<&mut T> { self.slots.get_mut(&TypeId::of::<T>())?.downcast_mut() }
                pub fn insert<T: Send + Sync + 'static>(&mut self, t: T) { self.slots.insert(TypeId::of::<T>(), Box::new(t)); }
                pub fn get_or_init<T: Send + Sync + 'static>(&mut self, f: impl FnOnce() -> T) -> &mut T {
                    self.slots.entry(TypeId::of::<T>()).or_insert_with(|| Box::new(f())).downcast_mut().unwrap()
                }
            }
            #[derive(Resource, Default)]
            pub struct ReplicationStorage { pub entities: EntityHashMap<EntityStorage> }
            impl ReplicationStorage {
                pub fn get<T: Send + Sync + 'static>(&self, e: Entity) -> Option<&T> { self.entities.get(&e)?.get() }
                pub fn get_mut<T: Send + Sync + 'static>(&mut self, e: Entity) -> Option<&mut T> { self.entities.get_mut(&e)?.get_mut() }
                pub fn insert<T: Send + Sync + 'static>(&mut self, e: Entity, t: T) { self.entities.entry(e).or_default().insert(t) }
                pub fn get_or_init<T: Send + Sync + 'static>(&mut self, e: Entity, f: impl FnOnce() -> T) -> &mut T { self.entities.entry(e).or_default().get_or_init(f) }
            }
            pub trait EntityStorageCtx {
                fn get<T: Send + Sync + 'static>(&self) -> Option<&T>;
                fn get_mut<T: Send + Sync + 'static>(&mut self) -> Option<&mut T>;
                fn get_or_init<T: Send + Sync + 'static>(&mut self, f: impl FnOnce() -> T) -> &mut T;
                fn get_or_default<T: Send + Sync + Default + 'static>(&mut self) -> &mut T { self.get_or_init(T::default) }
            }
        }
        pub mod diff {
            use bevy_ecs::prelude::*;
            use serde::{Deserialize, Serialize, de::DeserializeOwned};
            use diff_index::DiffIndex;
            pub mod diff_index {
                use core::cmp::Ordering;
                use serde::{Deserialize, Serialize};
                #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
                pub struct DiffIndex(u16);
                impl DiffIndex {
                    pub const fn new(v: u16) -> Self { Self(v) }
                    pub const fn get(self) -> u16 { self.0 }
                    pub fn distance_after(self, o: Self) -> u16 { self.0.wrapping_sub(o.0) }
                    pub fn is_newer(self, o: Self) -> bool { let d = self.0.wrapping_sub(o.0); d != 0 && d <= u16::MAX / 2 }
                }
                impl PartialOrd for DiffIndex {
                    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                        Some(if self == o { Ordering::Equal } else if self.is_newer(*o) { Ordering::Greater } else { Ordering::Less })
                    }
                }
                impl core::ops::Add<u16> for DiffIndex { type Output = Self; fn add(self, r: u16) -> Self { Self(self.0.wrapping_add(r)) } }
                impl core::ops::Sub<u16> for DiffIndex { type Output = Self; fn sub(self, r: u16) -> Self { Self(self.0.wrapping_sub(r)) } }
                impl core::ops::Sub for DiffIndex { type Output = u16; fn sub(self, r: Self) -> u16 { self.0.wrapping_sub(r.0) } }
            }
            pub trait Diffable: Component<Mutability = bevy_ecs::component::Mutable> + Serialize + DeserializeOwned {
                type Diff: Clone + Send + Sync + Serialize + DeserializeOwned + 'static;
                fn apply_diff(&mut self, diff: &Self::Diff) -> Result<(), BevyError>;
            }
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "C: Serialize, C::Diff: Serialize", deserialize = "C: DeserializeOwned, C::Diff: DeserializeOwned"))]
            pub enum ComponentDelta<C: Diffable> {
                Snapshot { index: DiffIndex, component: C },
                Diffs { index: DiffIndex, diffs: alloc::vec::Vec<C::Diff> },
            }
            pub struct DiffBuffer<C> { pub last: Option<DiffIndex>, _p: core::marker::PhantomData<fn() -> C> }
            impl<C> DiffBuffer<C> {
                pub fn stub_new(last: Option<DiffIndex>) -> Self { Self { last, _p: core::marker::PhantomData } }
                pub fn last_applied(&self) -> Option<DiffIndex> { self.last }
            }
            pub trait EntityDiffExt { }
        }
        pub mod registry {
            use alloc::vec::Vec;
            use bevy_ecs::component::ComponentId;
            use bevy_ecs::prelude::*;
            use bevy_ecs::world::EntityWorldMut;
            use bevy_platform::collections::HashMap;
            use bytes::Bytes;
            use super::deferred_entity::DeferredEntity;
            use super::receive_markers::MarkerConfig;
            use ctx::*;

            pub type DespawnFn = fn(&DespawnCtx, EntityWorldMut);
            pub fn despawn(_ctx: &DespawnCtx, entity: EntityWorldMut) { entity.despawn(); }

            #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
            pub struct FnsId(pub usize);
            impl FnsId { pub fn get(&self) -> usize { self.0 } }

            pub(crate) struct ErasedReceive {
                write: fn(),
                remove: receive_fns::RemoveFn,
                call: unsafe fn(fn(), &(dyn core::any::Any + Send + Sync), &mut WriteCtx, &mut DeferredEntity, &mut Bytes) -> Result<(), BevyError>,
            }
            impl ErasedReceive {
                pub(crate) fn new<C: Component>(write: receive_fns::WriteFn<C>, remove: receive_fns::RemoveFn) -> Self {
                    unsafe fn call<C: Component>(w: fn(), rule: &(dyn core::any::Any + Send + Sync), ctx: &mut WriteCtx, e: &mut DeferredEntity, m: &mut Bytes) -> Result<(), BevyError> {
                        let w: receive_fns::WriteFn<C> = unsafe { core::mem::transmute(w) };
                        w(ctx, rule.downcast_ref::<rule_fns::RuleFns<C>>().expect("rule of the component"), e, m)
                    }
                    Self { write: unsafe { core::mem::transmute::<receive_fns::WriteFn<C>, fn()>(write) }, remove, call: call::<C> }
                }
            }
            pub struct Rule {
                pub component: ComponentId,
                pub fns: alloc::boxed::Box<dyn core::any::Any + Send + Sync>,
                pub name: &'static str,
            }

            #[derive(Resource)]
            pub struct ReplicationRegistry {
                pub despawn: DespawnFn,
                pub markers: Vec<(ComponentId, MarkerConfig, &'static str)>,
                pub(crate) receive: HashMap<(Option<ComponentId>, ComponentId), ErasedReceive>,
                pub rules: Vec<Rule>,
            }
            impl Default for ReplicationRegistry {
                fn default() -> Self { Self { despawn, markers: Vec::new(), receive: Default::default(), rules: Vec::new() } }
            }
            /// Harness side: which receive functions an entity with these markers uses for the component.
            fn pick(world: &World, e: Entity, c: ComponentId) -> Option<Option<ComponentId>> {
                let r = world.resource::<ReplicationRegistry>();
                let er = world.entity(e);
                for (m, ..) in &r.markers {
                    if er.contains_id(*m) && r.receive.contains_key(&(Some(*m), c)) { return Some(Some(*m)); }
                }
                r.receive.contains_key(&(None, c)).then_some(None)
            }
            /// Harness side: a component's bytes arrived in a replication message.
            pub fn stub_write<C: Component>(world: &mut World, e: Entity, message_tick: crate::prelude::RepliconTick, message: &mut Bytes) -> Result<(), BevyError> {
                use super::storage::ReplicationStorage;
                let cid = world.register_component::<C>();
                let key = pick(world, e, cid);
                // like replicon, keep the registry and storages out of the world while writing
                let reg = world.remove_resource::<ReplicationRegistry>().unwrap();
                let mut storage = world.remove_resource::<ReplicationStorage>().unwrap_or_default();
                let mut map = world.remove_resource::<crate::shared::server_entity_map::ServerEntityMap>().unwrap_or_default();
                let spawned = core::cell::RefCell::new(Vec::new());
                let res = {
                    let mut scratch = Default::default();
                    let rule = reg.rules.iter().find(|r| r.component == cid).expect("component has a replication rule");
                    let mut ctx = WriteCtx { message_tick, entity_map: &mut map, entity: e, storage: &mut storage, ignore_mapping: false };
                    let mut de = DeferredEntity::new(world.entity_mut(e), &mut scratch);
                    let r = match key {
                        Some(k) => { let f = &reg.receive[&(k, cid)]; unsafe { (f.call)(f.write, &*rule.fns, &mut ctx, &mut de, message) } }
                        None => rule.fns.downcast_ref::<rule_fns::RuleFns<C>>().unwrap().deserialize(&mut ctx, message).map(|c| { de.insert(c); }),
                    };
                    de.flush();
                    r
                };
                let _ = spawned.borrow_mut().pop() as Option<Entity>;
                world.insert_resource(map); world.insert_resource(storage); world.insert_resource(reg);
                world.flush();
                res
            }
            /// Harness side: a component removal arrived in a replication message.
            pub fn stub_remove<C: Component>(world: &mut World, e: Entity, message_tick: crate::prelude::RepliconTick) {
                use super::storage::ReplicationStorage;
                let cid = world.register_component::<C>();
                let key = pick(world, e, cid);
                let reg = world.remove_resource::<ReplicationRegistry>().unwrap();
                let mut storage = world.remove_resource::<ReplicationStorage>().unwrap_or_default();
                let mut map = world.remove_resource::<crate::shared::server_entity_map::ServerEntityMap>().unwrap_or_default();
                {
                    let mut scratch = Default::default();
                    let mut ctx = RemoveCtx { message_tick, entity_map: &mut map, entity: e, storage: &mut storage };
                    let mut de = DeferredEntity::new(world.entity_mut(e), &mut scratch);
                    match key { Some(k) => (reg.receive[&(k, cid)].remove)(&mut ctx, &mut de), None => { de.remove::<C>(); } }
                    de.flush();
                }
                world.insert_resource(map); world.insert_resource(storage); world.insert_resource(reg);
                world.flush();
            }
            /// Harness side: a despawn arrived in a replication message.
            pub fn stub_despawn(world: &mut World, e: Entity, message_tick: crate::prelude::RepliconTick) {
                let f = world.resource::<ReplicationRegistry>().despawn;
                f(&DespawnCtx { message_tick }, world.entity_mut(e));
                world.flush();
            }

            pub mod ctx {
                use super::*;
                use bevy_ecs::entity::EntityMapper;
                use crate::prelude::RepliconTick;
                use crate::shared::replication::storage::{EntityStorageCtx, ReplicationStorage};
                use crate::shared::server_entity_map::ServerEntityMap;
                pub struct SerializeCtx { pub server_tick: RepliconTick }
                pub struct WriteCtx<'a> { pub entity_map: &'a mut ServerEntityMap, pub message_tick: RepliconTick, pub ignore_mapping: bool, pub(crate) entity: Entity, pub(crate) storage: &'a mut ReplicationStorage }
                pub struct RemoveCtx<'a> { pub message_tick: RepliconTick, pub entity_map: &'a mut ServerEntityMap, pub(crate) entity: Entity, pub(crate) storage: &'a mut ReplicationStorage }
                pub struct DespawnCtx { pub message_tick: RepliconTick }
                impl EntityMapper for WriteCtx<'_> {
                    fn get_mapped(&mut self, source: Entity) -> Entity { self.entity_map.to_client().get(&source).copied().unwrap_or(Entity::PLACEHOLDER) }
                    fn set_mapped(&mut self, source: Entity, target: Entity) { self.entity_map.insert(source, target) }
                }
                impl EntityStorageCtx for WriteCtx<'_> {
                    fn get<T: Send + Sync + 'static>(&self) -> Option<&T> { self.storage.get(self.entity) }
                    fn get_mut<T: Send + Sync + 'static>(&mut self) -> Option<&mut T> { self.storage.get_mut(self.entity) }
                    fn get_or_init<T: Send + Sync + 'static>(&mut self, f: impl FnOnce() -> T) -> &mut T { self.storage.get_or_init(self.entity, f) }
                }
                impl EntityStorageCtx for RemoveCtx<'_> {
                    fn get<T: Send + Sync + 'static>(&self) -> Option<&T> { self.storage.get(self.entity) }
                    fn get_mut<T: Send + Sync + 'static>(&mut self) -> Option<&mut T> { self.storage.get_mut(self.entity) }
                    fn get_or_init<T: Send + Sync + 'static>(&mut self, f: impl FnOnce() -> T) -> &mut T { self.storage.get_or_init(self.entity, f) }
                }
            }
            pub mod rule_fns {
                use super::*;
                use serde::{Serialize, de::DeserializeOwned};
                pub type SerializeFn<C> = fn(&mut SerializeCtx, &C, &mut Vec<u8>) -> Result<(), BevyError>;
                pub type DeserializeFn<C> = fn(&mut WriteCtx, &mut Bytes) -> Result<C, BevyError>;
                pub struct RuleFns<C> { serialize: SerializeFn<C>, deserialize: DeserializeFn<C> }
                impl<C> Clone for RuleFns<C> { fn clone(&self) -> Self { *self } }
                impl<C> Copy for RuleFns<C> {}
                impl<C: Component> RuleFns<C> {
                    pub fn new(serialize: SerializeFn<C>, deserialize: DeserializeFn<C>) -> Self { Self { serialize, deserialize } }
                    pub fn new_diff() -> Self where C: crate::shared::replication::diff::Diffable { Self::default() }
                    pub fn serialize(&self, ctx: &mut SerializeCtx, c: &C, m: &mut Vec<u8>) -> Result<(), BevyError> { (self.serialize)(ctx, c, m) }
                    pub fn deserialize(&self, ctx: &mut WriteCtx, m: &mut Bytes) -> Result<C, BevyError> { (self.deserialize)(ctx, m) }
                }
                pub fn default_serialize<C: Serialize>(_: &mut SerializeCtx, c: &C, m: &mut Vec<u8>) -> Result<(), BevyError> { crate::postcard_utils::to_extend_mut(c, m)?; Ok(()) }
                pub fn default_deserialize<C: Component + DeserializeOwned>(ctx: &mut WriteCtx, m: &mut Bytes) -> Result<C, BevyError> {
                    let mut c: C = crate::postcard_utils::from_buf(m)?;
                    C::map_entities(&mut c, ctx);
                    Ok(c)
                }
                impl<C: Component + Serialize + DeserializeOwned> Default for RuleFns<C> {
                    fn default() -> Self { Self { serialize: default_serialize::<C>, deserialize: default_deserialize::<C> } }
                }
            }
            pub mod receive_fns {
                use super::*;
                use bevy_ecs::component::{Immutable, Mutable};
                pub type WriteFn<C> = fn(&mut WriteCtx, &rule_fns::RuleFns<C>, &mut DeferredEntity, &mut Bytes) -> Result<(), BevyError>;
                pub type RemoveFn = fn(&mut RemoveCtx, &mut DeferredEntity);
                pub trait MutWrite<C> {}
                impl<C: Component<Mutability = Mutable>> MutWrite<C> for Mutable {}
                impl<C: Component<Mutability = Immutable>> MutWrite<C> for Immutable {}
            }
        }
        pub mod rules {
            use bevy_app::prelude::*;
            use bevy_ecs::prelude::*;
            use serde::{Serialize, de::DeserializeOwned};
            use super::diff::Diffable;
            use super::registry::{ReplicationRegistry, Rule, receive_fns::MutWrite, rule_fns::RuleFns};
            use filter::FilterRules;
            #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
            pub enum ReplicationMode { #[default] OnChange, Once }
            #[derive(Resource, Default)]
            pub struct ReplicationRules(pub alloc::vec::Vec<(&'static str, ReplicationMode)>);
            pub mod filter {
                use bevy_ecs::prelude::*;
                pub trait FilterRules {}
                impl<C: Component> FilterRules for With<C> {}
                impl<C: Component> FilterRules for Without<C> {}
            }
            pub trait IntoRule<C> { fn parts(self) -> (RuleFns<C>, ReplicationMode); }
            impl<C: Component> IntoRule<C> for RuleFns<C> { fn parts(self) -> (RuleFns<C>, ReplicationMode) { (self, ReplicationMode::OnChange) } }
            impl<C: Component> IntoRule<C> for (RuleFns<C>, ReplicationMode) { fn parts(self) -> (RuleFns<C>, ReplicationMode) { self } }
            /// what `replicate_with` takes in place of replicon's rule tuples
            pub trait IntoComponentRules { fn add(self, app: &mut App); }
            fn add<C: Component>(app: &mut App, fns: RuleFns<C>, mode: ReplicationMode) {
                let component = app.world_mut().register_component::<C>();
                app.init_resource::<ReplicationRegistry>().init_resource::<ReplicationRules>();
                let name = core::any::type_name::<C>();
                app.world_mut().resource_mut::<ReplicationRules>().0.push((name, mode));
                app.world_mut().resource_mut::<ReplicationRegistry>().rules.push(Rule { component, fns: alloc::boxed::Box::new(fns), name });
            }
            impl<C: Component<Mutability: MutWrite<C>>> IntoComponentRules for RuleFns<C> { fn add(self, app: &mut App) { add(app, self, ReplicationMode::OnChange) } }
            impl<C: Component<Mutability: MutWrite<C>>> IntoComponentRules for (RuleFns<C>, ReplicationMode) { fn add(self, app: &mut App) { add(app, self.0, self.1) } }
            pub trait AppRuleExt {
                fn a(&mut self) -> &mut App;
                fn replicate<C>(&mut self) -> &mut Self where C: Component<Mutability: MutWrite<C>> + Serialize + DeserializeOwned { add::<C>(self.a(), RuleFns::default(), ReplicationMode::OnChange); self }
                fn replicate_once<C>(&mut self) -> &mut Self where C: Component<Mutability: MutWrite<C>> + Serialize + DeserializeOwned { add::<C>(self.a(), RuleFns::default(), ReplicationMode::Once); self }
                fn replicate_diff<C: Diffable>(&mut self) -> &mut Self { add::<C>(self.a(), RuleFns::default(), ReplicationMode::OnChange); self }
                fn replicate_filtered<C, F: FilterRules>(&mut self) -> &mut Self where C: Component<Mutability: MutWrite<C>> + Serialize + DeserializeOwned { self.replicate::<C>() }
                fn replicate_once_filtered<C, F: FilterRules>(&mut self) -> &mut Self where C: Component<Mutability: MutWrite<C>> + Serialize + DeserializeOwned { self.replicate_once::<C>() }
                fn replicate_as<C, T>(&mut self) -> &mut Self { unimplemented!() }
                fn replicate_once_as<C, T>(&mut self) -> &mut Self { unimplemented!() }
                fn replicate_filtered_as<C, T, F: FilterRules>(&mut self) -> &mut Self { unimplemented!() }
                fn replicate_once_filtered_as<C, T, F: FilterRules>(&mut self) -> &mut Self { unimplemented!() }
                fn replicate_with<R: IntoComponentRules>(&mut self, r: R) -> &mut Self { r.add(self.a()); self }
                fn replicate_with_filtered<R: IntoComponentRules, F: FilterRules>(&mut self, r: R) -> &mut Self { r.add(self.a()); self }
                fn replicate_with_priority<R: IntoComponentRules>(&mut self, p: usize, r: R) -> &mut Self { r.add(self.a()); self }
                fn replicate_with_priority_filtered<R: IntoComponentRules, F: FilterRules>(&mut self, p: usize, r: R) -> &mut Self { r.add(self.a()); self }
            }
            impl AppRuleExt for App { fn a(&mut self) -> &mut App { self } }
        }
    }
}
