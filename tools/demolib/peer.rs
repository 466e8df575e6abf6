// Two transports joined by hand, for the demonstrations.
#![allow(dead_code)]
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_time::{Real, Time};
use bytes::{Bytes, BytesMut};
use lightyear_connection::prelude::NetworkingMetadata;
use lightyear_core::prelude::LocalTimeline;
use lightyear_link::{Link, LinkMtu, Linked};
use lightyear_transport::plugin::{PacketAcked, PacketLost, TransportPlugin};
use lightyear_transport::prelude::*;
use std::time::Duration;

pub struct ChA;
pub struct ChB;

#[derive(Resource, Default)]
pub struct Acked(pub Vec<u16>);
#[derive(Resource, Default)]
pub struct Lost(pub Vec<u16>);

pub struct Peer {
    pub app: App,
    pub e: Entity,
}

pub fn settings(mode: ChannelMode) -> ChannelSettings {
    ChannelSettings { mode, ..Default::default() }
}
pub fn reliable() -> ReliableSettings {
    ReliableSettings { rtt_resend_factor: 0.0, rtt_resend_min_delay: Duration::from_millis(100) }
}

impl Peer {
    pub fn new(a: ChannelSettings, b: ChannelSettings, mtu: usize, pm: PriorityConfig) -> Self {
        let mut app = App::new();
        app.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
        app.init_resource::<Time<Real>>();
        app.init_resource::<LocalTimeline>();
        app.init_resource::<NetworkingMetadata>();
        app.init_resource::<Acked>();
        app.init_resource::<Lost>();
        app.add_plugins(TransportPlugin);
        app.add_observer(|t: On<PacketAcked>, mut r: ResMut<Acked>| r.0.push(t.packet_id.0));
        app.add_observer(|t: On<PacketLost>, mut r: ResMut<Lost>| r.0.push(t.packet_id.0));
        app.add_channel::<ChA>(a);
        app.add_channel::<ChB>(b);
        app.finish();
        app.cleanup();
        let mut t = Transport::new(pm);
        let reg = app.world().resource::<ChannelRegistry>();
        t.add_sender_from_registry::<ChA>(reg);
        t.add_receiver_from_registry::<ChA>(reg);
        t.add_sender_from_registry::<ChB>(reg);
        t.add_receiver_from_registry::<ChB>(reg);
        let e = app.world_mut().spawn((Link::default().with_mtu(LinkMtu::new(mtu)), Linked, t)).id();
        Peer { app, e }
    }
    pub fn tick(&mut self, ms: u64) {
        self.app.world_mut().resource_mut::<Time<Real>>().advance_by(Duration::from_millis(ms));
    }
    pub fn transport(&mut self) -> Mut<'_, Transport> {
        self.app.world_mut().get_mut::<Transport>(self.e).unwrap()
    }
    /// hands over datagrams and receives
    pub fn recv(&mut self, packets: &[Bytes]) {
        let mut l = self.app.world_mut().get_mut::<Link>(self.e).unwrap();
        for p in packets {
            l.recv.push_raw(BytesMut::from(&p[..]).into());
        }
        self.app.world_mut().run_schedule(PreUpdate);
    }
    /// flushes and takes the datagrams
    pub fn send(&mut self) -> Vec<Bytes> {
        self.app.world_mut().run_schedule(PostUpdate);
        self.app.world_mut().get_mut::<Link>(self.e).unwrap().send.drain().collect()
    }
    pub fn read<C: Channel>(&mut self) -> Vec<Bytes> {
        let mut t = self.transport();
        let mut out = vec![];
        for r in t.channel_receives_mut() {
            if r.channel_kind() == lightyear_transport::channel::registry::ChannelKind::of::<C>() {
                while let Some((_, b, _)) = r.read_message() {
                    out.push(b);
                }
            }
        }
        out
    }
}
