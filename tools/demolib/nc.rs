// A netcode server and clients in two apps, their datagrams carried by hand.
#![allow(dead_code)]
use aeronet_io::connection::LocalAddr;
use bevy_app::prelude::*;
use bevy_app::{TaskPoolOptions, TaskPoolPlugin};
use bevy_ecs::prelude::*;
use bevy_time::{Real, Time};
use bytes::{Bytes, BytesMut};
use lightyear_connection::client::Connect;
use lightyear_connection::server::Start;
use lightyear_link::prelude::*;
use lightyear_link::LinkPlugin;
use lightyear_link::server::ServerLinkPlugin;
use lightyear_link::Link;
use lightyear_netcode::auth::Authentication;
use lightyear_netcode::client_plugin::{NetcodeClient, NetcodeClientPlugin, NetcodeConfig as ClientConfig};
use lightyear_netcode::server_plugin::{NetcodeConfig as ServerConfig, NetcodeServerPlugin};
use lightyear_netcode::{ConnectToken, NetcodeServer};
use std::time::Duration;

pub const PROTOCOL: u64 = 77;
pub const KEY: [u8; 32] = [7; 32];

pub struct Net {
    pub s: App,
    pub c: App,
    pub server: Entity,
    /// client entity and its link on the server
    pub cli: Vec<(Entity, Entity)>,
    pub up: bool,
    pub down: bool,
    pub to_client: Vec<Vec<Bytes>>,
}

fn app() -> App {
    let mut a = App::new();
    a.add_plugins(TaskPoolPlugin { task_pool_options: TaskPoolOptions::with_num_threads(1) });
    a.insert_resource(Time::<Real>::default());
    a
}

impl Net {
    pub fn new(local: &str, max_clients: usize) -> Self {
        let mut s = app();
        s.add_plugins((lightyear_connection::ConnectionPlugin, ServerLinkPlugin, NetcodeServerPlugin));
        s.finish();
        let cfg = ServerConfig { max_clients, protocol_id: PROTOCOL, private_key: KEY, ..Default::default() };
        let server = s.world_mut().spawn((NetcodeServer::new(cfg), LocalAddr(local.parse().unwrap()))).id();
        s.world_mut().trigger(Start { entity: server });
        s.world_mut().entity_mut(server).insert(Linked);
        s.world_mut().flush();
        let mut c = app();
        c.add_plugins((lightyear_connection::ConnectionPlugin, LinkPlugin, NetcodeClientPlugin));
        c.finish();
        Net { s, c, server, cli: vec![], up: true, down: true, to_client: vec![] }
    }

    pub fn client(&mut self, id: u64, server_addr: &str, timeout: i32) -> usize {
        let addr: std::net::SocketAddr = server_addr.parse().unwrap();
        let token = ConnectToken::build(addr, PROTOCOL, id, KEY).timeout_seconds(timeout).expire_seconds(30).generate().unwrap();
        let n = NetcodeClient::new(Authentication::Token(token), ClientConfig::default()).unwrap();
        let c = self.c.world_mut().spawn((n, Linked)).id();
        self.c.world_mut().flush();
        let server = self.server;
        let l = self.s.world_mut().spawn((LinkOf { server }, Link::default(), Linked)).id();
        self.s.world_mut().flush();
        self.cli.push((c, l));
        self.to_client.push(vec![]);
        self.connect(self.cli.len() - 1);
        self.cli.len() - 1
    }

    pub fn connect(&mut self, i: usize) {
        let entity = self.cli[i].0;
        self.c.world_mut().trigger(Connect { entity });
        self.c.world_mut().flush();
    }

    /// One frame of both apps, the client first.
    pub fn frame(&mut self, ms: u64) {
        for a in [&mut self.c, &mut self.s] {
            a.world_mut().resource_mut::<Time<Real>>().update_with_duration(Duration::from_millis(ms));
        }
        self.c.update();
        for &(c, l) in &self.cli {
            let Some(mut a) = self.c.world_mut().get_mut::<Link>(c) else { continue };
            let d: Vec<Bytes> = a.send.drain().collect();
            if let Some(mut b) = self.s.world_mut().get_mut::<Link>(l).filter(|_| self.up) {
                for x in d {
                    b.recv.push_raw(BytesMut::from(&x[..]));
                }
            }
        }
        self.s.update();
        for (i, &(c, l)) in self.cli.iter().enumerate() {
            let Some(mut a) = self.s.world_mut().get_mut::<Link>(l) else { continue };
            let d: Vec<Bytes> = a.send.drain().collect();
            self.to_client[i].extend(d.iter().cloned());
            if let Some(mut b) = self.c.world_mut().get_mut::<Link>(c).filter(|_| self.down) {
                for x in d {
                    b.recv.push_raw(BytesMut::from(&x[..]));
                }
            }
        }
    }

    pub fn on_client<T: Component>(&self, i: usize) -> bool {
        self.c.world().get::<T>(self.cli[i].0).is_some()
    }
    pub fn on_server<T: Component>(&self, i: usize) -> bool {
        self.s.world().get::<T>(self.cli[i].1).is_some()
    }
}
