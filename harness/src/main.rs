mod c_acks;
mod c_bandwidth;
mod c_core;
mod c_hostile;
mod c_io;
mod c_maps;
mod c_messages;
mod c_world;
mod c_netcode;
mod c_p2p;
mod c_protocol;
mod c_raw;
mod c_sync;
mod c_transport;
mod c_wire;
mod fw;
mod sim;
mod util;

#[global_allocator]
static ALLOC: util::Guarded = util::Guarded;

fn main() {
    let mut subs = vec![];
    subs.extend(c_wire::subs());
    subs.extend(c_core::subs());
    subs.extend(c_transport::subs());
    subs.extend(c_bandwidth::subs());
    subs.extend(c_acks::subs());
    subs.extend(c_hostile::subs());
    subs.extend(c_maps::subs());
    subs.extend(c_messages::subs());
    subs.extend(c_world::subs());
    subs.extend(c_netcode::subs());
    subs.extend(c_sync::subs());
    subs.extend(c_p2p::subs());
    subs.extend(c_io::subs());
    subs.extend(c_protocol::subs());
    subs.extend(c_raw::subs());
    let info = serde_json::from_str(include_str!("info.json")).expect("info.json");
    fw::main(subs, &info)
}
