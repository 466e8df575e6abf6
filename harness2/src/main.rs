#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/util.rs"]
mod util;
mod c_input_net;
mod c_inputs;
mod c_interp;
mod c_predict;

#[global_allocator]
static ALLOC: util::Guarded = util::Guarded;

fn main() {
    let mut subs = vec![];
    subs.extend(c_inputs::subs());
    subs.extend(c_input_net::subs());
    subs.extend(c_predict::subs());
    subs.extend(c_interp::subs());
    let info = serde_json::from_str(include_str!("../../harness/src/info.json")).expect("info.json");
    fw::main(subs, &info)
}
