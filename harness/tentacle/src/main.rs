//! Executes the real tentacle crate against independent reference models.
mod addr;
mod base;
#[cfg(any(feature = "hv", feature = "pi"))]
mod chan;
#[cfg(feature = "flat")]
mod flat;
#[cfg(not(feature = "flat"))]
mod mol;
mod net;
#[cfg(feature = "hv")]
mod sel;
#[cfg(feature = "hv")]
mod sub;
#[cfg(feature = "hs")]
mod svc;
mod util;
mod wire;
// without the hook the sources are taken in as they are
#[cfg(all(feature = "pi", not(feature = "hv")))]
#[allow(dead_code, unused_imports)]
#[path = "/repo/tentacle/src/buffer.rs"]
mod buffer;
#[cfg(all(feature = "pi", not(feature = "hv")))]
#[allow(dead_code, unused_imports)]
#[path = "/repo/tentacle/src/channel/mod.rs"]
mod channel;
use hx::{Case, Res};

fn fixed(p: &str) -> u64 {
    match p {
        "C22" => 2,
        "C23" => 24,
        "C26" => 64,
        "C27" => 8,
        "C31" => 16,
        _ => 0,
    }
}
fn runner(p: &str, c: &mut Case) -> Res {
    match p {
        #[cfg(feature = "hv")]
        "C19" if c.rng.chance(199, 200) => sel::run(c),
        "C19" => net::select(c),
        #[cfg(any(feature = "hv", feature = "pi"))]
        "C20" if c.rng.chance(399, 400) => chan::buffers(c),
        #[cfg(any(feature = "hv", feature = "pi"))]
        "C21" => chan::channel(c),
        "C20" if c.rng.chance(1, 2) => net::handles(c),
        "C20" => net::flood(c),
        #[cfg(not(any(feature = "hv", feature = "pi")))]
        "C21" => net::messages(c),
        "C22" if c.rng.0 < 2 || c.rng.chance(1, 200) => net::urgent(c),
        #[cfg(feature = "hv")]
        "C22" if c.rng.chance(39, 40) => sub::sending(c),
        "C22" => net::messages(c),
        #[cfg(feature = "hv")]
        "C23" => sub::leftover(c),
        #[cfg(not(feature = "hv"))]
        "C23" => net::leftover(c),
        #[cfg(feature = "hs")]
        "C24" if c.rng.chance(199, 200) => svc::sessions(c),
        "C24" => net::sessions(c),
        #[cfg(feature = "hs")]
        "C25" if c.rng.chance(99, 100) => svc::messages(c),
        "C25" => net::targets(c),
        "C26" => addr::run(c),
        #[cfg(feature = "hs")]
        "C27" if c.rng.0 < 8 || c.rng.chance(199, 200) => svc::attempts(c),
        "C27" => net::attempts(c),
        "C31" => net::deadlines(c),
        "C33" => net::websocket(c),
        "C34" => net::accepting(c),
        _ => Err(format!("{} cannot be executed in this build", p)),
    }
}
fn main() {
    hx::main(runner, fixed)
}
