//! Which hooks do the contracts understand? One line per hook, see harness/src/maps.rs
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for (n, ok) in harness::maps::all() {
        println!("{} {}", n, match ok { Some(true) => "ok", Some(false) => "off", None => "unknown" });
    }
}
