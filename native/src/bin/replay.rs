//! Run one harness natively on concrete values: `replay <harness> <file>`, one value per line as
//! comma separated bytes. Exit 1 if an assertion of the harness or of the library fails.
use harness::nd;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut reg: Vec<(&'static str, fn())> = vec![];
    harness::registry(&mut reg);
    if a.len() < 2 {
        for (n, _) in &reg {
            println!("{}", n.trim_start_matches("harness::"));
        }
        return;
    }
    let f = match reg.iter().find(|(n, _)| n.trim_start_matches("harness::") == a[1]) {
        Some((_, f)) => *f,
        None => {
            println!("no such harness");
            std::process::exit(3)
        }
    };
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let vals = text
        .lines()
        .map(|l| l.split(',').filter(|b| !b.trim().is_empty()).map(|b| b.trim().parse().unwrap()).collect());
    nd::QUEUE.with(|q| q.borrow_mut().extend(vals));
    match std::panic::catch_unwind(f) {
        Ok(()) => println!("no failure with these values"),
        Err(e) if e.downcast_ref::<nd::Assume>().is_some() => println!("not a valid input"),
        Err(_) => std::process::exit(1),
    }
}
