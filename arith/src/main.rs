fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v: Vec<u64> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
    println!("{}", arith::native(&a[1], &v).expect("no such wrapper"));
}
