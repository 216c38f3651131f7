//! Arguments: MODE SHARD NSHARDS LEVEL
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| println!("{}", mx::panicked(&i.to_string()))));
    mx::run(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), &|s| println!("{s}"));
}
