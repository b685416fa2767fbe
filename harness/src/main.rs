mod checks;
mod ctx;
mod gen;
#[cfg(feature = "v1")]
mod genv1;
mod model;
mod refparse;
mod rng;
mod sup;
mod work;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => sup::supervise(&a[2]),
        Some("worker") => sup::worker(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        Some("probe") => checks::work::probe(&a[2..]),
        Some("replay") => sup::replay(&a[2]),
        Some("list") => {
            for p in checks::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: kdlverif check <ID> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
