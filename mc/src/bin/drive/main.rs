mod c10;
mod c11;
mod c14;
mod c15;
mod pipeline;
mod pool;
mod wire;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("MC_PANICS").is_err() {
        std::panic::set_hook(Box::new(|i| {
            // harness panics (outside catch_unwind of generate) still end the process with 101
            if std::thread::current().name() == Some("main") {
                eprintln!("{}", i);
            }
        }));
    }
    if a[1] == "worker" {
        pool::worker(&a[2..]);
    }
    let tier = a.get(2).map(|s| s.as_str()).unwrap_or("quick");
    let r = match a[1].as_str() {
        p @ ("C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C08" | "C09") => wire::check(p, tier),
        "C07" => wire::c07(tier),
        "C10" => c10::check(tier),
        "C11" => c11::check(tier),
        "C14" => c14::check(tier),
        "C15" => c15::check(tier),
        "hashes" => c11::hashes(&a[2]),
        "stats" => {
            for p in ["C01", "C03", "C04", "C05", "C06", "C08", "C09"] {
                let s = mcrt::universe::set(p, tier);
                let n: usize = s.iter().map(|x| x.items.len()).sum();
                println!("{} specs={} items={}", p, s.len(), n);
            }
            return;
        }
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let mut h = std::collections::BTreeMap::new();
            for l in t.lines() {
                if l.is_empty() {
                    break;
                }
                if let Some((k, v)) = l.split_once(": ") {
                    h.insert(k.to_string(), v.to_string());
                }
            }
            println!("{}", t);
            println!("---- replay ----");
            std::process::exit(match h.get("mode").map(|s| s.as_str()) {
                Some("wire" | "deep") => wire::replay_wire(&h),
                _ => 0,
            });
        }
        x => {
            eprintln!("unknown check {}", x);
            std::process::exit(2);
        }
    };
    std::process::exit(r.finish());
}
