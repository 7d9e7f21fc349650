use std::io::Write;
use vh::checks::Ctx;
use vh::report::Report;

/// vh <check> --seed N --tier quick|thorough --build checked|release --budget SECONDS --out FILE
fn main() {
    vh::progress::init();
    vh::db::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    #[cfg(feature = "full")]
    if a.get(1).map(String::as_str) == Some("encodings") {
        vh::checks::pure::print_encodings();
        return;
    }
    #[cfg(feature = "full")]
    if a.get(1).map(String::as_str) == Some("child") {
        let n = vh::checks::child(&a[2..]);
        let _ = std::io::stdout().flush();
        std::process::exit(n);
    }
    let opt = |n: &str, d: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let id = a.get(1).cloned().unwrap_or_default();
    let cx = Ctx {
        seed: opt("--seed", "1").parse().unwrap_or(1),
        thorough: opt("--tier", "quick") == "thorough",
        build: opt("--build", if cfg!(debug_assertions) { "checked" } else { "release" }),
        budget: opt("--budget", "20").parse().unwrap_or(20),
        threads: opt("--threads", "8").parse().unwrap_or(8),
        arg: a.iter().position(|x| x == "--arg").and_then(|i| a.get(i + 1)).cloned(),
    };
    let rep = Report::default();
    if !vh::checks::run(&id, &cx, &rep) {
        eprintln!("unknown check {id}");
        std::process::exit(3);
    }
    let out = opt("--out", "");
    let j = rep.to_json();
    if out.is_empty() {
        let mut j = j;
        j["distinct"] = serde_json::Value::Null;
        println!("{}", serde_json::to_string_pretty(&j).unwrap());
    } else {
        let mut f = std::fs::File::create(&out).expect("out file");
        f.write_all(serde_json::to_string(&j).unwrap().as_bytes()).unwrap();
    }
    // Servers that are still running must not race with the destructors of RocksDB's globals.
    let _ = std::io::stdout().flush();
    vh::heap::finish()
}
