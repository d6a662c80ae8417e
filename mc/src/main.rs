//! `mc check <ID>` | `mc replay <file>` | `mc list` | child processes of checks

use mc::checks;
use mc::report::*;
use std::time::Instant;

#[global_allocator]
static A: mc::count::Count = mc::count::Count;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    mc::enc::quiet_panics();
    if mc::jpeg::ZZ != mc::jpeg::zigzag_by_rule() {
        eprintln!("harness: zigzag table");
        std::process::exit(2);
    }
    match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() == 2 => check(&a[1]),
        Some("replay") if a.len() == 2 => replay(&a[1]),
        Some("child18") => checks::c18::child(&a[1..]),
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> | mc replay <file> | mc list");
            std::process::exit(2);
        }
    }
}

fn find(id: &str) -> checks::Check {
    checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2);
    })
}

fn check(id: &str) {
    let c = find(id);
    let t0 = Instant::now();
    mc::par::guard_process();
    if id != "C15" {
        mc::par::limit_memory(24 << 30); // the fence of C15 reserves more
    }
    match mc::enc::caught(c.run) {
        Ok(Ok(ev)) => {
            write_evidence(&ev, t0, 0);
            println!("{}: holds on everything explored ({:.1} s)", id, t0.elapsed().as_secs_f64());
        }
        Ok(Err(v)) => {
            if let Some(d) = known(id, &v.replay) {
                println!("KNOWN-FINDING: property={} {}", id, d);
                // a listed finding ends the run here: nothing else was examined
                eprintln!("harness: a check must step over its known findings itself");
                std::process::exit(2);
            }
            let ev = Ev {
                prop: c.id,
                level: "other",
                coverage: Json::new().str("explanation", &format!("stopped at a violation: {}", v.what)),
                assumptions: vec![],
            };
            write_evidence(&ev, t0, 1);
            print_violation(id, &v);
            std::process::exit(1);
        }
        Err(p) => {
            eprintln!("{}: the harness itself failed: {}", id, p);
            std::process::exit(2);
        }
    }
}

fn replay(path: &str) {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            std::process::exit(2);
        }
    };
    let mut l = t.lines();
    let id = l.next().and_then(|x| x.strip_prefix("property=")).unwrap_or("").to_string();
    let text: Vec<&str> = l.filter(|x| !x.starts_with('#')).collect();
    let c = find(&id);
    match mc::enc::caught(|| (c.replay)(&text.join("\n"))) {
        Ok(Ok(())) => println!("{}: the property holds on this case", id),
        Ok(Err(w)) => {
            println!("{}: {}", id, w);
            println!("VIOLATION property={} replay={}", id, path);
            std::process::exit(1);
        }
        Err(p) => {
            println!("{}: panic: {}", id, p);
            println!("VIOLATION property={} replay={}", id, path);
            std::process::exit(1);
        }
    }
}
