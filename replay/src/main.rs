//! Replays concrete cases against the real crates in /repo.
//! stdin: one case per line, tab-separated: op, then hex-encoded (strings) or decimal (numbers) arguments.
//! stdout: one line per case: "ok\t..." | "err" | "panic\t<message>".
use std::io::{BufRead, Write};
use std::panic;
mod types;
mod gen;

pub fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).expect("utf8 argument")
}
pub fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() { continue; }
        let a: Vec<String> = line.split('\t').map(|x| x.to_string()).collect();
        let r = panic::catch_unwind(|| {
            let r: Vec<&str> = a[1..].iter().map(|x| x.as_str()).collect();
            types::run(&a[0], &r).or_else(|| gen::run(&a[0], &r))
        });
        let s = match r {
            Ok(Some(Some(s))) => format!("ok\t{}", s),
            Ok(Some(None)) => "err".to_string(),
            Ok(None) => "unknown".to_string(),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                format!("panic\t{}", hex(&m))
            }
        };
        let mut o = out.lock();
        writeln!(o, "{}", s).unwrap();
        o.flush().unwrap();
    }
}
