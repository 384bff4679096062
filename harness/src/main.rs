//! Executes operations on the library, one JSON object per line of standard
//! input, and writes one JSON object with the observed result per line.
//!
//! It judges nothing: a panic, an error or a value are all just results.
mod codecs;
mod conc;
mod elem;
mod mem;
mod ops;

mod paths;

use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mut ex = ops::Exec::default();
    if args.len() > 2 && args[1] == "script" {
        // run a file of operations; used for processes that may be killed
        let text = std::fs::read_to_string(&args[2]).expect("script");
        let out = std::io::stdout();
        for line in text.lines() {
            let op: serde_json::Value = serde_json::from_str(line).expect("op");
            let r = ex.run(&op);
            let mut o = out.lock();
            writeln!(o, "{}", r).unwrap();
            o.flush().unwrap();
        }
        return;
    }
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.expect("line");
        if line.is_empty() {
            out.flush().unwrap();
            continue;
        }
        let op: serde_json::Value = serde_json::from_str(&line).expect("op");
        let r = ex.run(&op);
        serde_json::to_writer(&mut out, &r).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}
