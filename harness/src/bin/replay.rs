//! Native execution of a harness on concrete inputs.  Reads records from stdin, one per line:
//!   <entry> <params joined by ','> <input hex or '-'> <picks joined by ',' or '-'>
//! and prints one line per record:
//!   <status> obs=<..> reached=<..> detail=<..>
//! with status ok | assume | failed:<id> | panic | underflow.
use harness::native::{Ctx, Stop, CTX};
use std::io::{BufRead, Write};
use std::sync::Mutex;

static MSG: Mutex<String> = Mutex::new(String::new());

fn main() {
    std::panic::set_hook(Box::new(|info| {
        *MSG.lock().unwrap() = info.to_string().replace('\n', " ");
    }));
    let child = std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap();
    child.join().unwrap();
}

fn run() {
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        if f.len() != 4 {
            continue;
        }
        let list = |s: &str| -> Vec<String> {
            if s == "-" {
                Vec::new()
            } else {
                s.split(',').map(|x| x.to_string()).collect()
            }
        };
        let mut input = Vec::new();
        if f[2] != "-" {
            let h = f[2].as_bytes();
            for i in (0..h.len()).step_by(2) {
                input.push(u8::from_str_radix(std::str::from_utf8(&h[i..i + 2]).unwrap(), 16).unwrap());
            }
        }
        CTX.with(|c| {
            *c.borrow_mut() = Ctx {
                input,
                picks: list(f[3]).iter().map(|x| x.parse().unwrap()).collect(),
                params: list(f[1]),
                ..Ctx::default()
            }
        });
        MSG.lock().unwrap().clear();
        let entry = match harness::lookup(f[0]) {
            Some(e) => e,
            None => {
                println!("unknown-entry obs= reached= detail=");
                continue;
            }
        };
        let r = std::panic::catch_unwind(entry);
        CTX.with(|c| {
            let c = c.borrow();
            let status = match r {
                Ok(()) => "ok".to_string(),
                Err(e) if e.is::<Stop>() => {
                    if c.assume_failed {
                        "assume".to_string()
                    } else {
                        format!("failed:{}", c.failed.last().unwrap())
                    }
                }
                Err(_) => "panic".to_string(),
            };
            let j = |v: Vec<String>| v.join(",");
            println!(
                "{}{} obs={} reached={} detail={}",
                status,
                if c.underflow { ":underflow" } else { "" },
                j(c.observed.iter().map(|x| x.to_string()).collect()),
                j(c.reached.iter().map(|x| x.to_string()).collect()),
                MSG.lock().unwrap()
            );
            std::io::stdout().flush().unwrap();
        });
    }
}
