pub mod diag;
pub mod env;
pub mod model;
pub mod run;
pub mod spec;
pub mod val;

pub use env::{not_send, Env};
pub use futures;
pub use async_trait;
pub use val::*;

use std::io::{BufRead, Write};

/// Runner protocol, one line each way:
/// `R <unit+unit..> <flags> <row;row;...>` (flags: 1 judge messages, 2 give
/// the trace; rows of hex words separated by commas)
/// answers `ok <steps> class=n ...` or `FAIL <message>\x1f<trace>` with
/// newlines escaped
pub fn serve(units: Vec<run::Unit>) {
    run::install_hook();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let mut it = line.splitn(4, ' ');
        match it.next() {
            Some("N") => {
                let s: Vec<String> = units.iter().map(|u| format!("{}:{}", u.meta.name, u.meta.slots.len())).collect();
                println!("{}", s.join(" "));
                continue;
            }
            Some("R") => {}
            _ => continue,
        }
        let which: Vec<usize> = it.next().unwrap().split('+').map(|x| x.parse().unwrap()).collect();
        let flags: u32 = it.next().unwrap().parse().unwrap();
        let raw = parse_raw(it.next().unwrap_or(""));
        let merged;
        let unit = if which.len() == 1 {
            &units[which[0]]
        } else {
            merged = run::merge(&which.iter().map(|i| &units[*i]).collect::<Vec<_>>());
            &merged
        };
        let rep = run::run_history(unit, &raw, &run::Config { diag: flags & 1 == 1 });
        let mut out = stdout.lock();
        match rep.failure {
            None => {
                let cl: Vec<String> = rep.classes.iter().map(|(k, v)| format!("{k}={v}")).collect();
                let tr = if flags & 2 == 2 { format!("\u{1f}{}", rep.trace) } else { String::new() };
                writeln!(out, "ok {} {}{}", rep.steps, cl.join(" "), tr.replace('\\', "\\\\").replace('\n', "\\n")).unwrap();
            }
            Some(f) => {
                let s = format!("FAIL {}\u{1f}{}", f, rep.trace).replace('\\', "\\\\").replace('\n', "\\n");
                writeln!(out, "{s}").unwrap();
            }
        }
        out.flush().unwrap();
    }
}

pub fn parse_raw(s: &str) -> Vec<Vec<u16>> {
    let mut v: Vec<Vec<u16>> = s
        .split(';')
        .map(|r| r.split(',').filter(|x| !x.is_empty()).map(|x| u16::from_str_radix(x.trim(), 16).unwrap_or(0)).collect())
        .collect();
    if v.is_empty() {
        v.push(vec![]);
    }
    v
}
