//! The process that executes histories.
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

pub struct Runner {
    bin: PathBuf,
    ch: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    err: std::sync::Arc<std::sync::Mutex<String>>,
}

#[derive(Clone, Debug)]
pub enum Ans {
    Ok { steps: u64, classes: Vec<(String, u64)>, trace: String },
    Fail { msg: String, trace: String },
    /// the process ended
    Died(String),
    /// no answer; all threads were asleep on a lock
    Deadlock,
    /// no answer, otherwise
    Hang,
}
impl Ans {
    pub fn bad(&self) -> bool {
        matches!(self, Ans::Fail { .. } | Ans::Died(_) | Ans::Deadlock)
    }
    pub fn text(&self) -> String {
        match self {
            Ans::Ok { .. } => "ok".into(),
            Ans::Fail { msg, .. } => msg.clone(),
            Ans::Died(s) => format!("the process was ended: {s}"),
            Ans::Deadlock => "deadlock: every thread waits on a lock, without end".into(),
            Ans::Hang => "no answer".into(),
        }
    }
    pub fn trace(&self) -> String {
        match self {
            Ans::Ok { trace, .. } | Ans::Fail { trace, .. } => trace.clone(),
            _ => String::new(),
        }
    }
}

fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c)
        }
    }
    out
}

pub const LIMIT: Duration = Duration::from_secs(30);

impl Runner {
    pub fn new(bin: &Path) -> Result<Runner, String> {
        let mut ch = Command::new(bin)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| format!("{}: {e}", bin.display()))?;
        let stdin = ch.stdin.take().unwrap();
        let out = ch.stdout.take().unwrap();
        let mut errp = ch.stderr.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { return };
                if tx.send(l).is_err() {
                    return;
                }
            }
        });
        let err = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
        let e2 = err.clone();
        std::thread::spawn(move || {
            let mut b = [0u8; 4096];
            while let Ok(n) = std::io::Read::read(&mut errp, &mut b) {
                if n == 0 {
                    return;
                }
                let mut s = e2.lock().unwrap();
                if s.len() < 20000 {
                    s.push_str(&String::from_utf8_lossy(&b[..n]));
                }
            }
        });
        Ok(Runner { bin: bin.into(), ch, stdin, rx, err })
    }
    pub fn restart(&mut self) -> Result<(), String> {
        let n = Runner::new(&self.bin.clone())?;
        let mut old = std::mem::replace(self, n);
        let _ = old.ch.kill();
        let _ = old.ch.wait();
        Ok(())
    }
    /// One request, one answer.  After anything but Ok and Fail the process
    /// is gone.
    pub fn ask(&mut self, line: &str) -> Ans {
        if writeln!(self.stdin, "{line}").and_then(|_| self.stdin.flush()).is_err() {
            return self.died();
        }
        match self.rx.recv_timeout(LIMIT) {
            Ok(l) => {
                if let Some(r) = l.strip_prefix("ok ") {
                    let r = unesc(r);
                    let (head, trace) = r.split_once('\u{1f}').unwrap_or((&r, ""));
                    let mut it = head.split_whitespace();
                    let steps = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                    let classes = it
                        .filter_map(|x| x.split_once('=').map(|(k, v)| (k.to_string(), v.parse().unwrap_or(0))))
                        .collect();
                    Ans::Ok { steps, classes, trace: trace.into() }
                } else if let Some(r) = l.strip_prefix("FAIL ") {
                    let r = unesc(r);
                    let (msg, trace) = r.split_once('\u{1f}').unwrap_or((&r, ""));
                    Ans::Fail { msg: msg.into(), trace: trace.into() }
                } else {
                    Ans::Died(format!("unexpected output {l:?}"))
                }
            }
            Err(RecvTimeoutError::Disconnected) => self.died(),
            Err(RecvTimeoutError::Timeout) => {
                let dead = self.asleep();
                let _ = self.ch.kill();
                let _ = self.ch.wait();
                if dead {
                    Ans::Deadlock
                } else {
                    Ans::Hang
                }
            }
        }
    }
    fn died(&mut self) -> Ans {
        let st = self.ch.wait().map(|s| s.to_string()).unwrap_or_default();
        std::thread::sleep(Duration::from_millis(20));
        let e = self.err.lock().unwrap().clone();
        let tail: String = e.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
        Ans::Died(format!("{st} {tail}"))
    }
    /// Are all threads asleep without using any processor time?  (stdin is
    /// only read between requests, so a sleeping process waits for a lock.)
    fn asleep(&self) -> bool {
        let look = || -> Option<(u64, bool)> {
            let mut cpu = 0;
            let mut sleeping = true;
            for t in std::fs::read_dir(format!("/proc/{}/task", self.ch.id())).ok()? {
                let s = std::fs::read_to_string(t.ok()?.path().join("stat")).ok()?;
                let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
                sleeping &= f[0] == "S";
                cpu += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
            }
            Some((cpu, sleeping))
        };
        let a = look();
        for _ in 0..5 {
            std::thread::sleep(Duration::from_millis(300));
            let b = look();
            if b != a || !b.map_or(false, |b| b.1) {
                return false;
            }
        }
        a.is_some()
    }
}
impl Drop for Runner {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
