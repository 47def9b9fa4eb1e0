//! Building the dependencies and the generated programs.
use serde_json::Value;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const STABLE: &str = "1.86.0";
pub const NIGHTLY: &str = "nightly-2025-04-15";

#[derive(Clone, Debug)]
pub struct Deps {
    pub toolchain: String,
    pub nightly: bool,
    pub deps_dir: PathBuf,
    pub externs: Vec<(String, PathBuf)>,
    pub cfgs: Vec<String>,
    pub edition: String,
}

pub fn verif() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}
pub fn build_dir() -> PathBuf {
    verif().join(".build")
}

/// An error of the check itself
pub fn die(msg: &str) -> ! {
    eprintln!("ERROR: {msg}");
    println!("ERROR: {}", msg.lines().next().unwrap_or(""));
    std::process::exit(2)
}

pub fn deps(nightly: bool, cfg: Option<&str>) -> Result<Deps, String> {
    let tc = if nightly { NIGHTLY } else { STABLE };
    let dir = verif().join("harness/rt");
    let target = build_dir().join(format!("deps-{}{}", if nightly { "nightly" } else { "stable" }, cfg.unwrap_or("")));
    let mut c = Command::new("cargo");
    c.current_dir(&dir)
        .env("RUSTUP_TOOLCHAIN", tc)
        .env("CARGO_TARGET_DIR", &target)
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_INCREMENTAL", "0")
        .env_remove("RUSTFLAGS")
        .env_remove("RUSTC_WRAPPER")
        .args(["build", "--offline", "--message-format=json", "-q"]);
    if nightly {
        c.args(["--features", "nightly"]);
    }
    if let Some(cfg) = cfg {
        c.env("RUSTFLAGS", format!("--cfg {cfg}"));
    }
    let out = c.output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        let mut msg = String::from_utf8_lossy(&out.stderr).to_string();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            if let Ok(v) = serde_json::from_str::<Value>(l) {
                if v["message"]["level"] == "error" {
                    msg += v["message"]["rendered"].as_str().unwrap_or("");
                }
            }
        }
        return Err(format!("building the dependencies failed: {msg}"));
    }
    let mut externs = vec![];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] != "compiler-artifact" {
            continue;
        }
        let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
        if ["rt", "mockall", "mockall_double", "async_trait", "futures"].contains(&name.as_str()) {
            for f in v["filenames"].as_array().into_iter().flatten() {
                let f = f.as_str().unwrap_or("");
                if f.ends_with(".rlib") || f.ends_with(".so") {
                    externs.push((name.clone(), PathBuf::from(f)));
                }
            }
        }
    }
    Ok(Deps { toolchain: tc.into(), nightly, deps_dir: target.join("debug/deps"), externs, cfgs: cfg.iter().map(|s| s.to_string()).collect(), edition: "2021".into() })
}

#[derive(Clone, Debug)]
pub struct Diag {
    pub level: String,
    pub code: String,
    pub message: String,
    pub rendered: String,
    /// primary span: (file, first line, last line)
    pub span: Option<(String, usize, usize)>,
}

#[derive(Debug)]
pub struct Compiled {
    pub ok: bool,
    pub diags: Vec<Diag>,
    pub raw: String,
    /// killed by a signal or by the time limit
    pub died: Option<String>,
}

pub enum Out<'a> {
    Bin(&'a Path),
    /// type-check only
    Meta(&'a Path),
    /// `-Zunpretty=expanded` to this file
    Expanded(&'a Path),
}

fn outermost(span: &Value) -> (String, usize, usize) {
    // the place in the source where the macro was invoked
    let mut s = span;
    while !s["expansion"].is_null() {
        s = &s["expansion"]["span"];
    }
    (
        s["file_name"].as_str().unwrap_or("").to_string(),
        s["line_start"].as_u64().unwrap_or(0) as usize,
        s["line_end"].as_u64().unwrap_or(0) as usize,
    )
}

pub fn rustc(d: &Deps, src: &Path, out: Out, extra: &[&str], limit: Duration) -> Result<Compiled, String> {
    let mut c = Command::new("rustc");
    c.env("RUSTUP_TOOLCHAIN", &d.toolchain)
        .env_remove("RUSTFLAGS")
        .arg(format!("--edition={}", d.edition))
        .arg("--error-format=json")
        .args(["-C", "debuginfo=0", "-C", "opt-level=0"])
        .arg("-L")
        .arg(format!("dependency={}", d.deps_dir.display()));
    for (n, p) in &d.externs {
        c.arg("--extern").arg(format!("{n}={}", p.display()));
    }
    for cfg in &d.cfgs {
        c.args(["--cfg", cfg]);
    }
    match out {
        Out::Bin(p) => {
            c.args(["--crate-type", "bin", "-o"]).arg(p);
        }
        Out::Meta(p) => {
            c.args(["--crate-type", "bin", "--emit=metadata", "-o"]).arg(p);
        }
        Out::Expanded(p) => {
            c.env("RUSTC_BOOTSTRAP", "1");
            c.args(["--crate-type", "bin", "-Zunpretty=expanded", "-o"]).arg(p);
        }
    }
    c.args(extra).arg(src).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    let mut ch = c.spawn().map_err(|e| format!("rustc: {e}"))?;
    let mut err = ch.stderr.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut err, &mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    let mut died = None;
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return Err(e.to_string()),
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            died = Some("time limit".to_string());
            break ch.wait().map_err(|e| e.to_string())?;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let raw = rd.join().unwrap_or_default();
    #[cfg(unix)]
    {
        use std::os::unix::process::ExitStatusExt;
        if died.is_none() {
            if let Some(s) = status.signal() {
                died = Some(format!("signal {s}"));
            }
        }
    }
    if died.is_none() && raw.contains("internal compiler error") {
        died = Some("internal compiler error".into());
    }
    let mut diags = vec![];
    for l in raw.lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        let level = v["level"].as_str().unwrap_or("").to_string();
        if level != "error" && level != "warning" {
            continue;
        }
        let message = v["message"].as_str().unwrap_or("").to_string();
        if message.starts_with("aborting due to") || message.ends_with("warnings emitted") || message.ends_with("warning emitted") {
            continue;
        }
        let span = v["spans"].as_array().and_then(|a| a.iter().find(|s| s["is_primary"] == true)).map(outermost);
        diags.push(Diag {
            level,
            code: v["code"]["code"].as_str().unwrap_or("").to_string(),
            message,
            rendered: v["rendered"].as_str().unwrap_or("").to_string(),
            span,
        });
    }
    Ok(Compiled { ok: status.success(), diags, raw, died })
}

/// Run jobs on up to `n` threads, results in order
pub fn parallel<T: Send, R: Send>(items: Vec<T>, n: usize, f: impl Fn(T) -> R + Sync) -> Vec<R> {
    let len = items.len();
    let q = std::sync::Mutex::new(items.into_iter().enumerate().collect::<std::collections::VecDeque<_>>());
    let out = std::sync::Mutex::new((0..len).map(|_| None).collect::<Vec<Option<R>>>());
    std::thread::scope(|s| {
        for _ in 0..n.min(len).max(1) {
            s.spawn(|| loop {
                let Some((i, t)) = q.lock().unwrap().pop_front() else { return };
                let r = f(t);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}
