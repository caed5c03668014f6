//! Builds packages of generated programs against /repo and talks to the resulting servers.
use crate::emit::PRELUDE;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const BINS: usize = 8;
const LOCK: &str = include_str!("../rt/gen.lock");

#[derive(Clone)]
pub struct Work {
    pub dir: PathBuf,
    pub repo: PathBuf,
}
#[derive(Debug)]
pub enum Infra {
    Msg(String),
}
pub type Res<T> = Result<T, Infra>;
pub fn infra<T>(s: impl Into<String>) -> Res<T> {
    Err(Infra::Msg(s.into()))
}

pub fn repo() -> PathBuf {
    std::env::var("NDV_REPO").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/repo"))
}
impl Work {
    pub fn new() -> Work {
        let dir = std::env::var("NDV_WORK").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif/work"));
        let repo = std::env::var("NDV_REPO").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/repo"));
        Work { dir, repo }
    }
}

pub struct Built {
    pub bins: Vec<PathBuf>,
    /// server of each program (None: does not compile)
    pub place: Vec<Option<usize>>,
    pub errors: BTreeMap<usize, String>,
    pub noalloc: bool,
}

fn write_if_changed(p: &Path, s: &str) {
    if std::fs::read_to_string(p).map_or(true, |o| o != s) {
        std::fs::write(p, s).unwrap_or_else(|e| panic!("write {}: {}", p.display(), e));
    }
}

fn manifest(w: &Work, name: &str, noalloc: bool, bins: &[String], srcs: &[String]) -> String {
    let mut m = format!(
        "[package]\nname = \"{}\"\nversion = \"0.0.0\"\nedition = \"2021\"\nautobins = false\n\n[dependencies]\nnom = {{ version = \"8\"{} }}\nnom-derive = {{ path = \"{}\"{} }}\n\n[workspace]\n\n[profile.dev]\ndebug = 0\nincremental = false\n",
        name,
        if noalloc { ", default-features = false" } else { "" },
        w.repo.display(),
        if noalloc { ", default-features = false" } else { "" }
    );
    let nb = BINS.min(srcs.len()).max(1);
    for (k, b) in bins.iter().enumerate() {
        let ed = srcs.iter().skip(k).step_by(nb).find_map(|s| s.strip_prefix("// edition ")).map_or("2021", |s| &s[..4]);
        m.push_str(&format!("\n[[bin]]\nname = \"{}\"\npath = \"src/{}.rs\"\nedition = \"{}\"\n", b, b, ed));
    }
    m
}

pub fn cargo(w: &Work, pkg: &Path, cmd: &[&str], noalloc: bool) -> Res<(bool, Vec<serde_json::Value>, String)> {
    let target = w.dir.join(if noalloc { "target-noalloc" } else { "target" });
    let out = pkg.join("cargo.out");
    let err = pkg.join("cargo.err");
    let mut c = Command::new("cargo");
    c.args(cmd)
        .args(["--offline", "--keep-going", "--message-format=json"])
        .current_dir(pkg)
        .env("CARGO_TARGET_DIR", &target)
        .env("CARGO_NET_OFFLINE", "true")
        .env("RUSTUP_TOOLCHAIN", "1.88.0-x86_64-unknown-linux-gnu")
        .env("RUSTFLAGS", if noalloc { "--cfg ndv_noalloc" } else { "" })
        .env_remove("CARGO_ENCODED_RUSTFLAGS")
        .env_remove("RUSTC_WRAPPER")
        .env_remove("CARGO_BUILD_TARGET")
        .env("CARGO_TERM_COLOR", "never")
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&out).unwrap())
        .stderr(std::fs::File::create(&err).unwrap());
    let mut ch = c.spawn().map_err(|e| Infra::Msg(format!("cargo: {}", e)))?;
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t0.elapsed() > Duration::from_secs(500) => {
                let _ = ch.kill();
                return infra("cargo build takes more than 500 s");
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(20)),
            Err(e) => return infra(format!("cargo: {}", e)),
        }
    };
    let txt = std::fs::read_to_string(&out).unwrap_or_default();
    let msgs = txt.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    Ok((st.success(), msgs, std::fs::read_to_string(&err).unwrap_or_default()))
}

/// module numbers (pN.rs) a diagnostic points to
pub fn mods_of(v: &serde_json::Value, out: &mut Vec<usize>) {
    match v {
        serde_json::Value::Object(m) => {
            for (k, x) in m {
                if k == "file_name" {
                    if let Some(s) = x.as_str() {
                        let f = s.rsplit('/').next().unwrap_or("");
                        if let Some(n) = f.strip_prefix('p').and_then(|f| f.strip_suffix(".rs")).and_then(|n| n.parse().ok()) {
                            out.push(n);
                        }
                    }
                } else {
                    mods_of(x, out);
                }
            }
        }
        serde_json::Value::Array(a) => a.iter().for_each(|x| mods_of(x, out)),
        _ => {}
    }
}
pub fn error_of(m: &serde_json::Value) -> Option<(String, Vec<usize>)> {
    if m["reason"] != "compiler-message" || m["message"]["level"] != "error" {
        return None;
    }
    let mut mods = vec![];
    mods_of(&m["message"]["spans"], &mut mods);
    if mods.is_empty() {
        mods_of(&m["message"]["children"], &mut mods);
    }
    let txt = m["message"]["rendered"].as_str().or(m["message"]["message"].as_str()).unwrap_or("").to_string();
    Some((txt, mods))
}

/// write the package, without building it; returns the directory
fn lay_out(w: &Work, name: &str, noalloc: bool, srcs: &[String]) -> PathBuf {
    let pkg = w.dir.join("pkg").join(name);
    let src = pkg.join("src");
    let _ = std::fs::create_dir_all(&src);
    write_if_changed(&pkg.join("Cargo.lock"), &LOCK.replace("NDV_PKG", name));
    write_if_changed(&src.join("rt.rs"), PRELUDE);
    for (k, s) in srcs.iter().enumerate() {
        write_if_changed(&src.join(format!("p{}.rs", k)), s);
    }
    let bins: Vec<String> = (0..BINS).map(|k| format!("{}_{}", name, k)).collect();
    write_if_changed(&pkg.join("Cargo.toml"), &manifest(w, name, noalloc, &bins, srcs));
    pkg
}

/// compile programs (module sources with a `runK` function); programs that do not compile are reported
pub fn build(w: &Work, name: &str, noalloc: bool, srcs: &[String]) -> Res<Built> {
    let pkg = lay_out(w, name, noalloc, srcs);
    let mut alive: Vec<bool> = vec![true; srcs.len()];
    let mut errors: BTreeMap<usize, String> = BTreeMap::new();
    let nb = BINS.min(srcs.len()).max(1);
    for round in 0..12 {
        for b in 0..BINS {
            let mut s = String::from("#![allow(warnings)]\n#[macro_use] mod rt;\npub use rt::prelude;\n");
            let mine: Vec<usize> = (0..srcs.len()).filter(|k| k % nb == b && alive[*k]).collect();
            for k in &mine {
                s.push_str(&format!("mod p{};\n", k));
            }
            s.push_str("fn run(prog: usize, d: usize, inst: usize, ep: u8, err: u8, a: &[i128], i: &[u8]) -> String { match prog {\n");
            for k in &mine {
                s.push_str(&format!("{} => p{}::run{}(d, inst, ep, err, a, i),\n", k, k, k));
            }
            s.push_str("_ => \"BAD\".into() } }\nfn main() { rt::serve(run) }\n");
            write_if_changed(&pkg.join("src").join(format!("{}_{}.rs", name, b)), &s);
        }
        let (ok, msgs, stderr) = cargo(w, &pkg, &["build"], noalloc)?;
        if ok {
            let target = w.dir.join(if noalloc { "target-noalloc" } else { "target" });
            return Ok(Built {
                bins: (0..BINS).map(|b| target.join("debug").join(format!("{}_{}", name, b))).collect(),
                place: (0..srcs.len()).map(|k| alive[k].then_some(k % nb)).collect(),
                errors,
                noalloc,
            });
        }
        let mut found = false;
        let mut lost = String::new();
        for m in &msgs {
            if let Some((txt, mods)) = error_of(m) {
                if txt.starts_with("error: aborting due to") || txt.starts_with("Some errors have detailed") {
                    continue;
                }
                let tgt = m["target"]["name"].as_str().unwrap_or("");
                if !tgt.starts_with(name) {
                    return infra(format!("{} does not compile:\n{}", tgt, txt));
                }
                if mods.is_empty() {
                    lost.push_str(&txt);
                }
                for n in mods {
                    if n < srcs.len() && alive[n] {
                        alive[n] = false;
                        found = true;
                    }
                    let e = errors.entry(n).or_default();
                    if e.len() < 4000 {
                        e.push_str(&txt);
                    }
                }
            }
        }
        if !found {
            return infra(format!("build of {} fails (round {}):\n{}\n{}", name, round, lost, stderr));
        }
    }
    if errors.is_empty() {
        return infra("too many build rounds");
    }
    // too many declarations are broken to find a part that compiles: report those known
    Ok(Built { bins: vec![PathBuf::new(); BINS], place: vec![None; srcs.len()], errors, noalloc })
}

/// `cargo check` of modules that are not runnable; returns per module the errors
pub fn check_only(w: &Work, name: &str, srcs: &[String]) -> Res<BTreeMap<usize, String>> {
    let pkg = lay_out(w, name, false, srcs);
    let mut alive: Vec<bool> = vec![true; srcs.len()];
    let mut errors: BTreeMap<usize, String> = BTreeMap::new();
    let nb = BINS;
    for round in 0..40 {
        for b in 0..nb {
            let mut s = String::from("#![allow(warnings)]\n#[macro_use] mod rt;\npub use rt::prelude;\n");
            for k in (0..srcs.len()).filter(|k| k % nb == b && alive[*k]) {
                s.push_str(&format!("mod p{};\n", k));
            }
            s.push_str("fn main() {}\n");
            write_if_changed(&pkg.join("src").join(format!("{}_{}.rs", name, b)), &s);
        }
        let (ok, msgs, stderr) = cargo(w, &pkg, &["check"], false)?;
        if ok {
            return Ok(errors);
        }
        let mut found = false;
        let mut lost = String::new();
        for m in &msgs {
            if let Some((txt, mods)) = error_of(m) {
                if txt.starts_with("error: aborting due to") {
                    continue;
                }
                let tgt = m["target"]["name"].as_str().unwrap_or("");
                if !tgt.starts_with(name) {
                    return infra(format!("{} does not compile:\n{}", tgt, txt));
                }
                if mods.is_empty() {
                    lost.push_str(&txt);
                }
                for n in mods {
                    if n < srcs.len() && alive[n] {
                        alive[n] = false;
                        found = true;
                    }
                    let e = errors.entry(n).or_default();
                    if e.len() < 4000 {
                        e.push_str(&txt);
                    }
                }
            }
        }
        if !found {
            return infra(format!("check of {} fails (round {}):\n{}\n{}", name, round, lost, stderr));
        }
    }
    infra("too many check rounds")
}

/// seconds after which a request counts as one that does not return; they take microseconds
const HANG_S: u64 = 40;
/// answer to requests that were not made because an earlier one did not return
pub const SKIP: &str = "~\t";
/// requests that did not return
pub static HANGS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// one running server
pub struct Server {
    bin: PathBuf,
    ch: Option<(Child, std::process::ChildStdin, std::sync::mpsc::Receiver<String>)>,
}
impl Server {
    pub fn new(bin: &Path) -> Server {
        Server { bin: bin.to_path_buf(), ch: None }
    }
    fn start(&mut self) -> Res<()> {
        if self.ch.is_some() {
            return Ok(());
        }
        // bounds of one server; a request that does not return is seen by the reader
        let mut c = Command::new("sh")
            .arg("-c")
            .arg("ulimit -t 400; ulimit -v 3500000; ulimit -c 0; exec \"$0\"")
            .arg(&self.bin)
            .stdin(Stdio::piped())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| Infra::Msg(format!("server: {}", e)))?;
        let si = c.stdin.take().unwrap();
        let so = c.stderr.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::with_capacity(1 << 16, so).split(b'\n') {
                match l {
                    Ok(l) => {
                        if tx.send(String::from_utf8_lossy(&l).into_owned()).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.ch = Some((c, si, rx));
        Ok(())
    }
    pub fn stop(&mut self) {
        if let Some((mut c, si, rx)) = self.ch.take() {
            drop(si);
            drop(rx);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// run requests in order; the answer of a request that kills the server starts with "X"
    pub fn run(&mut self, reqs: &[String]) -> Res<Vec<String>> {
        let mut out = Vec::with_capacity(reqs.len());
        const CHUNK: usize = 64;
        while out.len() < reqs.len() {
            self.start()?;
            let k = out.len();
            let part = &reqs[k..(k + CHUNK).min(reqs.len())];
            let (_, si, rx) = self.ch.as_mut().unwrap();
            let mut buf = String::new();
            for r in part {
                buf.push_str(r);
                buf.push('\n');
            }
            // requests are small: a chunk fits the pipe or the server reads meanwhile; a dead server is seen below
            let _ = si.write_all(buf.as_bytes()).and_then(|_| si.flush());
            let mut n = 0;
            let mut bad: Option<String> = None;
            while n < part.len() {
                match rx.recv_timeout(Duration::from_secs(HANG_S)) {
                    Ok(l) => {
                        if !l.contains('\t') {
                            // message of the runtime (abort, overflow)
                            bad = Some(l);
                            continue;
                        }
                        out.push(l);
                        n += 1;
                    }
                    Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                        self.stop();
                        HANGS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        out.push(format!("X no answer within {} s\t", HANG_S));
                        // one is enough: the others are not asked
                        while out.len() < reqs.len() {
                            out.push(SKIP.into());
                        }
                        return Ok(out);
                    }
                    Err(_) => {
                        let (mut c, _, _) = self.ch.take().unwrap();
                        let st = c.wait().map(|s| format!("{}", s)).unwrap_or_default();
                        let b = bad.clone().unwrap_or_default();
                        if st.contains("signal: 9") {
                            return infra(format!("killed ({}) on {}", st, part[n]));
                        }
                        out.push(format!("X {} {}\t", st, b));
                        break;
                    }
                }
            }
        }
        Ok(out)
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop();
    }
}
