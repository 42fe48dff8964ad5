//! Runs the command line tool as a black box: a process of its own per case, in a scratch
//! directory that is removed, with limits on processor time, memory and file size.
use crate::exact::P;
use crate::exec;
use crate::mesh::{key, Mesh, K};
use serde_json::Value;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

pub const CPU_SECS: u64 = 40;
static COUNT: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let n = COUNT.fetch_add(1, Ordering::SeqCst);
        let d = std::env::temp_dir().join(format!("vh-cli-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}
/// The tool with these arguments, started in the scratch directory.
pub fn run(dir: &Scratch, args: &[&str], hash_seed: u64) -> Run {
    let exe = std::env::var("VH_CLI").unwrap_or_else(|_| "/verif/harness/target-cli/release/nlsn-delaunay".into());
    let shim = std::env::var("VH_SHIM").unwrap_or_else(|_| "/verif/harness/target/shim.so".into());
    let mut c = Command::new(&exe);
    c.args(args).current_dir(&dir.0).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.env_clear().env("LD_PRELOAD", shim).env("VH_HASH_SEED", hash_seed.to_string());
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &[CPU_SECS, CPU_SECS + 1]); // processor time
            setrlimit(1, &[256 << 20, 256 << 20]); // file size
            setrlimit(4, &[0, 0]); // no core files
            setrlimit(9, &[4 << 30, 4 << 30]); // address space
            Ok(())
        });
    }
    let out = match c.output() {
        Ok(o) => o,
        Err(e) => {
            eprintln!("INCONCLUSIVE: cannot run {exe}: {e}");
            std::process::exit(3);
        }
    };
    if matches!(out.status.signal(), Some(24) | Some(9)) {
        exec::OVER_BUDGETS.fetch_add(1000, Ordering::SeqCst); // no shrinking of cases that hang
    }
    Run {
        code: out.status.code(),
        signal: out.status.signal(),
        stdout: String::from_utf8_lossy(&out.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&out.stderr).into_owned(),
    }
}
impl Run {
    pub fn end(&self) -> String {
        match (self.code, self.signal) {
            (_, Some(24)) | (_, Some(9)) => format!("did not finish within {CPU_SECS} s of processor time"),
            (_, Some(s)) => format!("was ended by signal {s}"),
            (Some(c), _) => {
                let p = self.stderr.lines().find(|l| l.contains("panicked")).unwrap_or("");
                let m = self.stderr.lines().skip_while(|l| !l.contains("panicked")).nth(1).unwrap_or("");
                format!("exited with {c} {p} {m}")
            }
            _ => "ended".into(),
        }
    }
}

pub struct Output {
    pub json: Value,
    pub mesh: Mesh,
}
fn num(v: &Value, k: &str) -> Result<f64, String> {
    v.get(k).and_then(|x| x.as_f64()).ok_or(format!("no number {k} in {v}"))
}
/// reads the tool's output and checks its form
pub fn read_output(text: &str) -> Result<Output, String> {
    let json: Value = serde_json::from_str(text).map_err(|e| format!("the output is not JSON: {e}"))?;
    let list = |k: &str| json.get(k).and_then(|v| v.as_array()).ok_or(format!("the output has no list {k}"));
    let mut mesh = Mesh::default();
    let mut seen: BTreeMap<K, usize> = BTreeMap::new();
    for (i, c) in list("coordinates")?.iter().enumerate() {
        let p: P = (num(c, "x")?, num(c, "y")?);
        if num(c, "z")? != 0.0 {
            return Err(format!("coordinate {i} has z {}", c["z"]));
        }
        if let Some(j) = seen.insert(key(p), i) {
            return Err(format!("coordinates {j} and {i} are the same: {p:?}"));
        }
        mesh.pts.push(p);
    }
    let mut used = vec![false; mesh.pts.len()];
    for t in list("triangles")? {
        let ix = |k: &str| -> Result<usize, String> {
            let i = t.get(k).and_then(|x| x.as_u64()).ok_or(format!("no index {k} in {t}"))? as usize;
            if i >= mesh.pts.len() {
                return Err(format!("index {i} is out of range"));
            }
            Ok(i)
        };
        let t = [ix("v1")?, ix("v2")?, ix("v3")?];
        t.iter().for_each(|i| used[*i] = true);
        mesh.tris.push(t);
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return Err(format!("coordinate {i} {:?} belongs to no triangle", mesh.pts[i]));
    }
    if !list("tetrahedrons")?.is_empty() {
        return Err("a planar triangulation has tetrahedrons".into());
    }
    mesh.tris.sort();
    Ok(Output { json, mesh })
}
