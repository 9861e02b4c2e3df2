//! Shared by the checks whose inputs are programs: every case is a generated
//! program that the compiler has to accept or to refuse.
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// The library that cargo has just built for this very program.
pub fn library() -> PathBuf {
    let deps = std::env::current_exe().unwrap().parent().unwrap().join("deps");
    let mut v: Vec<_> = std::fs::read_dir(deps)
        .unwrap()
        .flatten()
        .filter(|e| {
            let n = e.file_name().into_string().unwrap_or_default();
            n.starts_with("libsqrid-") && n.ends_with(".rlib")
        })
        .map(|e| (e.metadata().unwrap().modified().unwrap(), e.path()))
        .collect();
    v.sort();
    v.pop().expect("libsqrid").1
}

pub enum Verdict {
    Accepted,
    Refused(String),
}

static COUNT: AtomicU64 = AtomicU64::new(0);

/// Compile a program (and run it, if it is to be run and accepted).
pub fn compile(lib: &std::path::Path, text: &str, run: bool) -> Verdict {
    let dir = match std::env::var_os("MC_CHILD") {
        Some(d) => PathBuf::from(d),
        None => std::env::temp_dir(),
    }
    .join(format!("mc-program-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).expect("scratch");
    let src = dir.join("program.rs");
    let out = dir.join("program");
    std::fs::write(&src, text).expect("scratch");
    let mut last = String::new();
    for attempt in 0..4 {
        let r = Command::new("rustc")
            .args(["--edition", "2021", "--crate-name", "program", "--crate-type", "bin", "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=1", "--cap-lints", "allow"])
            .arg(if run { "--emit=link" } else { "--emit=obj" })
            .arg("--extern")
            .arg(format!("sqrid={}", lib.display()))
            .arg("-o")
            .arg(&out)
            .arg(&src)
            .env_remove("RUSTFLAGS")
            .stdin(Stdio::null())
            .output()
            .expect("rustc");
        let err = String::from_utf8_lossy(&r.stderr).to_string();
        let v = match r.status.code() {
            Some(0) if !run => Some(Verdict::Accepted),
            Some(0) => {
                let o = Command::new(&out).stdin(Stdio::null()).output().expect("program");
                Some(if o.status.success() { Verdict::Accepted } else { Verdict::Refused(format!("compiles, but fails: {} {}", o.status, String::from_utf8_lossy(&o.stderr))) })
            }
            // an ordinary error
            Some(1) if err.contains("error") && !err.contains("internal compiler error") && !err.contains("can't find crate") && !err.contains("No space left") => Some(Verdict::Refused(err.clone())),
            _ => None,
        };
        if let Some(v) = v {
            let _ = std::fs::remove_dir_all(&dir);
            return v;
        }
        last = err;
        std::thread::sleep(std::time::Duration::from_millis(500 << attempt));
    }
    let _ = std::fs::remove_dir_all(&dir);
    eprintln!("the compiler does not work: {last}");
    std::process::exit(2)
}

/// The beginning of what the compiler said.
pub fn head(e: &str) -> String {
    e.lines().filter(|l| !l.trim().is_empty()).take(8).collect::<Vec<_>>().join(" / ")
}
