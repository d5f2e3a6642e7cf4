//! Runs of the command lines in directories that are made for them and removed afterwards.

use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// Relative paths and contents; directories have none
pub type Files = BTreeMap<String, Option<Vec<u8>>>;

pub struct Scratch {
    dir: PathBuf,
}
pub struct Ran {
    /// None if ended by a signal
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

pub fn names_of(f: &Files) -> Vec<String> {
    f.iter().map(|(n, c)| format!("{n} ({})", c.as_ref().map_or("directory".into(), |c| format!("{} bytes", c.len())))).collect()
}

impl Scratch {
    pub fn new() -> Scratch {
        static COUNT: AtomicU64 = AtomicU64::new(0);
        let dir = std::env::temp_dir().join(format!("ngv-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).expect("cannot make a scratch directory");
        Scratch { dir }
    }
    pub fn path(&self, file: &str) -> String {
        self.dir.join(file).to_str().unwrap().to_string()
    }
    pub fn fill(&self, f: &Files) {
        for (n, c) in f {
            let p = self.dir.join(n);
            match c {
                None => std::fs::create_dir_all(&p).expect("cannot make a directory"),
                Some(c) => {
                    std::fs::create_dir_all(p.parent().unwrap()).expect("cannot make a directory");
                    std::fs::write(&p, c).expect("cannot write a file");
                }
            }
        }
    }
    /// Everything that is there
    pub fn seen(&self) -> Files {
        fn walk(at: &PathBuf, rel: &str, out: &mut Files) {
            for e in std::fs::read_dir(at).expect("cannot read a scratch directory") {
                let e = e.unwrap();
                let n = e.file_name().to_string_lossy().into_owned();
                let rel = if rel.is_empty() { n } else { format!("{rel}/{n}") };
                if e.file_type().unwrap().is_dir() {
                    out.insert(rel.clone(), None);
                    walk(&e.path(), &rel, out);
                } else {
                    out.insert(rel, Some(std::fs::read(e.path()).unwrap_or_default()));
                }
            }
        }
        let mut out = Files::new();
        walk(&self.dir, "", &mut out);
        out
    }
    pub fn run(&self, bin: &str, args: &[String]) -> Ran {
        let bins = std::env::var("NGV_BIN").expect("NGV_BIN names the directory of the built command lines");
        let mut command = Command::new(PathBuf::from(bins).join(bin));
        command.args(args).current_dir(&self.dir).env("RUST_BACKTRACE", "0").stdin(Stdio::null());
        // one that hangs ends with the check
        unsafe {
            command.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let o = command
            .output()
            .expect("cannot run the command line");
        Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
