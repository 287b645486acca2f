//! A child process that loads documents: another build of the runtime, or a place where a crash
//! or an endless loop only costs the child.
use crate::{host::*, prog::Prog, util::catch};
use bladeink::story::Story;
use serde_json::{Value, json};
use std::{
    io::{BufRead, BufReader, Write},
    path::{Path, PathBuf},
    process::{Child, ChildStdin, Command, Stdio},
    sync::mpsc::{Receiver, RecvTimeoutError, channel},
    time::Duration,
};

/// Which loader this build has.
pub const LOADER: &str = if cfg!(feature = "stream") {
    "stream"
} else {
    "default"
};

pub struct Worker {
    exe: PathBuf,
    run: Option<(Child, ChildStdin, Receiver<String>)>,
    pub restarts: u64,
}

impl Worker {
    pub fn new(exe: &Path) -> Worker {
        Worker {
            exe: exe.to_path_buf(),
            run: None,
            restarts: 0,
        }
    }

    fn start(&mut self) -> std::io::Result<()> {
        // A bounded address space keeps a runaway allocation from taking the machine along.
        let mut child = Command::new("/bin/bash")
            .arg("-c")
            .arg("ulimit -v 6000000; ulimit -c 0; ulimit -s 8192; exec \"$0\" worker")
            .arg(&self.exe)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()?;
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { return };
                if tx.send(l).is_err() {
                    return;
                }
            }
        });
        self.run = Some((child, stdin, rx));
        self.restarts += 1;
        Ok(())
    }

    /// The child's answer; Err says how it failed to answer ("timeout" or how it died).
    pub fn ask(&mut self, req: &Value, timeout: Duration) -> Result<Value, String> {
        if self.run.is_none() {
            self.start().map_err(|e| format!("ENGINE {e}"))?;
        }
        let (child, stdin, rx) = self.run.as_mut().unwrap();
        let mut line = req.to_string();
        line.push('\n');
        let sent = stdin.write_all(line.as_bytes()).and_then(|_| stdin.flush());
        let answer = if sent.is_ok() {
            rx.recv_timeout(timeout)
        } else {
            Err(RecvTimeoutError::Disconnected)
        };
        match answer {
            Ok(l) => serde_json::from_str(&l).map_err(|e| format!("ENGINE {e}: {l}")),
            Err(e) => {
                if matches!(e, RecvTimeoutError::Timeout) {
                    let _ = child.kill();
                }
                let status = child.wait().map(|s| s.to_string()).unwrap_or_default();
                self.run = None;
                Err(match e {
                    RecvTimeoutError::Timeout => "timeout".to_string(),
                    RecvTimeoutError::Disconnected => format!("died: {status}"),
                })
            }
        }
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        if let Some((mut c, stdin, _)) = self.run.take() {
            drop(stdin);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

pub fn result_class<T>(r: &Result<T, String>) -> &'static str {
    match r {
        Ok(_) => "Ok",
        Err(e) if e.starts_with("panic") => "panic",
        Err(_) => "Err",
    }
}

/// Everything observable of a story document.
pub fn dump(doc: &str, depth: usize) -> Value {
    let listing = match catch(|| {
        Story::new(doc).map(|s| {
            let a = s.verif_audit(0);
            (
                a.listing,
                a.failures,
                s.get_global_tags().map_err(|e| format!("{e:?}")),
            )
        })
    }) {
        Err(p) => return json!({"load": "panic", "detail": p, "loader": LOADER}),
        Ok(Err(e)) => return json!({"load": "Err", "detail": format!("{e:?}"), "loader": LOADER}),
        Ok(Ok(x)) => x,
    };
    let mut play = String::new();
    if depth > 0 {
        let p = Prog::from_json("doc", "", doc);
        let cfg = Cfg {
            seed: Some(7),
            ..Default::default()
        };
        let mut budget = 40;
        play = futures(&|| Host::new(&p, &cfg).ok(), depth, &mut budget, false);
    }
    json!({"load": "Ok", "listing": listing.0, "failures": listing.1,
        "tags": format!("{:?}", listing.2), "play": play})
}

pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        let Ok(v) = serde_json::from_str::<Value>(&l) else {
            return;
        };
        let ans = match v["cmd"].as_str() {
            Some("dump") => dump(
                v["doc"].as_str().unwrap_or(""),
                v["depth"].as_u64().unwrap_or(0) as usize,
            ),
            Some("c03") => crate::c03::answer(&v),
            Some("c04") => crate::c04::answer(&v),
            Some("c15") => crate::c15::answer(&v),
            Some("c06") => crate::c06::answer(&v),
            _ => json!({"error": "unknown command"}),
        };
        let mut s = ans.to_string();
        s.push('\n');
        if out
            .write_all(s.as_bytes())
            .and_then(|_| out.flush())
            .is_err()
        {
            return;
        }
    }
}
