//! Child processes with a line protocol: the monitored worker and the acorn-based reference reader.
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

pub struct Proc { child: Child, rx: Receiver<String>, cmd: Vec<String>, env: Vec<(String, String)> }
#[derive(Debug, Clone)]
pub enum Answer { Got(Value), Died(String), Hung }

/// JSON without a nesting limit (trees are deep; callers run on threads with big stacks)
pub fn from_str<T: serde::de::DeserializeOwned>(s: &str) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}
/// Runs `f` on `n` threads with big stacks.
pub fn lanes<F: Fn(u64) + Sync>(n: u64, f: F) {
    std::thread::scope(|s| { for i in 0..n { let f = &f; std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || f(i)).unwrap(); } });
}

pub fn root() -> std::path::PathBuf { std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into()) }

impl Proc {
    pub fn start(cmd: Vec<String>, env: Vec<(String, String)>) -> Proc {
        let mut child = Command::new(&cmd[0]).args(&cmd[1..]).envs(env.iter().cloned()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("cannot start {cmd:?}: {e}"));
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || { for l in BufReader::with_capacity(1 << 16, out).lines() { match l { Ok(l) => if tx.send(l).is_err() { break }, Err(_) => break } } });
        Proc { child, rx, cmd, env }
    }
    pub fn fajt() -> Proc { Proc::fajt_with(&[]) }
    pub fn fajt_with(env: &[(&str, &str)]) -> Proc {
        let me = std::env::current_exe().unwrap().to_string_lossy().into_owned();
        Proc::start(vec![me, "worker".into()], env.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
    }
    pub fn acorn() -> Proc { Proc::start(vec!["node".into(), "--stack-size=3900".into(), root().join("oracle/ref.js").to_string_lossy().into_owned()], vec![]) }
    fn restart(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); *self = Proc::start(self.cmd.clone(), self.env.clone()); }
    /// Answers to `jobs`, in order. A job on which the process dies or exceeds `timeout` is reported as such and the rest continue in a new process.
    pub fn ask(&mut self, jobs: &[Value], timeout: Duration) -> Vec<Answer> {
        let mut res: Vec<Answer> = Vec::with_capacity(jobs.len());
        if let [j] = jobs {
            let mut j = j.clone(); j["id"] = 0.into();
            // (one line, which the process reads in full before it answers)
            let sent = self.child.stdin.as_mut().unwrap().write_all(format!("{j}\n").as_bytes());
            let a = match sent { Err(_) => Answer::Died(self.child.wait().map(|s| s.to_string()).unwrap_or_default()), Ok(()) => match self.rx.recv_timeout(timeout) {
                Ok(l) => Answer::Got(from_str(&l).unwrap_or_else(|e| panic!("bad answer {e}: {l:.200}"))),
                Err(RecvTimeoutError::Timeout) => Answer::Hung,
                Err(RecvTimeoutError::Disconnected) => Answer::Died(self.child.wait().map(|s| s.to_string()).unwrap_or_default()),
            } };
            if !matches!(a, Answer::Got(_)) { self.restart(); }
            return vec![a];
        }
        while res.len() < jobs.len() {
            let from = res.len();
            let text: String = jobs[from..].iter().enumerate().map(|(i, j)| { let mut j = j.clone(); j["id"] = (from + i).into(); format!("{j}\n") }).collect();
            let mut stdin = self.child.stdin.take().unwrap();
            let mut failed = None;
            let back = std::thread::scope(|s| {
                let w = s.spawn(move || { let _ = stdin.write_all(text.as_bytes()).and_then(|_| stdin.flush()); stdin });
                while res.len() < jobs.len() {
                    match self.rx.recv_timeout(timeout) {
                        Ok(l) => {
                            let v: Value = from_str(&l).unwrap_or_else(|e| panic!("bad answer {e}: {l:.200}"));
                            assert_eq!(v["id"].as_u64(), Some(res.len() as u64), "answers out of order");
                            res.push(Answer::Got(v));
                        }
                        Err(RecvTimeoutError::Timeout) => { failed = Some(Answer::Hung); let _ = self.child.kill(); break; }
                        Err(RecvTimeoutError::Disconnected) => { let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default(); failed = Some(Answer::Died(st)); break; }
                    }
                }
                w.join().unwrap()
            });
            self.child.stdin = Some(back);
            if let Some(f) = failed { res.push(f); self.restart(); }
        }
        res
    }
}
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
