//! Runs the check in a child process, so that a stack overflow, an abort or an
//! endless loop in the library is found, pinned to the case that caused it and
//! reported as a violation, instead of ending the check without an answer.

use std::fs::{self, File};
use std::io::Read;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const STATE_VAR: &str = "PPP_CHECK_STATE";
/// Exit code of a child whose case made no progress.
pub const STUCK: i32 = 3;
/// A case takes milliseconds (a few seconds for the largest); one that takes
/// this long does not end.
const SOLO_LIMIT: Duration = Duration::from_secs(90);

/// Where a shard notes the case it is about to run.
pub struct CaseLog(Option<File>);

impl CaseLog {
    pub fn open(shard: usize) -> CaseLog {
        CaseLog(std::env::var_os(STATE_VAR).map(|d| {
            File::create(Path::new(&d).join(format!("shard{shard}"))).expect("case log")
        }))
    }
    pub fn note(&self, data: &[u32]) {
        if let Some(f) = &self.0 {
            let mut b = Vec::with_capacity(4 + data.len() * 4);
            b.extend((data.len() as u32).to_le_bytes());
            for v in data {
                b.extend(v.to_le_bytes());
            }
            f.write_all_at(&b, 0).expect("case log");
        }
    }
    pub fn done(&self) {
        if let Some(f) = &self.0 {
            f.write_all_at(&u32::MAX.to_le_bytes(), 0).expect("case log");
        }
    }
}

fn read_case(path: &Path) -> Option<Vec<u32>> {
    let mut bytes = Vec::new();
    File::open(path).ok()?.read_to_end(&mut bytes).ok()?;
    let words: Vec<u32> =
        bytes.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let n = *words.first()?;
    if n == u32::MAX {
        return None;
    }
    words.get(1..1 + n as usize).map(|w| w.to_vec())
}

pub enum End {
    /// The child ended normally with this code.
    Exit(i32),
    /// The case kills the process or never ends; the text says which.
    Crash { how: String, data: Option<Vec<u32>> },
}

pub struct Supervisor {
    dir: PathBuf,
    args: Vec<String>,
}

impl Supervisor {
    /// `args`: the arguments of this process, without the program name.
    pub fn new(args: &[String]) -> Supervisor {
        let dir = std::env::temp_dir().join(format!("ppp-check-{}", std::process::id()));
        fs::create_dir_all(&dir).expect("scratch directory");
        Supervisor { dir, args: args.to_vec() }
    }

    pub fn cleanup(&self) {
        let _ = fs::remove_dir_all(&self.dir);
    }

    fn solo(&self, id: &str, data: &[u32]) -> Option<String> {
        let file = self.dir.join("solo.txt");
        let text: Vec<String> = data.iter().map(|v| v.to_string()).collect();
        fs::write(&file, format!("choices: {}\n", text.join(" "))).expect("scratch file");
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args([id, "--replay", file.to_str().unwrap()])
            .env(STATE_VAR, &self.dir)
            .stdout(File::create(self.dir.join("solo.out")).expect("scratch file"))
            .stderr(Stdio::null())
            .spawn()
            .expect("child process");
        let start = Instant::now();
        loop {
            if let Some(st) = child.try_wait().expect("child status") {
                return match st.signal() {
                    // SIGKILL comes from outside: no verdict.
                    Some(9) | None => None,
                    Some(6) => Some("it aborts the process (stack overflow or out of memory)".into()),
                    Some(11) => Some("it crashes the process (SIGSEGV)".into()),
                    Some(n) => Some(format!("it ends the process with signal {n}")),
                };
            }
            if start.elapsed() > SOLO_LIMIT {
                let _ = child.kill();
                let _ = child.wait();
                return Some(format!("it does not end within {} s", SOLO_LIMIT.as_secs()));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    /// What the last case tried described itself as.
    pub fn description(&self) -> String {
        let text = fs::read(self.dir.join("solo.out")).unwrap_or_default();
        String::from_utf8_lossy(&text[..text.len().min(6000)]).into_owned()
    }

    /// Removes blocks of choices while the case still crashes, for a while.
    fn shrink(&self, id: &str, mut data: Vec<u32>) -> Vec<u32> {
        let start = Instant::now();
        let mut size = data.len().next_power_of_two() / 2;
        while size > 0 {
            let mut i = 0;
            while i < data.len() {
                if start.elapsed() > Duration::from_secs(40) {
                    return data;
                }
                let mut c = data.clone();
                c.drain(i..(i + size).min(c.len()));
                if self.solo(id, &c).is_some() {
                    data = c;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        data
    }

    pub fn run(&self, id: &str, replay: bool) -> End {
        let status = Command::new(std::env::current_exe().unwrap())
            .args(&self.args)
            .env(STATE_VAR, &self.dir)
            .status()
            .expect("child process");
        let stuck = status.code() == Some(STUCK);
        let end = match status.code() {
            Some(c) if !stuck => End::Exit(c),
            _ if replay => {
                End::Crash { how: format!("the replayed case ended with {status}"), data: None }
            }
            _ if status.signal() == Some(9) => {
                eprintln!("ERROR: the check was killed from outside");
                End::Exit(2)
            }
            _ => {
                eprintln!("the check ended with {status}; looking for the case that did it");
                let mut found = None;
                for shard in 0..crate::engine::SHARDS {
                    if let Some(data) = read_case(&self.dir.join(format!("shard{shard}"))) {
                        if let Some(how) = self.solo(id, &data) {
                            found = Some((how, data));
                            break;
                        }
                    }
                }
                match found {
                    None => {
                        eprintln!("ERROR: no single case reproduces it");
                        End::Exit(2)
                    }
                    Some((how, data)) => {
                        let data = if how.contains("does not end") {
                            data
                        } else {
                            let d = self.shrink(id, data);
                            self.solo(id, &d); // for its description
                            d
                        };
                        End::Crash { how, data: Some(data) }
                    }
                }
            }
        };
        end
    }
}
