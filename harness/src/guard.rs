//! The check proper runs in a child process. When that dies of a signal, or
//! one case does not end, the cases its workers were at are tried again, each
//! in a process of its own; the one that does it again is the violation.
use crate::runner;
use serde_json::Value;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// CPU seconds one case may use, and wall-clock seconds without any progress.
const CPU_S: u64 = 60;
const IDLE_S: u64 = 60;

fn me() -> PathBuf {
    std::env::current_exe().expect("own path")
}

/// Run the check in a child. Err: it did not end by itself.
pub fn run(id: &str, slots: &Path) -> Result<i32, String> {
    let status = Command::new(me()).args(["check-inner", id]).env("VP_SLOTS", slots).status().map_err(|e| e.to_string());
    match status {
        Ok(s) => match (s.code(), s.signal()) {
            (Some(runner::STUCK), _) => Err("one case does not end".into()),
            (Some(c), _) => Ok(c),
            (None, sig) => Err(format!("the process is ended by signal {}", sig.unwrap_or(0))),
        },
        Err(e) => {
            println!("ERROR: {e}");
            Ok(2)
        }
    }
}

/// (ticks used, all threads asleep)
fn activity(pid: u32) -> Option<(u64, bool)> {
    let mut ticks = 0;
    let mut asleep = true;
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let s = std::fs::read_to_string(t.ok()?.path().join("stat")).ok()?;
        let rest: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
        asleep &= rest[0] == "S";
        ticks += rest[11].parse::<u64>().ok()? + rest[12].parse::<u64>().ok()?;
    }
    Some((ticks, asleep))
}

fn wait(mut c: Child) -> Option<String> {
    let mut idle_since = Instant::now();
    let mut last = 0;
    let start = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return match (s.code(), s.signal()) {
                (_, Some(24)) => Some(format!("one case does not end within {CPU_S} s of computation")),
                // ended from outside
                (_, Some(9)) | (_, Some(15)) | (_, Some(2)) => None,
                (_, Some(sig)) => Some(format!("one case ends the process with signal {sig} ({})", match sig {
                    6 => "abort: stack overflow or a panic that cannot unwind",
                    11 => "invalid memory access",
                    4 => "illegal instruction",
                    7 => "bus error",
                    8 => "arithmetic error",
                    _ => "",
                })),
                _ => None,
            };
        }
        let (ticks, asleep) = activity(c.id()).unwrap_or((0, false));
        if !asleep || ticks != last {
            idle_since = Instant::now();
            last = ticks;
        }
        let idle = idle_since.elapsed() > Duration::from_secs(IDLE_S);
        if idle || start.elapsed() > Duration::from_secs(240) {
            let _ = c.kill();
            let _ = c.wait();
            return if idle { Some(format!("one case never ends: every thread waits, for {IDLE_S} s")) } else { None };
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_secs(1) { 2 } else { 100 }));
    }
}

/// What happens to a process that runs this case: None if it survives.
fn fatal(id: &str, file: &Path) -> Option<String> {
    let mut c = Command::new("bash");
    c.arg0("bash")
        .args(["-c", &format!("ulimit -c 0; ulimit -S -t {CPU_S}; exec \"$0\" \"$@\""), &me().to_string_lossy(), "replay-inner", id, &file.to_string_lossy()])
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    wait(c.spawn().ok()?)
}

/// Replay in a process of its own.
pub fn replay(id: &str, file: &str, repeat: &str) -> i32 {
    let s = Command::new(me()).args(["replay-inner", id, file, repeat]).status();
    match s.as_ref().map(|s| (s.code(), s.signal())) {
        Ok((Some(c), _)) => c,
        Ok((None, Some(sig))) if sig != 9 && sig != 15 && sig != 2 => {
            println!("  the case ends the process with signal {sig}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        _ => 2,
    }
}

/// Look at the cases left behind. Some((path, message)): a violation.
pub fn look(id: &str, slots: &Path, out: &Path, what: &str) -> Option<(PathBuf, String)> {
    let mut files: Vec<PathBuf> = std::fs::read_dir(slots).ok()?.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    let cases: Vec<String> = files.iter().filter_map(|f| runner::read_slot(f)).collect();
    let _ = std::fs::create_dir_all(out);
    let tmp = out.join(format!("{id}-left-{}.json", std::process::id()));
    let results: Vec<Option<(String, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = cases
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let f = tmp.with_extension(format!("{i}.json"));
                s.spawn(move || {
                    std::fs::write(&f, c).ok()?;
                    let r = fatal(id, &f);
                    let _ = std::fs::remove_file(&f);
                    r.map(|m| (c.clone(), m))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok().flatten()).collect()
    });
    let (case, msg) = results.into_iter().flatten().next()?;
    let quick = !msg.contains("never") && !msg.contains("not end");
    let (case, msg) = if quick { minimize(id, &tmp, case, msg) } else { (case, msg) };
    let _ = std::fs::remove_file(&tmp);
    let v: Value = serde_json::from_str(&case).ok()?;
    let path = out.join(format!("{id}-{}-fatal.json", v["part"].as_str().unwrap_or("x")));
    let mut v = v;
    v["note"] = Value::from(format!("{msg} ({what})"));
    std::fs::write(&path, serde_json::to_string_pretty(&v).ok()?).ok()?;
    Some((path, msg))
}

/// Smaller cases that still do it, by cutting the JSON; what is no case any
/// more does not crash and is not taken.
fn minimize(id: &str, tmp: &Path, case: String, msg: String) -> (String, String) {
    let t0 = Instant::now();
    let Ok(mut best) = serde_json::from_str::<Value>(&case) else { return (case, msg) };
    let mut best_msg = msg;
    let mut again = true;
    while again {
        again = false;
        let mut i = 0;
        loop {
            let mut v = best.clone();
            let mut n = i;
            if !cut(&mut v["case"], &mut n) {
                break;
            }
            if t0.elapsed() > Duration::from_secs(40) {
                return (best.to_string(), best_msg);
            }
            if v != best && std::fs::write(tmp, v.to_string()).is_ok() {
                if let Some(m) = fatal(id, tmp) {
                    best = v;
                    best_msg = m;
                    again = true;
                    continue;
                }
            }
            i += 1;
        }
    }
    (best.to_string(), best_msg)
}

/// Apply the n-th possible cut; false if there are fewer.
fn cut(v: &mut Value, n: &mut usize) -> bool {
    let mut take = |k: usize| {
        if *n < k {
            return Some(*n);
        }
        *n -= k;
        None
    };
    match v {
        Value::Array(a) => {
            let l = a.len();
            if l > 0 {
                if let Some(k) = take(if l > 2 { l + 2 } else { l }) {
                    match k {
                        k if k < l => drop(a.remove(k)),
                        k if k == l => drop(a.drain(..l / 2)),
                        _ => a.truncate(l / 2),
                    }
                    return true;
                }
            }
            a.iter_mut().any(|x| cut(x, n))
        }
        Value::Object(m) => m.values_mut().any(|x| cut(x, n)),
        Value::String(s) => {
            if !s.is_empty() && take(1).is_some() {
                let mut at = s.len() / 2;
                while !s.is_char_boundary(at) {
                    at -= 1;
                }
                s.truncate(at);
                return true;
            }
            false
        }
        Value::Number(x) => {
            if x.as_u64().map_or(false, |u| u > 0) && take(1).is_some() {
                *v = Value::from(x.as_u64().unwrap() / 2);
                return true;
            }
            false
        }
        _ => false,
    }
}
