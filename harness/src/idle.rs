//! Running something that may come to a standstill.
use crate::ctx::cpu_time;
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::{Duration, Instant};

/// Runs `f` on another thread. Err if the process uses no processor time for 20 s while
/// `f` is not done (a deadlock), with "ERROR" if it is merely very slow.
pub fn run<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    let (tx, rx) = channel();
    let h = std::thread::Builder::new()
        .name("case".into())
        .spawn(move || {
            let _ = tx.send(f());
        })
        .unwrap();
    let (mut cpu, mut since) = (cpu_time(), Instant::now());
    let start = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(x) => {
                let _ = h.join();
                return Ok(x);
            }
            Err(RecvTimeoutError::Disconnected) => {
                let _ = h.join();
                let p = crate::panics::take();
                if p.iter().any(|p| p.contains(" at src/")) {
                    return Err(format!("ERROR harness panicked: {}", p.join(" | ")));
                }
                return Err(format!("panic: {}", p.join(" | ")));
            }
            Err(RecvTimeoutError::Timeout) => {
                let now = cpu_time();
                if now - cpu > Duration::from_millis(500) {
                    cpu = now;
                    since = Instant::now();
                }
                if since.elapsed() > Duration::from_secs(20) {
                    return Err(format!("{}: standstill, no thread has worked for 20 s", what));
                }
                if start.elapsed() > Duration::from_secs(250) {
                    return Err(format!("ERROR {}: not done after 250 s", what));
                }
            }
        }
    }
}
