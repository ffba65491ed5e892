//! Panic monitor: a process-wide hook records every panic of every thread
//! (the server's worker threads swallow theirs), so that none goes unseen.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install() {
    // salsa's cancellation unwinds with resume_unwind, which does not run the hook
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let th = std::thread::current().name().unwrap_or("?").to_string();
        PANICS.lock().unwrap().push(format!("[{}] {} at {}", th, msg, loc));
    }));
}

pub fn take() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}

pub fn any() -> Option<String> {
    PANICS.lock().unwrap().first().cloned()
}

/// Runs `f`; Err if it panicked (the panic is in the record).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}
