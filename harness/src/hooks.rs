//! Delays and gates at the points where the server's worker threads start and end a task,
//! and the record of what happened in which order.
use move_language_server::verif_hooks::{set, Point};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Default)]
struct State {
    closed: bool,
    /// tickets of the tasks that wait at the gate
    held: Vec<u64>,
    released: Vec<u64>,
    log: String,
}

pub struct Hooks {
    started: AtomicU64,
    done: AtomicU64,
    /// longest delays, in microseconds (0: none)
    pub max_start_us: AtomicU64,
    pub max_done_us: AtomicU64,
    mix: AtomicU64,
    quiet: AtomicBool,
    state: Mutex<State>,
    cv: Condvar,
}

impl Hooks {
    pub fn install(seed: u64) -> Arc<Hooks> {
        let h = Arc::new(Hooks {
            started: AtomicU64::new(0),
            done: AtomicU64::new(0),
            max_start_us: AtomicU64::new(0),
            max_done_us: AtomicU64::new(0),
            mix: AtomicU64::new(seed | 1),
            quiet: AtomicBool::new(false),
            state: Mutex::default(),
            cv: Condvar::new(),
        });
        let h2 = h.clone();
        set(Some(Arc::new(move |p| h2.reached(p))));
        h
    }

    fn delay(&self, max_us: u64) {
        if max_us == 0 {
            return;
        }
        let x = self.mix.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst);
        let mut r = crate::rng::Rng::new(x);
        match r.below(4) {
            0 => (),
            1 => std::thread::yield_now(),
            2 => std::thread::sleep(Duration::from_micros(r.next() % (max_us / 8 + 1))),
            _ => std::thread::sleep(Duration::from_micros(r.next() % (max_us + 1))),
        }
    }

    fn reached(&self, p: Point) {
        match p {
            Point::TaskStart => {
                self.started.fetch_add(1, SeqCst);
                self.delay(self.max_start_us.load(SeqCst));
                self.note('S');
            }
            Point::TaskDone => {
                let ticket = self.done.load(SeqCst) + self.state.lock().unwrap().held.len() as u64;
                self.delay(self.max_done_us.load(SeqCst));
                let mut s = self.state.lock().unwrap();
                if s.closed {
                    let me = ticket * 1000 + s.held.len() as u64 + s.log.len() as u64 * 1_000_000;
                    s.held.push(me);
                    s.log.push('H');
                    while s.closed && !s.released.contains(&me) {
                        s = self.cv.wait(s).unwrap();
                    }
                    s.held.retain(|x| *x != me);
                    s.log.push('R');
                } else {
                    if !self.quiet.load(SeqCst) {
                        s.log.push('D');
                    }
                }
                drop(s);
                self.done.fetch_add(1, SeqCst);
            }
        }
    }

    /// Keeps no record.
    pub fn be_quiet(&self) {
        self.quiet.store(true, SeqCst);
    }
    pub fn note(&self, c: char) {
        if self.quiet.load(SeqCst) {
            return;
        }
        self.state.lock().unwrap().log.push(c);
    }
    pub fn log(&self) -> String {
        self.state.lock().unwrap().log.clone()
    }
    /// (started, done)
    pub fn counts(&self) -> (u64, u64) {
        let d = self.done.load(SeqCst);
        (self.started.load(SeqCst), d)
    }
    /// From now on, tasks which are done wait before their results are sent.
    pub fn close_gate(&self) {
        self.state.lock().unwrap().closed = true;
    }
    /// Lets all of them go on.
    pub fn open_gate(&self) {
        self.state.lock().unwrap().closed = false;
        self.cv.notify_all();
    }
    pub fn held(&self) -> usize {
        self.state.lock().unwrap().held.len()
    }
    /// Lets the `i`th that waits go on.
    pub fn release(&self, i: usize) {
        let mut s = self.state.lock().unwrap();
        if let Some(&t) = s.held.get(i) {
            s.released.push(t);
        }
        drop(s);
        self.cv.notify_all();
    }
}

pub fn uninstall() {
    set(None)
}
