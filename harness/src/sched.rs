//! Threads which write worksheets of one workbook at the same time, following
//! a given schedule or none.
//!
//! A schedule is a sequence of thread numbers. Each entry lets that thread run
//! until it is held at a point inside the library (see `vsched` there) or has
//! finished a call. A thread which cannot go on since another holds a lock is
//! left running, so that any sequence of numbers is a schedule.
use crate::ops::{outcome, ws_op, Images};
use rust_xlsxwriter::Worksheet;
use serde_json::Value;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex, RwLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
enum Is {
    Waiting,
    Running,
    Done,
}

struct State {
    turn: Option<usize>,
    free: bool,
    is: Vec<Is>,
}

struct Control {
    state: Mutex<State>,
    changed: Condvar,
}

struct Packing {
    order: Vec<usize>,
    done: Vec<usize>,
}

static CONTROL: Control = Control { state: Mutex::new(State { turn: None, free: true, is: vec![] }), changed: Condvar::new() };
static PACKING: Mutex<Option<Packing>> = Mutex::new(None);
static PACKED: Condvar = Condvar::new();
static JITTER: RwLock<bool> = RwLock::new(false);

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
}

impl Control {
    fn start(&self, n: usize, free: bool) {
        *self.state.lock().unwrap() = State { turn: None, free, is: vec![Is::Waiting; n] };
    }
    // Called by a thread before each call and at each point.
    fn hold(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        if s.free {
            return;
        }
        s.is[me] = Is::Waiting;
        self.changed.notify_all();
        while !s.free && s.turn != Some(me) {
            s = self.changed.wait(s).unwrap();
        }
        s.turn = None;
        s.is[me] = Is::Running;
    }
    fn finish(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.is[me] = Is::Done;
        self.changed.notify_all();
    }
    fn follow(&self, schedule: &[usize]) {
        for &t in schedule {
            let mut s = self.state.lock().unwrap();
            let until = Instant::now() + Duration::from_millis(100);
            // It has to be waiting to be given a turn, and to stop again.
            for give in [true, false] {
                while s.is[t] == Is::Running || s.turn.is_some() {
                    let left = until.saturating_duration_since(Instant::now());
                    if left.is_zero() {
                        break;
                    }
                    s = self.changed.wait_timeout(s, left).unwrap().0;
                }
                if give && s.is[t] == Is::Waiting && s.turn.is_none() {
                    s.turn = Some(t);
                    self.changed.notify_all();
                }
            }
        }
        self.state.lock().unwrap().free = true;
        self.changed.notify_all();
    }
}

fn hook(name: &str, index: usize) {
    match (ME.get(), name) {
        (Some(me), _) => {
            CONTROL.hold(me);
            if *JITTER.read().unwrap() {
                std::thread::yield_now();
            }
        }
        (None, "assemble") => {
            let until = Instant::now() + Duration::from_millis(300);
            let mut p = PACKING.lock().unwrap();
            loop {
                let Some(x) = p.as_ref() else { return };
                let Some(k) = x.order.iter().position(|i| *i == index) else { return };
                let left = until.saturating_duration_since(Instant::now());
                if x.order[..k].iter().all(|i| x.done.contains(i)) || left.is_zero() {
                    return;
                }
                p = PACKED.wait_timeout(p, left).unwrap().0;
            }
        }
        (None, "assembled") => {
            if let Some(x) = PACKING.lock().unwrap().as_mut() {
                x.done.push(index);
            }
            PACKED.notify_all();
        }
        _ => {}
    }
}

/// The order in which worksheets are assembled by the next save.
pub fn packing(order: Option<Vec<usize>>) {
    rust_xlsxwriter::vsched::set_hook(Some(hook));
    *PACKING.lock().unwrap() = order.map(|order| Packing { order, done: vec![] });
}

/// Run the calls of each worksheet in a thread of its own.
pub fn block(sheets: &mut [Worksheet], ops: &[&Value], images: &Images) -> Vec<Value> {
    let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (k, o) in ops.iter().enumerate() {
        by.entry(o["s"].as_u64().expect("harness: th") as usize).or_default().push(k);
    }
    let schedule: Option<Vec<usize>> = ops[0].get("sched").and_then(|v| v.as_array()).map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
    let together = by.values().map(|v| v.len()).min().unwrap_or(0);
    let n = by.len();
    let met = AtomicUsize::new(0);
    rust_xlsxwriter::vsched::set_hook(Some(hook));
    *JITTER.write().unwrap() = schedule.is_none() && ops[0].get("jitter").is_some();
    CONTROL.start(n, schedule.is_none());
    let mut mine: Vec<(usize, &mut Worksheet)> = sheets.iter_mut().enumerate().filter(|(i, _)| by.contains_key(i)).collect();
    if mine.len() != n {
        panic!("harness: no such worksheet");
    }
    let free = schedule.is_none();
    let results: Mutex<Vec<Value>> = Mutex::new(vec![Value::Null; ops.len()]);
    std::thread::scope(|scope| {
        for (t, (i, ws)) in mine.iter_mut().enumerate() {
            let (ks, met, results) = (&by[i], &met, &results);
            scope.spawn(move || {
                ME.set(Some(t));
                for (j, k) in ks.iter().enumerate() {
                    CONTROL.hold(t);
                    if free && j < together {
                        // All at once.
                        met.fetch_add(1, Ordering::SeqCst);
                        let mut spins = 0;
                        while met.load(Ordering::SeqCst) < (j + 1) * n {
                            spins += 1;
                            if spins < 20_000 {
                                std::hint::spin_loop();
                            } else {
                                std::thread::yield_now();
                            }
                        }
                    }
                    let o = ops[*k];
                    let r = outcome(o, || ws_op(ws, &images, crate::ops::st(o, "op"), o));
                    results.lock().unwrap()[*k] = r;
                }
                CONTROL.finish(t);
            });
        }
        if let Some(s) = &schedule {
            CONTROL.follow(s);
        }
    });
    CONTROL.start(0, true);
    results.into_inner().unwrap()
}
