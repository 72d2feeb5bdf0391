//! Save operations, including injected I/O faults.
use crate::ops::{bo, st, un, Ctx, R};
use rust_xlsxwriter::XlsxError;
use serde_json::{json, Value};
use std::io::{Cursor, Seek, SeekFrom, Write};

/// A sink whose n-th call (1-based, counting write/seek/flush) fails.
pub struct Faulty<'a> {
    pub buf: &'a mut Cursor<Vec<u8>>,
    pub fail_at: u64,
    pub calls: &'a mut u64,
    pub fired: &'a mut bool,
    pub sticky: bool,
    pub short: bool,
    pub kind: String,
}
impl Faulty<'_> {
    /// Some(Ok) stands for a write of nothing.
    fn tick(&mut self) -> Option<std::io::Result<usize>> {
        *self.calls += 1;
        if *self.calls == self.fail_at || (self.sticky && self.fail_at > 0 && *self.calls > self.fail_at) {
            *self.fired = true;
            return Some(match self.kind.as_str() {
                "zero" => Ok(0),
                "full" => Err(std::io::Error::from_raw_os_error(28)),
                "pipe" => Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "injected")),
                _ => Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")),
            });
        }
        None
    }
}
impl Write for Faulty<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if let Some(r) = self.tick() {
            return r;
        }
        if self.short && b.len() > 1 {
            return self.buf.write(&b[..(b.len() + 1) / 2]);
        }
        self.buf.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self.tick() {
            Some(Err(e)) => Err(e),
            Some(Ok(_)) => Err(std::io::Error::new(std::io::ErrorKind::WriteZero, "injected")),
            None => self.buf.flush(),
        }
    }
}
impl Seek for Faulty<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match self.tick() {
            Some(Err(e)) => Err(e),
            Some(Ok(_)) => Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")),
            None => self.buf.seek(p),
        }
    }
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn getrlimit(what: i32, r: *mut RLimit) -> i32;
    fn setrlimit(what: i32, r: *const RLimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
/// Run with files limited to n bytes: writes past that fail.
fn limited<T>(n: u64, f: impl FnOnce() -> T) -> T {
    const FSIZE: i32 = 1;
    let mut old = RLimit { cur: 0, max: 0 };
    unsafe {
        signal(25, 1);
        getrlimit(FSIZE, &mut old);
        setrlimit(FSIZE, &RLimit { cur: n.min(old.max), max: old.max });
    }
    let r = f();
    unsafe {
        setrlimit(FSIZE, &old);
    }
    r
}

fn emit(cx: &mut Ctx, data: &[u8]) -> Value {
    let name = format!("{}-{}.xlsx", cx.id, cx.nsave);
    cx.nsave += 1;
    std::fs::write(format!("{}/{}", cx.dir, name), data).expect("harness: write");
    json!({"file": name})
}

pub fn io_op(cx: &mut Ctx, op: &str, o: &Value) -> Option<R> {
    Some(match op {
        "save" => {
            let r = match st(o, "how") {
                "path" => {
                    let p = format!("{}/{}-tmp.xlsx", cx.dir, cx.id);
                    cx.wb.save(&p).map(|_| {
                        let d = std::fs::read(&p).unwrap();
                        std::fs::remove_file(&p).ok();
                        d
                    })
                }
                "writer" => {
                    let mut c = Cursor::new(vec![]);
                    cx.wb.save_to_writer(&mut c).map(|_| c.into_inner())
                }
                _ => cx.wb.save_to_buffer(),
            };
            match r {
                Ok(d) => Ok(emit(cx, &d)),
                Err(e) => Err(e),
            }
        }
        // Save into a sink whose fail_at-th call fails (0: none fails).
        "save_fault" => {
            let mut cur = Cursor::new(vec![]);
            let (mut calls, mut fired) = (0u64, false);
            let w = Faulty {
                buf: &mut cur,
                fail_at: un(o, "n") as u64,
                calls: &mut calls,
                fired: &mut fired,
                sticky: bo(o, "sticky"),
                short: bo(o, "short"),
                kind: st(o, "kind").to_string(),
            };
            let r = match un(o, "buffered") as usize {
                0 => cx.wb.save_to_writer(w),
                n => cx.wb.save_to_writer(std::io::BufWriter::with_capacity(n, w)),
            };
            match r {
                Ok(()) => {
                    let d = cur.into_inner();
                    let mut v = emit(cx, &d);
                    v["calls"] = json!(calls);
                    v["fired"] = json!(fired);
                    Ok(v)
                }
                Err(XlsxError::IoError(_) | XlsxError::ZipError(_)) if !fired => Err(XlsxError::ParameterError("an error without a fault".into())),
                Err(e) => Err(e),
            }
        }
        "save_limit" => {
            let p = format!("{}/{}-tmp.xlsx", cx.dir, cx.id);
            let r = limited(un(o, "n") as u64, || cx.wb.save(&p));
            let d = std::fs::read(&p).unwrap_or_default();
            std::fs::remove_file(&p).ok();
            match r {
                Ok(()) => Ok(emit(cx, &d)),
                Err(e) => Err(e),
            }
        }
        // By way of a link of our own, so that nothing done to the name reaches the device.
        "save_devfull" => {
            let p = format!("{}/{}-full.xlsx", cx.dir, cx.id);
            std::os::unix::fs::symlink("/dev/full", &p).expect("harness: link");
            let r = cx.wb.save(&p).map(|_| Value::Null);
            std::fs::remove_file(&p).ok();
            r
        }
        "save_badpath" => cx.wb.save(format!("{}/no_such_dir/x.xlsx", cx.dir)).map(|_| Value::Null),
        _ => return None,
    })
}
