//! Simulated sinks: every write is decided by the run.
use crate::alloc;
use crate::rng::Ch;
use crate::world::{self, Injected, count, violate};
use std::io::{self, ErrorKind, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Never,
    /// error once `at` bytes were taken; sticky or only once
    Err(ErrorKind, bool),
    /// Ok(0)
    Zero,
    Panic,
}

pub struct Sink<'a> {
    pub out: Vec<u8>,
    pub ch: &'a mut Ch,
    pub short: bool,
    pub interrupt: bool,
    pub fail: Fail,
    pub at: usize,
    pub failed: bool,
    pub calls: u64,
    pub late: u64,
}

pub const KINDS: [ErrorKind; 6] = [ErrorKind::StorageFull, ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::PermissionDenied];

impl<'a> Sink<'a> {
    pub fn perfect(ch: &'a mut Ch) -> Sink<'a> {
        Sink { out: Vec::new(), ch, short: false, interrupt: false, fail: Fail::Never, at: usize::MAX, failed: false, calls: 0, late: 0 }
    }
    /// a sink with drawn faults, for a text of about `len` bytes
    pub fn drawn(ch: &'a mut Ch, len: usize) -> Sink<'a> {
        let short = ch.chance(1, 2);
        let interrupt = ch.chance(1, 3);
        let fail = match ch.below(8) {
            0 | 1 => Fail::Never,
            2..=5 => Fail::Err(*ch.pick(&KINDS), ch.chance(1, 2)),
            6 => Fail::Zero,
            _ => Fail::Panic,
        };
        let at = if fail == Fail::Never { usize::MAX } else { ch.below(len + 2) };
        Sink { short, interrupt, fail, at, ..Sink::perfect(ch) }
    }
    pub fn plan(&self) -> String {
        format!("short={} interrupts={} {:?} at {}", self.short, self.interrupt, self.fail, self.at)
    }

    fn accept(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if let Some(h) = world::with(|w| w.yield_hook) {
            h("sink");
        }
        if self.failed {
            self.late += 1;
            if self.late == 1 {
                violate("written to after it failed", format!("{} more bytes", b.len()));
            }
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt && self.ch.chance(1, 6) {
            count("fault.sink_interrupted", 1);
            return Err(ErrorKind::Interrupted.into());
        }
        let room = self.at.saturating_sub(self.out.len());
        if room == 0 && self.fail != Fail::Never && (!self.failed || matches!(self.fail, Fail::Err(_, true))) {
            self.failed = true;
            match self.fail {
                Fail::Err(k, _) => {
                    count("fault.sink_error", 1);
                    return Err(k.into());
                }
                Fail::Zero => {
                    count("fault.sink_zero_write", 1);
                    return Ok(0);
                }
                Fail::Panic => {
                    count("fault.sink_panic", 1);
                    std::panic::resume_unwind(Box::new(Injected));
                }
                Fail::Never => {}
            }
        }
        let mut n = b.len();
        if !self.failed {
            n = n.min(room);
        }
        if self.short && n > 1 {
            n = self.ch.range(1, n);
            count("fault.sink_short_write", 1);
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
}

impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        alloc::off(|| self.accept(b))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A text sink (fmt::Write) that fails once `at` bytes were taken.
pub struct TextSink {
    pub out: String,
    pub at: usize,
    pub failed: bool,
    pub sticky: bool,
    pub panics: bool,
}

impl TextSink {
    pub fn new(at: usize, sticky: bool, panics: bool) -> TextSink {
        TextSink { out: String::new(), at, failed: false, sticky, panics }
    }
}

impl std::fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        alloc::off(|| {
            if let Some(h) = world::with(|w| w.yield_hook) {
                h("sink");
            }
            if self.failed {
                violate("written to after it failed", format!("{} more bytes", s.len()));
                if !self.sticky {
                    self.out.push_str(s);
                    return Ok(());
                }
                return Err(std::fmt::Error);
            }
            let room = self.at.saturating_sub(self.out.len());
            if s.len() > room {
                let mut k = room;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                self.out.push_str(&s[..k]);
                self.failed = true;
                if self.panics {
                    count("fault.sink_panic", 1);
                    std::panic::resume_unwind(Box::new(Injected));
                }
                count("fault.sink_error", 1);
                return Err(std::fmt::Error);
            }
            self.out.push_str(s);
            Ok(())
        })
    }
}
