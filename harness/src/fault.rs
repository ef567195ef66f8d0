//! Readers and writers that misbehave as the path chooses.

use crate::sym;
use std::io::{self, ErrorKind, Read, Write};

/// Any kind of error but the two that mean something to who reads or writes:
/// one to try again after, one for the end of the data.
pub fn any_kind() -> ErrorKind {
    let k = sym::range(0, ErrorKind::Other as u64) as u8;
    sym::assume(k != ErrorKind::Interrupted as u8 && k != ErrorKind::UnexpectedEof as u8);
    // the kinds are numbered from 0 on without gaps, `Other` the last stable one
    unsafe { std::mem::transmute::<u8, ErrorKind>(k) }
}

/// Hands out `data`; up to `budget` calls are cut short or interrupted, and
/// the call at byte `fail_at` fails.
pub struct Reader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub budget: usize,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub kind: ErrorKind,
    pub interrupted: usize,
}
impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8], budget: usize) -> Self {
        Reader { data, pos: 0, budget, fail_at: None, failed: false, kind: ErrorKind::PermissionDenied, interrupted: 0 }
    }
}
impl<'a> Read for Reader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                self.failed = true;
                return Err(io::Error::from(self.kind));
            }
            n = n.min(f - self.pos);
        }
        if self.budget > 0 {
            match sym::choose(if n > 1 { 3 } else { 2 }) {
                0 => {}
                1 => {
                    self.budget -= 1;
                    self.interrupted += 1;
                    return Err(io::Error::from(ErrorKind::Interrupted));
                }
                _ => {
                    self.budget -= 1;
                    n = 1 + sym::choose((n - 1).min(3));
                }
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Takes bytes; up to `budget` calls are cut short or interrupted; the call
/// that would exceed `room` bytes takes what fits, then fails, or takes
/// nothing (`zero`).
pub struct Writer {
    pub got: Vec<u8>,
    pub budget: usize,
    pub room: usize,
    pub zero: bool,
    pub flushes: usize,
    pub failed: bool,
    pub kind: ErrorKind,
    pub interrupted: usize,
}
impl Writer {
    pub fn new(room: usize, budget: usize, zero: bool) -> Self {
        Writer { got: vec![], budget, room, zero, flushes: 0, failed: false, kind: ErrorKind::PermissionDenied, interrupted: 0 }
    }
}
impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.room - self.got.len());
        if n == 0 && !buf.is_empty() {
            self.failed = true;
            if self.zero {
                return Ok(0);
            }
            return Err(io::Error::from(self.kind));
        }
        if self.budget > 0 && n > 0 {
            match sym::choose(if n > 1 { 3 } else { 2 }) {
                0 => {}
                1 => {
                    self.budget -= 1;
                    self.interrupted += 1;
                    return Err(io::Error::from(ErrorKind::Interrupted));
                }
                _ => {
                    self.budget -= 1;
                    n = 1 + sym::choose((n - 1).min(3));
                }
            }
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        Ok(())
    }
}
