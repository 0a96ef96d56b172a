//! Streams the harnesses put under brec: sources that hand out bytes in arbitrary portions, sinks
//! that accept arbitrary portions, a disk that records its writes and can fail.
use std::io::{BufRead, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// Hands out at most `cuts[i]` bytes on the i-th call (0: no limit), then no limit.
pub struct Src {
    pub data: Vec<u8>,
    pub pos: usize,
    pub cuts: Vec<usize>,
    pub call: usize,
}
impl Src {
    pub fn new(data: Vec<u8>, cuts: Vec<usize>) -> Self {
        Src { data, pos: 0, cuts, call: 0 }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut n = (self.data.len() - self.pos).min(buf.len());
        let c = self.cuts.get(self.call).copied().unwrap_or(0);
        self.call += 1;
        if c > 0 {
            n = n.min(c);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A `BufRead` showing at most `window` bytes at a time.
pub struct Buf {
    pub data: Vec<u8>,
    pub pos: usize,
    pub window: usize,
}
impl Buf {
    pub fn new(data: Vec<u8>) -> Self {
        Buf { data, pos: 0, window: usize::MAX }
    }
    pub fn windowed(data: Vec<u8>, window: usize) -> Self {
        Buf { data, pos: 0, window }
    }
    fn avail(&self) -> usize {
        (self.data.len() - self.pos).min(self.window)
    }
}
impl Read for Buf {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = self.avail().min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Buf {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        Ok(&self.data[self.pos..self.pos + self.avail()])
    }
    fn consume(&mut self, n: usize) {
        self.pos = (self.pos + n).min(self.data.len());
    }
}

/// Accepts at most `cuts[i]` bytes on the i-th call (then no limit); `vectored` says whether it
/// takes several slices per call or only the first.
pub struct Sink {
    pub data: Vec<u8>,
    pub cuts: Vec<usize>,
    pub call: usize,
    pub vectored: bool,
    pub zero_at: Option<usize>,
    pub fail_at: Option<usize>,
}
impl Sink {
    pub fn new(cuts: Vec<usize>, vectored: bool) -> Self {
        Sink { data: Vec::new(), cuts, call: 0, vectored, zero_at: None, fail_at: None }
    }
    fn room(&mut self) -> Result<usize> {
        let i = self.call;
        self.call += 1;
        if self.fail_at == Some(i) {
            return Err(Error::from(ErrorKind::StorageFull));
        }
        if self.zero_at == Some(i) {
            return Ok(0);
        }
        Ok(match self.cuts.get(i) {
            Some(0) | None => usize::MAX,
            Some(n) => *n,
        })
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let n = self.room()?.min(buf.len());
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> Result<usize> {
        let mut room = self.room()?;
        let mut total = 0;
        for b in bufs {
            let n = room.min(b.len());
            self.data.extend_from_slice(&b[..n]);
            total += n;
            room -= n;
            if room == 0 || (!self.vectored && n > 0) {
                break;
            }
        }
        Ok(total)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// A file in memory. `budget` is how many more bytes reach the medium before the power goes
/// (`None`: never); `fail_at` makes the n-th write call fail after `fail_keep` bytes of it.
#[derive(Default)]
pub struct Disk {
    pub data: Vec<u8>,
    pub pos: u64,
    pub writes: usize,
    pub written: usize,
    pub budget: Option<usize>,
    pub fail_at: Option<usize>,
    pub fails: Vec<usize>,
    pub fail_keep: usize,
    pub short: usize,
    /// Bytes reach `data` when flushed (or when the position changes), as with a buffering writer.
    pub lazy: bool,
    pub pending: Vec<u8>,
}
/// Every disk: the n-th seek or read from now on fails (0: none does).
pub static mut FAIL_SEEK: usize = 0;
pub static mut FAIL_READ: usize = 0;
fn due(n: *mut usize) -> bool {
    unsafe {
        if *n == 0 {
            return false;
        }
        *n -= 1;
        *n == 0
    }
}
impl Disk {
    pub fn new(data: Vec<u8>) -> Self {
        Disk { data, ..Default::default() }
    }
    fn settle(&mut self) {
        if !self.pending.is_empty() {
            let b = std::mem::take(&mut self.pending);
            self.pos -= b.len() as u64;
            self.put(&b);
        }
    }
    fn put(&mut self, buf: &[u8]) {
        let mut n = buf.len();
        if let Some(b) = self.budget.as_mut() {
            n = n.min(*b);
            *b -= n;
        }
        let at = self.pos as usize;
        if n > 0 {
            if self.data.len() < at {
                self.data.resize(at, 0);
            }
            let over = n.min(self.data.len() - at);
            self.data[at..at + over].copy_from_slice(&buf[..over]);
            self.data.extend_from_slice(&buf[over..n]);
        }
        self.pos += buf.len() as u64;
        self.written += buf.len();
    }
}
impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if due(std::ptr::addr_of_mut!(FAIL_READ)) {
            return Err(Error::from(ErrorKind::TimedOut));
        }
        self.settle();
        let at = (self.pos as usize).min(self.data.len());
        let mut n = (self.data.len() - at).min(buf.len());
        if self.short > 0 {
            n = n.min(self.short);
        }
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Disk {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let i = self.writes;
        self.writes += 1;
        if self.fail_at == Some(i) || self.fails.contains(&i) {
            let k = self.fail_keep.min(buf.len());
            self.put(&buf[..k]);
            return Err(Error::from(ErrorKind::StorageFull));
        }
        // (no holes unless the power is gone)
        if self.budget.is_none() && self.pos > self.data.len() as u64 + 64 {
            return Err(Error::from(ErrorKind::FileTooLarge));
        }
        if self.lazy {
            self.pending.extend_from_slice(buf);
            self.pos += buf.len() as u64;
            return Ok(buf.len());
        }
        self.put(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        self.settle();
        Ok(())
    }
}
impl Seek for Disk {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        if due(std::ptr::addr_of_mut!(FAIL_SEEK)) {
            return Err(Error::from(ErrorKind::TimedOut));
        }
        self.settle();
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if n < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
