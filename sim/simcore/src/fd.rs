//! Simulated file descriptor 60.

#[derive(Clone, Debug)]
pub enum FdEvent {
    /// deliver these bytes (a short read if the caller's buffer is larger)
    Data(Vec<u8>),
    /// fail with this errno
    Err(i32),
}

#[derive(Default)]
pub struct Fd60 {
    /// the simulation owns fd 60 right now
    pub active: bool,
    pub exists: bool,
    pub script: std::collections::VecDeque<FdEvent>,
    /// number of read calls with a non-empty buffer, and what they returned
    pub reads: Vec<i64>,
    pub zero_reads: u64,
    pub closes: u64,
    pub delivered: Vec<u8>,
    pub reads_after_close: u64,
    pub blocked: bool,
}

/// read(60, buf): bytes or -errno.
pub fn read(buf: &mut [u8]) -> isize {
    let s = crate::sim().unwrap();
    let _g = crate::alloc::harness();
    let f = &mut s.fd60;
    if f.closes > 0 {
        f.reads_after_close += 1;
        return -(libc::EBADF as isize);
    }
    if !f.exists {
        f.reads.push(-(libc::EBADF as i64));
        return -(libc::EBADF as isize);
    }
    if buf.is_empty() {
        f.zero_reads += 1;
        return 0;
    }
    match f.script.pop_front() {
        // end of input
        None => {
            f.reads.push(0);
            0
        }
        Some(FdEvent::Err(e)) => {
            f.reads.push(-(e as i64));
            -(e as isize)
        }
        Some(FdEvent::Data(d)) => {
            let n = d.len().min(buf.len());
            buf[..n].copy_from_slice(&d[..n]);
            f.delivered.extend_from_slice(&d[..n]);
            if n < d.len() {
                f.script.push_front(FdEvent::Data(d[n..].to_vec()));
            }
            f.reads.push(n as i64);
            n as isize
        }
    }
}

pub fn close() -> isize {
    let s = crate::sim().unwrap();
    let f = &mut s.fd60;
    f.closes += 1;
    if f.closes > 1 || !f.exists {
        return -(libc::EBADF as isize);
    }
    0
}
