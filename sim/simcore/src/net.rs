//! Simulated Unix stream sockets.
//!
//! Semantics follow Linux: connect succeeds as soon as the connection is queued at the listener; closing a socket with
//! unread input makes the peer see ECONNRESET after it has drained what was sent to it; writing to a peer that has closed fails
//! with EPIPE.

use crate::{block, fs, sim, site, unblock, yield_point, Block, Stream, Tid};
use std::collections::VecDeque;
use std::task::{Context, Poll, Waker};

pub enum Wait {
    Tid(Tid),
    Waker(Waker),
}

fn wake_all(v: &mut Vec<Wait>) -> Vec<Wait> {
    std::mem::take(v)
}
fn fire(v: Vec<Wait>) {
    for w in v {
        match w {
            Wait::Tid(t) => unblock(t),
            Wait::Waker(w) => w.wake(),
        }
    }
}

#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    /// total bytes ever written / read
    pub written: u64,
    pub read: u64,
    /// no more data will be written
    pub wr_closed: bool,
    /// nobody will read any more
    pub rd_closed: bool,
    /// reader gets ECONNRESET once the buffer is drained
    pub reset: bool,
    pub rd_wait: Vec<Wait>,
    pub wr_wait: Vec<Wait>,
}

/// Planned failure of a server-side socket call.
#[derive(Clone, Debug, Default)]
pub struct SockFault {
    /// fail reads with this errno once this many bytes have been read
    pub read_err: Option<(u64, i32)>,
    /// fail writes with this errno once this many bytes have been written
    pub write_err: Option<(u64, i32)>,
}

pub struct Conn {
    pub c2s: Pipe,
    pub s2c: Pipe,
    pub listener: usize,
    pub accepted: bool,
    pub accept_seq: u64,
    /// server side halves still open
    pub srv_rd: bool,
    pub srv_wr: bool,
    /// sequence number of the moment both halves were closed
    pub srv_closed_seq: Option<u64>,
    pub cli_open: bool,
    pub fault: SockFault,
    /// I/O errors handed to the server
    pub errs_delivered: Vec<i32>,
    /// server saw end of input
    pub eof_delivered: bool,
    pub owner_tag: usize,
    /// the listener has asked for the next connection since this one was accepted
    pub settled_seq: Option<u64>,
}

#[derive(Default)]
pub struct Listener {
    pub path: Vec<u8>,
    pub open: bool,
    pub backlog: VecDeque<usize>,
    pub wait: Vec<Wait>,
    /// errors to return from accept: (after this many accepted connections, errno)
    pub accept_errs: VecDeque<(usize, i32)>,
    pub accepted: usize,
    pub errs_delivered: Vec<i32>,
}

#[derive(Default)]
pub struct Net {
    pub conns: Vec<Conn>,
    pub listeners: Vec<Listener>,
    pub fail_bind: VecDeque<i32>,
    pub bind_errs_delivered: Vec<i32>,
    /// errors from bind and accept, in order
    pub listen_errs: Vec<i32>,
    /// a second listener is trying to bind (its errors are not those of the first one)
    pub intruding: bool,
    /// accept errors for the next listener
    pub plan_accept_errs: VecDeque<(usize, i32)>,
    /// current number of server-side open sockets
    pub srv_open: i64,
}

fn net() -> &'static mut Net {
    &mut sim().expect("socket used outside of the simulation").net
}

fn h(x: u64, y: u64) {
    if let Some(s) = sim() {
        s.note(x << 40 ^ y);
    }
}

////////////////////////////////////////////////////////////////////////////////
// server side

impl Net {
    fn bind_failed(&mut self, e: i32) {
        if !self.intruding {
            self.listen_errs.push(e);
        }
    }
}

pub fn bind(path: &[u8]) -> Result<usize, i32> {
    yield_point(site::NET);
    let s = sim().expect("bind outside of the simulation");
    let _g = crate::alloc::harness();
    if let Some(e) = s.net.fail_bind.pop_front() {
        if e != 0 {
            s.count("fault.bind_error");
            s.net.bind_errs_delivered.push(e);
            s.net.bind_failed(e);
            return Err(e);
        }
    }
    if s.fs.node(path).is_some() {
        s.count("fault.bind_in_use");
        s.net.bind_errs_delivered.push(libc::EADDRINUSE);
        s.net.bind_failed(libc::EADDRINUSE);
        return Err(libc::EADDRINUSE);
    }
    let dir = path.iter().rposition(|&b| b == b'/').map(|i| &path[..i]).unwrap_or(b"");
    if s.fs.node(dir) != Some(&fs::Node::Dir) {
        s.net.bind_errs_delivered.push(libc::ENOENT);
        s.net.bind_failed(libc::ENOENT);
        return Err(libc::ENOENT);
    }
    let id = s.net.listeners.len();
    let errs = std::mem::take(&mut s.net.plan_accept_errs);
    s.net.listeners.push(Listener { path: path.to_vec(), open: true, accept_errs: errs, ..Default::default() });
    s.fs.put(path, fs::Node::Socket(id));
    crate::trace(|| format!("bind {} -> listener {}", String::from_utf8_lossy(path), id));
    Ok(id)
}

pub fn drop_listener(id: usize) {
    let Some(s) = sim() else { return };
    let _g = crate::alloc::harness();
    let l = &mut s.net.listeners[id];
    if !l.open {
        return;
    }
    l.open = false;
    crate::trace(|| format!("listener {} closed", id));
    let pending: Vec<usize> = l.backlog.drain(..).collect();
    let w = wake_all(&mut l.wait);
    fire(w);
    for c in pending {
        close_server_half(c, true, false);
        close_server_half(c, false, false);
    }
}

pub fn poll_accept(id: usize, cx: &mut Context<'_>) -> Poll<Result<usize, i32>> {
    yield_point(site::NET);
    let s = sim().unwrap();
    let _g = crate::alloc::harness();
    let q = s.seq();
    for c in s.net.conns.iter_mut() {
        if c.listener == id && c.accepted && c.settled_seq.is_none() {
            c.settled_seq = Some(q);
        }
    }
    if s.flip(Stream::Net, s.knobs.spurious) {
        s.count("fault.spurious_pending");
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    let l = &mut s.net.listeners[id];
    if let Some(&(after, e)) = l.accept_errs.front() {
        if l.accepted >= after {
            l.accept_errs.pop_front();
            l.errs_delivered.push(e);
            s.net.listen_errs.push(e);
            s.count("fault.accept_error");
            crate::trace(|| format!("accept fails: errno {}", e));
            return Poll::Ready(Err(e));
        }
    }
    match l.backlog.pop_front() {
        Some(c) => {
            l.accepted += 1;
            let seq = s.seq();
            let conn = &mut s.net.conns[c];
            conn.accepted = true;
            conn.accept_seq = seq;
            s.net.srv_open += 1;
            s.set_last_accept(c);
            h(1, c as u64);
            crate::trace(|| format!("accept -> conn {}", c));
            Poll::Ready(Ok(c))
        }
        None => {
            l.wait.push(Wait::Waker(cx.waker().clone()));
            Poll::Pending
        }
    }
}

/// Server reads up to `max` bytes.
pub fn poll_read(c: usize, max: usize, cx: &mut Context<'_>) -> Poll<Result<Vec<u8>, i32>> {
    yield_point(site::NET);
    let s = sim().unwrap();
    let _g = crate::alloc::harness();
    s.set_last_sock(c);
    if s.flip(Stream::Net, s.knobs.spurious) {
        s.count("fault.spurious_pending");
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    let conn = &mut s.net.conns[c];
    if let Some((after, e)) = conn.fault.read_err {
        if conn.c2s.read >= after {
            conn.errs_delivered.push(e);
            s.count("fault.read_error");
            crate::trace(|| format!("conn {c}: read fails: errno {e}"));
            return Poll::Ready(Err(e));
        }
    }
    if max == 0 {
        return Poll::Ready(Ok(Vec::new()));
    }
    if conn.c2s.buf.is_empty() {
        if conn.c2s.reset {
            conn.c2s.reset = false;
            conn.errs_delivered.push(libc::ECONNRESET);
            s.count("fault.read_reset");
            crate::trace(|| format!("conn {c}: read fails: ECONNRESET"));
            return Poll::Ready(Err(libc::ECONNRESET));
        }
        if conn.c2s.wr_closed {
            conn.eof_delivered = true;
            crate::trace(|| format!("conn {c}: read -> EOF"));
            h(2, c as u64);
            return Poll::Ready(Ok(Vec::new()));
        }
        conn.c2s.rd_wait.push(Wait::Waker(cx.waker().clone()));
        return Poll::Pending;
    }
    let mut n = conn.c2s.buf.len().min(max);
    if let Some((after, _)) = conn.fault.read_err {
        n = n.min((after - conn.c2s.read) as usize);
    }
    let frag = s.knobs.read_frag;
    let k = s.fragment(n, frag);
    if k < n {
        s.count("fault.short_read");
    }
    let conn = &mut s.net.conns[c];
    let data: Vec<u8> = conn.c2s.buf.drain(..k).collect();
    conn.c2s.read += k as u64;
    let w = wake_all(&mut conn.c2s.wr_wait);
    crate::trace(|| format!("conn {c}: server reads {k} of {n}: {}", show(&data)));
    h(3, (c as u64) << 20 ^ k as u64);
    fire(w);
    Poll::Ready(Ok(data))
}

/// Server writes; returns the number of bytes taken.
pub fn poll_write(c: usize, data: &[u8], cx: &mut Context<'_>) -> Poll<Result<usize, i32>> {
    yield_point(site::NET);
    let s = sim().unwrap();
    let _g = crate::alloc::harness();
    s.set_last_write(c);
    if s.flip(Stream::Net, s.knobs.spurious) {
        s.count("fault.spurious_pending");
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    let conn = &mut s.net.conns[c];
    if let Some((after, e)) = conn.fault.write_err {
        if conn.s2c.written >= after {
            conn.errs_delivered.push(e);
            s.count("fault.write_error");
            crate::trace(|| format!("conn {c}: write fails: errno {e}"));
            return Poll::Ready(Err(e));
        }
    }
    if conn.s2c.rd_closed || conn.s2c.wr_closed {
        conn.errs_delivered.push(libc::EPIPE);
        s.count("fault.write_epipe");
        crate::trace(|| format!("conn {c}: write fails: EPIPE"));
        return Poll::Ready(Err(libc::EPIPE));
    }
    if data.is_empty() {
        return Poll::Ready(Ok(0));
    }
    let space = conn.s2c.cap.saturating_sub(conn.s2c.buf.len());
    if space == 0 {
        s.count("fault.buffer_full");
        let conn = &mut s.net.conns[c];
        conn.s2c.wr_wait.push(Wait::Waker(cx.waker().clone()));
        return Poll::Pending;
    }
    let mut n = space.min(data.len());
    if let Some((after, _)) = conn.fault.write_err {
        n = n.min((after - conn.s2c.written) as usize);
    }
    let frag = s.knobs.write_frag;
    let k = s.fragment(n, frag);
    if k < data.len() {
        s.count("fault.short_write");
    }
    let conn = &mut s.net.conns[c];
    conn.s2c.buf.extend(&data[..k]);
    conn.s2c.written += k as u64;
    let w = wake_all(&mut conn.s2c.rd_wait);
    crate::trace(|| format!("conn {c}: server writes {k} of {}: {}", data.len(), show(&data[..k])));
    h(4, (c as u64) << 20 ^ k as u64);
    fire(w);
    Poll::Ready(Ok(k))
}

/// Would a read return something? Registers the waker if not.
pub fn read_ready(c: usize, cx: &mut Context<'_>) -> bool {
    yield_point(site::NET);
    let conn = &mut net().conns[c];
    let fault = matches!(conn.fault.read_err, Some((after, _)) if conn.c2s.read >= after);
    if fault || !conn.c2s.buf.is_empty() || conn.c2s.wr_closed || conn.c2s.reset {
        return true;
    }
    let _g = crate::alloc::harness();
    conn.c2s.rd_wait.push(Wait::Waker(cx.waker().clone()));
    false
}

/// Would a write take something (or fail)? Registers the waker if not.
pub fn write_ready(c: usize, cx: &mut Context<'_>) -> bool {
    yield_point(site::NET);
    let conn = &mut net().conns[c];
    let fault = matches!(conn.fault.write_err, Some((after, _)) if conn.s2c.written >= after);
    if fault || conn.s2c.rd_closed || conn.s2c.wr_closed || conn.s2c.buf.len() < conn.s2c.cap {
        return true;
    }
    let _g = crate::alloc::harness();
    conn.s2c.wr_wait.push(Wait::Waker(cx.waker().clone()));
    false
}

pub fn server_shutdown_write(c: usize) {
    let conn = &mut net().conns[c];
    conn.s2c.wr_closed = true;
    let w = wake_all(&mut conn.s2c.rd_wait);
    fire(w);
}

/// One of the two server-side handles of a connection is dropped. Dropping the write half shuts down writing (as tokio does unless
/// `forget`-ed); the socket is closed when both are gone.
pub fn close_server_half(c: usize, read: bool, shutdown: bool) {
    let Some(s) = sim() else { return };
    if c >= s.net.conns.len() {
        return;
    }
    let _g = crate::alloc::harness();
    let conn = &mut s.net.conns[c];
    if read {
        conn.srv_rd = false;
    } else {
        conn.srv_wr = false;
    }
    let mut w = Vec::new();
    if !read && shutdown {
        conn.s2c.wr_closed = true;
        w.append(&mut conn.s2c.rd_wait);
    }
    if !conn.srv_rd && !conn.srv_wr && conn.srv_closed_seq.is_none() {
        conn.s2c.wr_closed = true;
        conn.c2s.rd_closed = true;
        if !conn.c2s.buf.is_empty() {
            conn.s2c.reset = true;
        }
        w.append(&mut conn.s2c.rd_wait);
        w.append(&mut conn.c2s.wr_wait);
        let accepted = conn.accepted;
        s.seq += 1;
        let q = s.seq;
        s.net.conns[c].srv_closed_seq = Some(q);
        if accepted {
            s.net.srv_open -= 1;
        }
        h(5, c as u64);
        crate::trace(|| format!("conn {c}: closed by the server"));
    }
    fire(w);
}

////////////////////////////////////////////////////////////////////////////////
// client side (blocking, for actor coroutines)

pub fn connect(path: &[u8], fault: SockFault) -> Result<usize, i32> {
    yield_point(site::CLIENT);
    let s = sim().unwrap();
    let l = match s.fs.node(path) {
        Some(fs::Node::Socket(l)) => *l,
        Some(_) => return Err(libc::ECONNREFUSED),
        None => return Err(libc::ENOENT),
    };
    if !s.net.listeners[l].open {
        return Err(libc::ECONNREFUSED);
    }
    let c = s.net.conns.len();
    let mut conn = Conn {
        c2s: Pipe::default(),
        s2c: Pipe::default(),
        listener: l,
        accepted: false,
        accept_seq: 0,
        srv_rd: true,
        srv_wr: true,
        srv_closed_seq: None,
        cli_open: true,
        fault,
        errs_delivered: Vec::new(),
        eof_delivered: false,
        owner_tag: 0,
        settled_seq: None,
    };
    conn.c2s.cap = s.knobs.cap_c2s;
    conn.s2c.cap = s.knobs.cap_s2c;
    s.net.conns.push(conn);
    s.net.listeners[l].backlog.push_back(c);
    let w = wake_all(&mut s.net.listeners[l].wait);
    crate::trace(|| format!("connect -> conn {c}"));
    fire(w);
    Ok(c)
}

/// Makes all socket buffers at least this large.
pub fn enlarge(cap: usize) {
    let mut w = Vec::new();
    for c in net().conns.iter_mut() {
        for d in [&mut c.c2s, &mut c.s2c] {
            if d.cap < cap {
                d.cap = cap;
                w.extend(wake_all(&mut d.wr_wait));
            }
        }
    }
    fire(w);
}

/// Writes once: blocks until at least one byte can be written, returns how many were.
pub fn client_write_some(c: usize, data: &[u8]) -> Result<usize, i32> {
    loop {
        yield_point(site::CLIENT);
        let s = sim().unwrap();
        let frag = s.knobs.client_frag;
        let conn = &mut s.net.conns[c];
        if !conn.cli_open {
            return Err(libc::EBADF);
        }
        if conn.c2s.rd_closed || conn.c2s.wr_closed {
            return Err(libc::EPIPE);
        }
        let space = conn.c2s.cap.saturating_sub(conn.c2s.buf.len());
        if space == 0 {
            conn.c2s.wr_wait.push(Wait::Tid(s.cur.unwrap()));
            block(Block::Io);
            continue;
        }
        let n = space.min(data.len());
        let k = s.fragment(n, frag);
        let conn = &mut s.net.conns[c];
        conn.c2s.buf.extend(&data[..k]);
        conn.c2s.written += k as u64;
        let w = wake_all(&mut conn.c2s.rd_wait);
        crate::trace(|| format!("conn {c}: client writes {k}: {}", show(&data[..k])));
        fire(w);
        return Ok(k);
    }
}

/// Reads once: blocks until there is something; empty means end of stream.
pub fn client_read(c: usize, max: usize) -> Result<Vec<u8>, i32> {
    loop {
        yield_point(site::CLIENT);
        let s = sim().unwrap();
        let conn = &mut s.net.conns[c];
        if !conn.cli_open {
            return Err(libc::EBADF);
        }
        if !conn.s2c.buf.is_empty() {
            let n = conn.s2c.buf.len().min(max);
            let data: Vec<u8> = conn.s2c.buf.drain(..n).collect();
            conn.s2c.read += n as u64;
            let w = wake_all(&mut conn.s2c.wr_wait);
            crate::trace(|| format!("conn {c}: client reads {n}: {}", show(&data)));
            fire(w);
            return Ok(data);
        }
        if conn.s2c.reset {
            conn.s2c.reset = false;
            return Err(libc::ECONNRESET);
        }
        if conn.s2c.wr_closed {
            return Ok(Vec::new());
        }
        conn.s2c.rd_wait.push(Wait::Tid(s.cur.unwrap()));
        block(Block::Io);
    }
}

pub fn client_shutdown_write(c: usize) {
    let conn = &mut net().conns[c];
    if !conn.c2s.wr_closed {
        crate::trace(|| format!("conn {c}: client shuts down writing"));
        conn.c2s.wr_closed = true;
        let w = wake_all(&mut conn.c2s.rd_wait);
        fire(w);
    }
}

pub fn client_close(c: usize) {
    let conn = &mut net().conns[c];
    if !conn.cli_open {
        return;
    }
    crate::trace(|| format!("conn {c}: client closes"));
    conn.cli_open = false;
    conn.c2s.wr_closed = true;
    conn.s2c.rd_closed = true;
    if !conn.s2c.buf.is_empty() {
        conn.c2s.reset = true;
        conn.s2c.buf.clear();
    }
    let mut w = wake_all(&mut conn.c2s.rd_wait);
    w.append(&mut conn.c2s.wr_wait);
    w.append(&mut conn.s2c.wr_wait);
    w.append(&mut conn.s2c.rd_wait);
    fire(w);
}

/// Makes pending server operations on this connection look at their planned faults again.
pub fn poke(c: usize) {
    let conn = &mut net().conns[c];
    let mut w = wake_all(&mut conn.c2s.rd_wait);
    w.append(&mut conn.s2c.wr_wait);
    fire(w);
}

pub fn poke_listener(l: usize) {
    let w = wake_all(&mut net().listeners[l].wait);
    fire(w);
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &x in b.iter().take(200) {
        for e in std::ascii::escape_default(x) {
            s.push(e as char);
        }
    }
    if b.len() > 200 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    format!("\"{s}\"")
}
