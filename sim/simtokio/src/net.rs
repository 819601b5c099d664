//! Simulated Unix sockets with tokio's interface.
use real::io::{AsyncRead, AsyncWrite, ReadBuf};
use simcore::net as sn;
use std::io;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::task::{Context, Poll};

fn err(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

pub use unix::SocketAddr;

#[derive(Debug)]
pub struct UnixListener {
    id: usize,
    path: PathBuf,
}
impl UnixListener {
    pub fn bind<P: AsRef<Path>>(path: P) -> io::Result<UnixListener> {
        let path = path.as_ref();
        let id = sn::bind(path.as_os_str().as_bytes()).map_err(err)?;
        Ok(UnixListener { id, path: path.to_path_buf() })
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(UnixStream, SocketAddr)>> {
        match sn::poll_accept(self.id, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(err(e))),
            Poll::Ready(Ok(c)) => Poll::Ready(Ok((UnixStream { c, done: false }, SocketAddr(None)))),
        }
    }
    pub async fn accept(&self) -> io::Result<(UnixStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr(Some(self.path.clone())))
    }
}
impl Drop for UnixListener {
    fn drop(&mut self) {
        sn::drop_listener(self.id)
    }
}

fn poll_read(c: usize, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    match sn::poll_read(c, buf.remaining(), cx) {
        Poll::Pending => Poll::Pending,
        Poll::Ready(Err(e)) => Poll::Ready(Err(err(e))),
        Poll::Ready(Ok(v)) => {
            buf.put_slice(&v);
            let _g = simcore::alloc::harness();
            drop(v);
            Poll::Ready(Ok(()))
        }
    }
}
fn poll_write(c: usize, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    sn::poll_write(c, buf, cx).map_err(err)
}
fn try_io<T>(f: impl FnOnce(&mut Context<'_>) -> Poll<io::Result<T>>) -> io::Result<T> {
    let mut cx = Context::from_waker(std::task::Waker::noop());
    match f(&mut cx) {
        Poll::Ready(r) => r,
        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
    }
}
fn try_read(c: usize, buf: &mut [u8]) -> io::Result<usize> {
    try_io(|cx| match sn::poll_read(c, buf.len(), cx) {
        Poll::Pending => Poll::Pending,
        Poll::Ready(Err(e)) => Poll::Ready(Err(err(e))),
        Poll::Ready(Ok(v)) => {
            buf[..v.len()].copy_from_slice(&v);
            Poll::Ready(Ok(v.len()))
        }
    })
}
fn try_write(c: usize, buf: &[u8]) -> io::Result<usize> {
    try_io(|cx| poll_write(c, cx, buf))
}
fn try_read_buf<B: bytes::BufMut>(c: usize, buf: &mut B) -> io::Result<usize> {
    let mut v = {
        let _g = simcore::alloc::harness();
        vec![0; buf.chunk_mut().len()]
    };
    let r = try_read(c, &mut v);
    if let Ok(n) = r {
        buf.put_slice(&v[..n]);
    }
    let _g = simcore::alloc::harness();
    drop(v);
    r
}
async fn readable(c: usize) -> io::Result<()> {
    std::future::poll_fn(|cx| if sn::read_ready(c, cx) { Poll::Ready(Ok(())) } else { Poll::Pending }).await
}
async fn writable(c: usize) -> io::Result<()> {
    std::future::poll_fn(|cx| if sn::write_ready(c, cx) { Poll::Ready(Ok(())) } else { Poll::Pending }).await
}

#[derive(Debug)]
pub struct UnixStream {
    c: usize,
    done: bool,
}
impl UnixStream {
    pub fn into_split(mut self) -> (unix::OwnedReadHalf, unix::OwnedWriteHalf) {
        self.done = true;
        (unix::OwnedReadHalf { c: self.c }, unix::OwnedWriteHalf { c: self.c, shutdown_on_drop: true })
    }
    pub fn split(&mut self) -> (unix::ReadHalf<'_>, unix::WriteHalf<'_>) {
        (unix::ReadHalf(self), unix::WriteHalf(self))
    }
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        try_read(self.c, buf)
    }
    pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
        try_read_buf(self.c, buf)
    }
    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if sn::read_ready(self.c, cx) { Poll::Ready(Ok(())) } else { Poll::Pending }
    }
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if sn::write_ready(self.c, cx) { Poll::Ready(Ok(())) } else { Poll::Pending }
    }
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        try_write(self.c, buf)
    }
    pub async fn readable(&self) -> io::Result<()> {
        readable(self.c).await
    }
    pub async fn writable(&self) -> io::Result<()> {
        writable(self.c).await
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr(None))
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr(None))
    }
}
impl Drop for UnixStream {
    fn drop(&mut self) {
        if !self.done {
            sn::close_server_half(self.c, true, false);
            sn::close_server_half(self.c, false, false);
        }
    }
}

macro_rules! rd {
    ($t:ty) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                poll_read(self.sock(), cx, buf)
            }
        }
    };
}
macro_rules! wr {
    ($t:ty) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                poll_write(self.sock(), cx, buf)
            }
            fn poll_write_vectored(
                self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                bufs: &[io::IoSlice<'_>],
            ) -> Poll<io::Result<usize>> {
                let v: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
                poll_write(self.sock(), cx, &v)
            }
            fn is_write_vectored(&self) -> bool {
                true
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                sn::server_shutdown_write(self.sock());
                Poll::Ready(Ok(()))
            }
        }
    };
}
impl UnixStream {
    fn sock(&self) -> usize {
        self.c
    }
}
rd!(UnixStream);
wr!(UnixStream);
rd!(unix::OwnedReadHalf);
wr!(unix::OwnedWriteHalf);
rd!(unix::ReadHalf<'_>);
wr!(unix::WriteHalf<'_>);

pub mod unix {
    use super::*;

    #[derive(Debug, Clone)]
    pub struct SocketAddr(pub(super) Option<PathBuf>);
    impl SocketAddr {
        pub fn is_unnamed(&self) -> bool {
            self.0.is_none()
        }
        pub fn as_pathname(&self) -> Option<&Path> {
            self.0.as_deref()
        }
    }

    #[derive(Debug)]
    pub struct OwnedReadHalf {
        pub(super) c: usize,
    }
    #[derive(Debug)]
    pub struct OwnedWriteHalf {
        pub(super) c: usize,
        pub(super) shutdown_on_drop: bool,
    }
    #[derive(Debug)]
    pub struct ReadHalf<'a>(pub(super) &'a UnixStream);
    #[derive(Debug)]
    pub struct WriteHalf<'a>(pub(super) &'a UnixStream);
    impl ReadHalf<'_> {
        pub(super) fn sock(&self) -> usize {
            self.0.c
        }
    }
    impl WriteHalf<'_> {
        pub(super) fn sock(&self) -> usize {
            self.0.c
        }
    }
    impl OwnedReadHalf {
        pub(super) fn sock(&self) -> usize {
            self.c
        }
        pub async fn readable(&self) -> io::Result<()> {
            readable(self.c).await
        }
        pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
            try_read(self.c, buf)
        }
        pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
            try_read_buf(self.c, buf)
        }
        pub fn reunite(self, other: OwnedWriteHalf) -> Result<UnixStream, io::Error> {
            let c = self.c;
            std::mem::forget(self);
            std::mem::forget(other);
            Ok(UnixStream { c, done: false })
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(SocketAddr(None))
        }
    }
    impl OwnedWriteHalf {
        pub(super) fn sock(&self) -> usize {
            self.c
        }
        /// Drops the half without shutting down the write direction.
        pub fn forget(mut self) {
            self.shutdown_on_drop = false;
        }
        pub async fn writable(&self) -> io::Result<()> {
            writable(self.c).await
        }
        pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
            try_write(self.c, buf)
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(SocketAddr(None))
        }
    }
    impl Drop for OwnedReadHalf {
        fn drop(&mut self) {
            sn::close_server_half(self.c, true, false)
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            sn::close_server_half(self.c, false, self.shutdown_on_drop)
        }
    }
}
