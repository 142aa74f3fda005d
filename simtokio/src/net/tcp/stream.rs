//! TCP stream on the simulated network (verification fork).

use crate::io::{AsyncRead, AsyncWrite, Interest, ReadBuf, Ready};
use crate::net::tcp::split::{split, ReadHalf, WriteHalf};
use crate::net::tcp::split_owned::{split_owned, OwnedReadHalf, OwnedWriteHalf};
use crate::net::{to_socket_addrs, ToSocketAddrs};
use crate::sim::net as sim;

use bytes::BufMut;
use std::fmt;
use std::future::poll_fn;
use std::io;
use std::net::{Shutdown, SocketAddr};
use std::pin::Pin;
use std::task::{ready, Context, Poll};
use std::time::Duration;

/// A TCP stream between a local and a remote socket.
pub struct TcpStream {
    io: sim::Sock,
}

fn unsupported<T>() -> io::Result<T> {
    Err(io::Error::new(io::ErrorKind::Unsupported, "not in the simulation"))
}

impl TcpStream {
    /// Opens a TCP connection to a remote host.
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let addrs = to_socket_addrs(addr).await?;
        let mut last_err = None;
        for addr in addrs {
            match TcpStream::connect_addr(None, addr).await {
                Ok(stream) => return Ok(stream),
                Err(e) => last_err = Some(e),
            }
        }
        Err(last_err.unwrap_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
        }))
    }

    pub(crate) async fn connect_addr(local: Option<SocketAddr>, addr: SocketAddr) -> io::Result<TcpStream> {
        let io = sim::start_connect(local, addr)?;
        poll_fn(|cx| sim::poll_connect(&io, cx)).await?;
        Ok(TcpStream { io })
    }

    pub(crate) fn from_sock(io: sim::Sock) -> TcpStream {
        TcpStream { io }
    }

    /// Number of the simulated connection.
    pub fn sim_conn(&self) -> usize {
        self.io.conn
    }

    /// Unsupported.
    pub fn from_std(_stream: std::net::TcpStream) -> io::Result<TcpStream> {
        unsupported()
    }

    /// Unsupported.
    pub fn into_std(self) -> io::Result<std::net::TcpStream> {
        unsupported()
    }

    /// Returns the local address that this stream is bound to.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.io.addr(self.io.side)
    }

    /// Returns the value of the `SO_ERROR` option.
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(self.io.take_error())
    }

    /// Returns the remote address that this stream is connected to.
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.io.addr(1 - self.io.side)
    }

    /// Attempts to receive data without removing it from the queue.
    pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        let mut tmp = vec![0u8; buf.remaining()];
        let n = ready!(self.io.poll_peek(cx, &mut tmp))?;
        buf.put_slice(&tmp[..n]);
        Poll::Ready(Ok(n))
    }

    /// Waits for any of the requested ready states.
    pub async fn ready(&self, interest: Interest) -> io::Result<Ready> {
        poll_fn(|cx| {
            let r = self.current(interest);
            if r.is_empty() {
                self.io.register(cx, interest.is_readable(), interest.is_writable());
                Poll::Pending
            } else {
                Poll::Ready(Ok(r))
            }
        })
        .await
    }

    fn current(&self, interest: Interest) -> Ready {
        let (r, w, rc, wc) = self.io.readiness();
        let mut out = Ready::EMPTY;
        if interest.is_readable() {
            if r {
                out |= Ready::READABLE;
            }
            if rc {
                out |= Ready::READ_CLOSED;
            }
        }
        if interest.is_writable() {
            if w {
                out |= Ready::WRITABLE;
            }
            if wc {
                out |= Ready::WRITE_CLOSED;
            }
        }
        out
    }

    /// Waits for the socket to become readable.
    pub async fn readable(&self) -> io::Result<()> {
        self.ready(Interest::READABLE).await?;
        Ok(())
    }

    /// Polls for read readiness.
    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.current(Interest::READABLE).is_empty() {
            self.io.register(cx, true, false);
            Poll::Pending
        } else {
            Poll::Ready(Ok(()))
        }
    }

    /// Tries to read data without waiting.
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.io.try_read(buf)
    }

    /// Tries to read data into the provided buffers without waiting.
    pub fn try_read_vectored(&self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        for b in bufs {
            if !b.is_empty() {
                return self.io.try_read(b);
            }
        }
        self.io.try_read(&mut [])
    }

    /// Tries to read data into the provided buffer, advancing its cursor.
    pub fn try_read_buf<B: BufMut>(&self, buf: &mut B) -> io::Result<usize> {
        let mut tmp = vec![0u8; buf.chunk_mut().len()];
        let n = self.io.try_read(&mut tmp)?;
        buf.put_slice(&tmp[..n]);
        Ok(n)
    }

    /// Waits for the socket to become writable.
    pub async fn writable(&self) -> io::Result<()> {
        self.ready(Interest::WRITABLE).await?;
        Ok(())
    }

    /// Polls for write readiness.
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.current(Interest::WRITABLE).is_empty() {
            self.io.register(cx, false, true);
            Poll::Pending
        } else {
            Poll::Ready(Ok(()))
        }
    }

    /// Tries to write a buffer without waiting.
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        self.io.try_write(buf)
    }

    /// Tries to write several buffers without waiting.
    pub fn try_write_vectored(&self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.io.try_write(&all)
    }

    /// Tries to perform IO using a user-provided operation.
    pub fn try_io<R>(&self, interest: Interest, f: impl FnOnce() -> io::Result<R>) -> io::Result<R> {
        if self.current(interest).is_empty() {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        f()
    }

    /// Performs IO using a user-provided operation, waiting for readiness.
    pub async fn async_io<R>(&self, interest: Interest, mut f: impl FnMut() -> io::Result<R>) -> io::Result<R> {
        loop {
            self.ready(interest).await?;
            match f() {
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
                    crate::task::yield_now().await;
                }
                r => return r,
            }
        }
    }

    /// Receives data without removing it from the queue.
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        poll_fn(|cx| self.io.poll_peek(cx, buf)).await
    }

    /// Tries to receive data without removing it from the queue.
    pub fn try_peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.io.try_peek(buf)
    }

    pub(super) fn shutdown_std(&self, how: Shutdown) -> io::Result<()> {
        match self.io.shutdown(how) {
            Err(err) if err.kind() == std::io::ErrorKind::NotConnected => Ok(()),
            result => result,
        }
    }

    /// No effect in the simulation.
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }

    /// No effect in the simulation.
    pub fn set_nodelay(&self, _nodelay: bool) -> io::Result<()> {
        Ok(())
    }

    /// No effect in the simulation.
    pub fn quickack(&self) -> io::Result<bool> {
        Ok(true)
    }

    /// No effect in the simulation.
    pub fn set_quickack(&self, _quickack: bool) -> io::Result<()> {
        Ok(())
    }

    /// Reports no linger.
    pub fn linger(&self) -> io::Result<Option<Duration>> {
        Ok(None)
    }

    /// A zero linger time makes closing reset the connection.
    pub fn set_linger(&self, dur: Option<Duration>) -> io::Result<()> {
        self.io.set_linger0(dur == Some(Duration::ZERO));
        Ok(())
    }

    /// Makes closing reset the connection.
    pub fn set_zero_linger(&self) -> io::Result<()> {
        self.io.set_linger0(true);
        Ok(())
    }

    /// Fixed value.
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }

    /// No effect in the simulation.
    pub fn set_ttl(&self, _ttl: u32) -> io::Result<()> {
        Ok(())
    }

    /// Splits a `TcpStream` into a read half and a write half.
    #[allow(clippy::needless_lifetimes)]
    pub fn split<'a>(&'a mut self) -> (ReadHalf<'a>, WriteHalf<'a>) {
        split(self)
    }

    /// Splits a `TcpStream` into owned halves.
    pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) {
        split_owned(self)
    }

    pub(crate) fn poll_read_priv(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = {
            let dst = buf.initialize_unfilled();
            ready!(self.io.poll_read(cx, dst))?
        };
        buf.advance(n);
        Poll::Ready(Ok(()))
    }

    pub(super) fn poll_write_priv(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.io.poll_write(cx, buf)
    }

    pub(super) fn poll_write_vectored_priv(
        &self,
        cx: &mut Context<'_>,
        bufs: &[io::IoSlice<'_>],
    ) -> Poll<io::Result<usize>> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.io.poll_write(cx, &all)
    }
}

impl TryFrom<std::net::TcpStream> for TcpStream {
    type Error = io::Error;

    fn try_from(stream: std::net::TcpStream) -> Result<Self, Self::Error> {
        Self::from_std(stream)
    }
}

impl AsyncRead for TcpStream {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        self.poll_read_priv(cx, buf)
    }
}

impl AsyncWrite for TcpStream {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        self.poll_write_priv(cx, buf)
    }

    fn poll_write_vectored(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        bufs: &[io::IoSlice<'_>],
    ) -> Poll<io::Result<usize>> {
        self.poll_write_vectored_priv(cx, bufs)
    }

    fn is_write_vectored(&self) -> bool {
        true
    }

    #[inline]
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.shutdown_std(std::net::Shutdown::Write)?;
        Poll::Ready(Ok(()))
    }
}

impl fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("TcpStream").field("sim", &self.io.conn).finish()
    }
}

impl AsRef<Self> for TcpStream {
    fn as_ref(&self) -> &Self {
        self
    }
}

mod sys {
    use super::TcpStream;
    use std::os::unix::prelude::*;

    impl AsRawFd for TcpStream {
        fn as_raw_fd(&self) -> RawFd {
            1_000_000 + (self.io.conn as RawFd) * 2 + self.io.side as RawFd
        }
    }
}
