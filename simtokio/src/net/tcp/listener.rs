//! TCP listener on the simulated network (verification fork).

use crate::net::tcp::TcpStream;
use crate::net::{to_socket_addrs, ToSocketAddrs};
use crate::sim::net as sim;

use std::fmt;
use std::future::poll_fn;
use std::io;
use std::net::{self, SocketAddr};
use std::task::{ready, Context, Poll};

/// A TCP socket server, listening for connections.
pub struct TcpListener {
    io: sim::ListenSock,
}

impl TcpListener {
    /// Creates a new `TcpListener`, bound to the specified address.
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let addrs = to_socket_addrs(addr).await?;
        let mut last_err = None;
        for addr in addrs {
            match sim::listen(addr) {
                Ok(io) => return Ok(TcpListener { io }),
                Err(e) => last_err = Some(e),
            }
        }
        Err(last_err.unwrap_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
        }))
    }

    pub(crate) fn from_sock(io: sim::ListenSock) -> TcpListener {
        TcpListener { io }
    }

    /// Accepts a new incoming connection from this listener.
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        poll_fn(|cx| self.poll_accept(cx)).await
    }

    /// Polls to accept a new incoming connection to this listener.
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let (sock, addr) = ready!(self.io.poll_accept(cx))?;
        Poll::Ready(Ok((TcpStream::from_sock(sock), addr)))
    }

    /// Unsupported.
    pub fn from_std(_listener: net::TcpListener) -> io::Result<TcpListener> {
        Err(io::Error::new(io::ErrorKind::Unsupported, "not in the simulation"))
    }

    /// Unsupported.
    pub fn into_std(self) -> io::Result<std::net::TcpListener> {
        Err(io::Error::new(io::ErrorKind::Unsupported, "not in the simulation"))
    }

    /// Returns the local address that this listener is bound to.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.io.addr)
    }

    /// Fixed value.
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }

    /// No effect in the simulation.
    pub fn set_ttl(&self, _ttl: u32) -> io::Result<()> {
        Ok(())
    }
}

impl TryFrom<net::TcpListener> for TcpListener {
    type Error = io::Error;

    fn try_from(stream: net::TcpListener) -> Result<Self, Self::Error> {
        Self::from_std(stream)
    }
}

impl fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("TcpListener").field("addr", &self.io.addr).finish()
    }
}

mod sys {
    use super::TcpListener;
    use std::os::unix::prelude::*;

    impl AsRawFd for TcpListener {
        fn as_raw_fd(&self) -> RawFd {
            900_000 + self.io.id as RawFd
        }
    }
}
