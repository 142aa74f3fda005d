//! TCP socket builder on the simulated network (verification fork).

use crate::net::{TcpListener, TcpStream};
use crate::sim::net as sim;
use std::cell::Cell;
use std::fmt;
use std::io;
use std::net::SocketAddr;
use std::sync::Mutex;
use std::time::Duration;

/// A TCP socket that has not yet been converted to a `TcpStream` or `TcpListener`.
pub struct TcpSocket {
    addr: Mutex<Cell<Option<SocketAddr>>>,
    keepalive: Mutex<Cell<bool>>,
}

macro_rules! opts {
    ($($set:ident $get:ident : $t:ty = $v:expr;)*) => {$(
        /// No effect in the simulation.
        pub fn $set(&self, _v: $t) -> io::Result<()> { Ok(()) }
        /// Fixed value.
        pub fn $get(&self) -> io::Result<$t> { Ok($v) }
    )*};
}

impl TcpSocket {
    /// Creates a new socket.
    pub fn new_v4() -> io::Result<TcpSocket> {
        Ok(TcpSocket {
            addr: Mutex::new(Cell::new(None)),
            keepalive: Mutex::new(Cell::new(false)),
        })
    }
    /// Creates a new socket.
    pub fn new_v6() -> io::Result<TcpSocket> {
        Self::new_v4()
    }
    /// Sets the keep-alive option.
    pub fn set_keepalive(&self, keepalive: bool) -> io::Result<()> {
        self.keepalive.lock().unwrap().set(keepalive);
        Ok(())
    }
    /// Gets the keep-alive option.
    pub fn keepalive(&self) -> io::Result<bool> {
        Ok(self.keepalive.lock().unwrap().get())
    }
    opts! {
        set_reuseaddr reuseaddr: bool = true;
        set_reuseport reuseport: bool = true;
        set_linger linger: Option<Duration> = None;
        set_nodelay nodelay: bool = true;
        set_tos_v4 tos_v4: u32 = 0;
        set_tos tos: u32 = 0;
        set_tclass_v6 tclass_v6: u32 = 0;
    }
    /// No effect in the simulation.
    pub fn set_send_buffer_size(&self, _size: u32) -> io::Result<()> {
        Ok(())
    }
    /// Fixed value.
    pub fn send_buffer_size(&self) -> io::Result<u32> {
        Ok(65536)
    }
    /// No effect in the simulation.
    pub fn set_recv_buffer_size(&self, _size: u32) -> io::Result<()> {
        Ok(())
    }
    /// Fixed value.
    pub fn recv_buffer_size(&self) -> io::Result<u32> {
        Ok(65536)
    }
    /// No effect in the simulation.
    pub fn set_zero_linger(&self) -> io::Result<()> {
        Ok(())
    }
    /// Returns the bound address.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.addr
            .lock()
            .unwrap()
            .get()
            .ok_or_else(|| io::ErrorKind::InvalidInput.into())
    }
    /// Always none.
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    /// Binds the socket to the given address.
    pub fn bind(&self, addr: SocketAddr) -> io::Result<()> {
        self.addr.lock().unwrap().set(Some(addr));
        Ok(())
    }
    /// Establishes a TCP connection.
    pub async fn connect(self, addr: SocketAddr) -> io::Result<TcpStream> {
        let local = self.addr.lock().unwrap().get();
        TcpStream::connect_addr(local, addr).await
    }
    /// Converts the socket into a `TcpListener`.
    pub fn listen(self, _backlog: u32) -> io::Result<TcpListener> {
        let addr = self.local_addr()?;
        Ok(TcpListener::from_sock(sim::listen(addr)?))
    }
}

impl fmt::Debug for TcpSocket {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("TcpSocket").finish()
    }
}
