use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use crate::world::{self, Seg, Wr};
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

pub trait ToSocketAddrs {}
impl ToSocketAddrs for str {}
impl ToSocketAddrs for String {}
impl ToSocketAddrs for (&str, u16) {}
impl ToSocketAddrs for (String, u16) {}
impl ToSocketAddrs for std::net::SocketAddr {}
impl ToSocketAddrs for std::net::SocketAddrV4 {}
impl ToSocketAddrs for std::net::SocketAddrV6 {}
impl ToSocketAddrs for (std::net::IpAddr, u16) {}
impl ToSocketAddrs for (std::net::Ipv4Addr, u16) {}
impl ToSocketAddrs for &[std::net::SocketAddr] {}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {}

#[derive(Debug)]
pub struct TcpStream(());

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(_addr: A) -> io::Result<TcpStream> {
        std::future::poll_fn(|cx| {
            let w = world::get();
            if w.connect_pending > 0 {
                w.connect_pending -= 1;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Poll::Ready(())
        })
        .await;
        let w = world::get();
        w.connects += 1;
        match w.connect_err {
            Some(k) => Err(k.into()),
            None => Ok(TcpStream(())),
        }
    }
    pub fn set_nodelay(&self, _v: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        (tcp::OwnedReadHalf(()), tcp::OwnedWriteHalf(()))
    }
}

fn do_read(cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let w = world::get();
    w.reads += 1;
    match w.rx.front_mut() {
        None => {
            w.rd_waker = Some(cx.waker().clone());
            Poll::Pending
        }
        Some(Seg::Eof) => Poll::Ready(Ok(())),
        Some(Seg::Pending) => {
            w.rx.pop_front();
            cx.waker().wake_by_ref();
            Poll::Pending
        }
        Some(Seg::Err(k)) => {
            let k = *k;
            w.rx.pop_front();
            Poll::Ready(Err(k.into()))
        }
        Some(Seg::Data(d)) => {
            let n = d.len().min(buf.remaining());
            buf.put_slice(&d[..n]);
            if n == d.len() {
                w.rx.pop_front();
            } else {
                d.drain(..n);
            }
            Poll::Ready(Ok(()))
        }
    }
}
fn do_write(cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    let w = world::get();
    w.writes += 1;
    let n = match w.wr.pop_front() {
        None => buf.len(),
        Some(Wr::Part(n)) => n.min(buf.len()),
        Some(Wr::Pending) => {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Some(Wr::Block) => {
            w.wr.push_front(Wr::Block);
            w.wr_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Some(Wr::Zero) => 0,
        Some(Wr::Err(k)) => return Poll::Ready(Err(k.into())),
    };
    w.tx.extend_from_slice(&buf[..n]);
    Poll::Ready(Ok(n))
}
fn do_flush() -> Poll<io::Result<()>> {
    match world::get().flush_err.take() {
        Some(k) => Poll::Ready(Err(k.into())),
        None => Poll::Ready(Ok(())),
    }
}

macro_rules! rd {
    ($t:ty) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                do_read(cx, buf)
            }
        }
    };
}
macro_rules! wr {
    ($t:ty) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                do_write(cx, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                do_flush()
            }
            fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
        }
    };
}
rd!(TcpStream);
wr!(TcpStream);

pub mod tcp {
    use super::*;
    #[derive(Debug)]
    pub struct OwnedReadHalf(pub(crate) ());
    #[derive(Debug)]
    pub struct OwnedWriteHalf(pub(crate) ());
    rd!(OwnedReadHalf);
    wr!(OwnedWriteHalf);
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            world::get().dropped += 1;
        }
    }
}
