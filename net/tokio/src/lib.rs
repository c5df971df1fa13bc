//! tokio on a simulated network: sockets, tasks and the runtime are those of
//! the simulation (`sim`), everything else is the real tokio's.
pub use real::{join, pin, prelude, select, stream, sync, try_join};
pub use sim_macros::main;

pub mod sim;

pub mod io {
    //! The real tokio's, but for the standard streams, which are those of the
    //! simulation.
    pub use real::io::*;
    use crate::sim;
    pub use std::io::Result;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    #[derive(Debug)]
    pub struct Stdin(usize);
    #[derive(Debug)]
    pub struct Stdout(usize);
    #[derive(Debug)]
    pub struct Stderr(());
    pub fn stdin() -> Stdin {
        Stdin(sim::stdio())
    }
    pub fn stdout() -> Stdout {
        Stdout(sim::stdio())
    }
    pub fn stderr() -> Stderr {
        Stderr(())
    }
    impl AsyncRead for Stdin {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
            sim::poll_read(cx, self.0, 1, buf)
        }
    }
    impl AsyncWrite for Stdout {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
            sim::poll_print(cx, self.0, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            sim::poll_flush(cx, self.0)
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            self.poll_flush(cx)
        }
    }
    impl AsyncWrite for Stderr {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
            Poll::Ready(Ok(buf.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}

pub mod net {
    //! TCP on the simulated network.
    pub use self::tcp::{listener::TcpListener, stream::TcpStream};
    use std::io;
    use std::net::*;

    pub trait ToSocketAddrs {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>>;
    }
    impl ToSocketAddrs for SocketAddr {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            Ok(vec![*self])
        }
    }
    impl ToSocketAddrs for SocketAddrV4 {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            Ok(vec![(*self).into()])
        }
    }
    impl ToSocketAddrs for SocketAddrV6 {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            Ok(vec![(*self).into()])
        }
    }
    impl<I: Into<IpAddr> + Copy> ToSocketAddrs for (I, u16) {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            Ok(vec![SocketAddr::new(self.0.into(), self.1)])
        }
    }
    impl ToSocketAddrs for [SocketAddr] {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            Ok(self.to_vec())
        }
    }
    impl ToSocketAddrs for str {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            let s = self.replace("localhost", "127.0.0.1");
            match s.parse() {
                Ok(a) => Ok(vec![a]),
                Err(_) => Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid socket address")),
            }
        }
    }
    impl ToSocketAddrs for String {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            self.as_str().resolve()
        }
    }
    impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            (**self).resolve()
        }
    }

    pub mod tcp {
        pub use self::listener::Incoming;
        pub use self::stream::{OwnedReadHalf, OwnedWriteHalf, ReadHalf, ReuniteError, WriteHalf};
        pub(super) mod listener {
            use super::super::{TcpStream, ToSocketAddrs};
            use crate::sim;
            use real::stream::Stream;
            use std::future::poll_fn;
            use std::io;
            use std::net::SocketAddr;
            use std::pin::Pin;
            use std::task::{Context, Poll};

            #[derive(Debug)]
            pub struct TcpListener {
                addr: SocketAddr,
                world: u64,
            }

            impl TcpListener {
                pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
                    let mut last = io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any addresses");
                    for a in addr.resolve()? {
                        match sim::bind(a) {
                            Ok(()) => return Ok(TcpListener { addr: a, world: sim::world() }),
                            Err(e) => last = e,
                        }
                    }
                    Err(last)
                }
                pub async fn accept(&mut self) -> io::Result<(TcpStream, SocketAddr)> {
                    poll_fn(|cx| self.poll_accept(cx)).await
                }
                pub fn poll_accept(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
                    match sim::poll_accept(cx) {
                        Poll::Pending => Poll::Pending,
                        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                        Poll::Ready(Ok(c)) => Poll::Ready(Ok((TcpStream::of(c, 1), sim::addr(c)))),
                    }
                }
                pub fn incoming(&mut self) -> Incoming<'_> {
                    Incoming(self)
                }
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    Ok(self.addr)
                }
                pub fn set_ttl(&self, _: u32) -> io::Result<()> {
                    Ok(())
                }
            }

            impl Drop for TcpListener {
                fn drop(&mut self) {
                    sim::unbind(self.world)
                }
            }

            impl Stream for TcpListener {
                type Item = io::Result<TcpStream>;
                fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
                    self.poll_accept(cx).map(|r| Some(r.map(|x| x.0)))
                }
            }

            #[derive(Debug)]
            pub struct Incoming<'a>(&'a mut TcpListener);
            impl Incoming<'_> {
                pub fn poll_accept(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<TcpStream>> {
                    self.get_mut().0.poll_accept(cx).map(|r| r.map(|x| x.0))
                }
            }
            impl Stream for Incoming<'_> {
                type Item = io::Result<TcpStream>;
                fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
                    self.poll_accept(cx).map(Some)
                }
            }
        }
        pub(super) mod stream {
            use super::super::ToSocketAddrs;
            use crate::sim;
            use real::io::{AsyncRead, AsyncWrite};
            use std::future::poll_fn;
            use std::io;
            use std::net::{Shutdown, SocketAddr};
            use std::pin::Pin;
            use std::sync::Arc;
            use std::task::{Context, Poll};
            use std::time::Duration;

            /// One end of a connection: 0 opened it, 1 accepted it.
            #[derive(Debug)]
            struct End {
                conn: usize,
                end: usize,
                world: u64,
            }
            impl Drop for End {
                fn drop(&mut self) {
                    sim::close(self.world, self.conn, self.end)
                }
            }

            #[derive(Debug)]
            pub struct TcpStream(Arc<End>);
            #[derive(Debug)]
            pub struct OwnedReadHalf(Arc<End>);
            #[derive(Debug)]
            pub struct OwnedWriteHalf(Arc<End>, bool);
            #[derive(Debug)]
            pub struct ReadHalf<'a>(&'a TcpStream);
            #[derive(Debug)]
            pub struct WriteHalf<'a>(&'a TcpStream);
            #[derive(Debug)]
            pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
            impl std::fmt::Display for ReuniteError {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("tried to reunite halves that are not from the same socket")
                }
            }
            impl std::error::Error for ReuniteError {}

            impl TcpStream {
                pub(crate) fn of(conn: usize, end: usize) -> TcpStream {
                    TcpStream(Arc::new(End { conn, end, world: sim::world() }))
                }
                pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
                    let mut last = io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address");
                    for a in addr.resolve()? {
                        match poll_fn(|cx| sim::poll_connect(cx, a)).await {
                            Ok(c) => return Ok(TcpStream::of(c, 0)),
                            Err(e) => last = e,
                        }
                    }
                    Err(last)
                }
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    sim::peer_addr(self.0.conn)
                }
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    Ok(sim::addr(self.0.conn))
                }
                pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) {
                    (OwnedReadHalf(self.0.clone()), OwnedWriteHalf(self.0, true))
                }
                pub fn split(&mut self) -> (ReadHalf<'_>, WriteHalf<'_>) {
                    (ReadHalf(self), WriteHalf(self))
                }
                pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
                    if how != Shutdown::Read {
                        sim::shut(self.0.world, self.0.conn, self.0.end);
                    }
                    if how != Shutdown::Write {
                        sim::shut_read(self.0.world, self.0.conn, self.0.end);
                    }
                    Ok(())
                }
                pub async fn peek(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    poll_fn(|cx| sim::poll_peek(cx, self.0.conn, self.0.end, buf)).await
                }
                pub fn nodelay(&self) -> io::Result<bool> {
                    Ok(false)
                }
                pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
                    Ok(())
                }
                pub fn set_keepalive(&self, _: Option<Duration>) -> io::Result<()> {
                    Ok(())
                }
                pub fn set_recv_buffer_size(&self, _: usize) -> io::Result<()> {
                    Ok(())
                }
                pub fn set_send_buffer_size(&self, _: usize) -> io::Result<()> {
                    Ok(())
                }
                pub fn set_linger(&self, _: Option<Duration>) -> io::Result<()> {
                    Ok(())
                }
                pub fn set_ttl(&self, _: u32) -> io::Result<()> {
                    Ok(())
                }
            }

            impl OwnedReadHalf {
                pub fn reunite(self, other: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
                    if Arc::ptr_eq(&self.0, &other.0) {
                        other.forget();
                        Ok(TcpStream(self.0.clone()))
                    } else {
                        Err(ReuniteError(self, other))
                    }
                }
                pub async fn peek(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    poll_fn(|cx| sim::poll_peek(cx, self.0.conn, self.0.end, buf)).await
                }
            }
            impl OwnedWriteHalf {
                pub fn reunite(self, other: OwnedReadHalf) -> Result<TcpStream, ReuniteError> {
                    other.reunite(self)
                }
                pub fn forget(mut self) {
                    self.1 = false;
                }
            }
            impl Drop for OwnedWriteHalf {
                fn drop(&mut self) {
                    if self.1 {
                        sim::shut(self.0.world, self.0.conn, self.0.end)
                    }
                }
            }
            impl AsRef<TcpStream> for ReadHalf<'_> {
                fn as_ref(&self) -> &TcpStream {
                    self.0
                }
            }

            macro_rules! read {
                ($t:ty, $x:ident, $e:expr) => {
                    impl AsyncRead for $t {
                        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                            let $x = &*self;
                            let e: &End = $e;
                            sim::poll_read(cx, e.conn, e.end, buf)
                        }
                    }
                };
            }
            macro_rules! write {
                ($t:ty, $x:ident, $e:expr) => {
                    impl AsyncWrite for $t {
                        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                            let $x = &*self;
                            let e: &End = $e;
                            sim::poll_write(cx, e.conn, e.end, buf)
                        }
                        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                            Poll::Ready(Ok(()))
                        }
                        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                            let $x = &*self;
                            let e: &End = $e;
                            sim::shut(e.world, e.conn, e.end);
                            Poll::Ready(Ok(()))
                        }
                    }
                };
            }
            read!(TcpStream, x, &x.0);
            read!(OwnedReadHalf, x, &x.0);
            read!(ReadHalf<'_>, x, &x.0.0);
            write!(TcpStream, x, &x.0);
            write!(OwnedWriteHalf, x, &x.0);
            write!(WriteHalf<'_>, x, &x.0.0);
        }
    }
}

pub use task::spawn;
pub mod task {
    //! Tasks of the simulation.
    use crate::sim;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    enum Slot<T> {
        Wait(Option<Waker>),
        Done(T),
        Panicked,
        Taken,
    }
    pub struct JoinHandle<T>(Arc<Mutex<Slot<T>>>);
    impl<T> fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("JoinHandle")
        }
    }
    #[derive(Debug)]
    pub struct JoinError(());
    impl JoinError {
        pub fn is_panic(&self) -> bool {
            true
        }
        pub fn is_cancelled(&self) -> bool {
            false
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("panic")
        }
    }
    impl std::error::Error for JoinError {}
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.0.lock().unwrap();
            match std::mem::replace(&mut *s, Slot::Taken) {
                Slot::Wait(_) => {
                    *s = Slot::Wait(Some(cx.waker().clone()));
                    Poll::Pending
                }
                Slot::Done(x) => Poll::Ready(Ok(x)),
                Slot::Panicked => Poll::Ready(Err(JoinError(()))),
                Slot::Taken => panic!("polled after it was ready"),
            }
        }
    }

    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        struct Guard<T>(Arc<Mutex<Slot<T>>>);
        fn put<T>(slot: &Mutex<Slot<T>>, x: Slot<T>) {
            let mut s = slot.lock().unwrap();
            if let Slot::Wait(w) = std::mem::replace(&mut *s, x) {
                drop(s);
                if let Some(w) = w {
                    w.wake()
                }
            }
        }
        impl<T> Drop for Guard<T> {
            fn drop(&mut self) {
                let waiting = matches!(&*self.0.lock().unwrap(), Slot::Wait(_));
                if waiting {
                    put(&self.0, Slot::Panicked)
                }
            }
        }
        let slot = Arc::new(Mutex::new(Slot::Wait(None)));
        let guard = Guard(slot.clone());
        sim::spawn(Box::pin(async move {
            let guard = guard;
            let x = f.await;
            put(&guard.0, Slot::Done(x));
        }));
        JoinHandle(slot)
    }

    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        spawn(async move { f() })
    }
    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
        f()
    }
    pub async fn yield_now() {
        let mut first = true;
        std::future::poll_fn(|cx| {
            if std::mem::take(&mut first) {
                cx.waker().wake_by_ref();
                Poll::Pending
            } else {
                Poll::Ready(())
            }
        })
        .await
    }
}

pub mod runtime {
    //! The simulation as a runtime.
    use crate::task::JoinHandle;
    use std::future::Future;
    use std::io;

    #[derive(Debug)]
    pub struct Runtime(());
    impl Runtime {
        pub fn new() -> io::Result<Runtime> {
            Ok(Runtime(()))
        }
        pub fn block_on<F: Future>(&mut self, f: F) -> F::Output {
            crate::sim::run(f)
        }
        pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::spawn(f)
        }
    }
    #[derive(Debug, Default)]
    pub struct Builder(());
    impl Builder {
        pub fn new() -> Builder {
            Builder(())
        }
        pub fn threaded_scheduler(&mut self) -> &mut Self {
            self
        }
        pub fn basic_scheduler(&mut self) -> &mut Self {
            self
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn core_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn max_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> io::Result<Runtime> {
            Runtime::new()
        }
    }
}
