//! tokio with simulated TCP: what the worker gateway is built against under simulation.
pub use real_tokio::*;

pub mod net {
    use real_tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
    use real_tokio::time::Sleep;
    use std::collections::VecDeque;
    use std::future::Future;
    use std::io::{self, ErrorKind};
    use std::net::SocketAddr;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex, MutexGuard};
    use std::task::{Context, Poll, Waker};
    use std::time::Duration;

    #[derive(Debug, Default)]
    struct Half {
        buf: VecDeque<u8>,
        cap: usize,
        fin: bool,
        reset: bool,
        gone: bool,
        reader: Option<Waker>,
        writer: Option<Waker>,
    }
    impl Half {
        fn wake(&mut self) {
            self.reader.take().into_iter().chain(self.writer.take()).for_each(|w| w.wake());
        }
    }
    type Pipe = Arc<Mutex<Half>>;
    fn lock(p: &Pipe) -> MutexGuard<'_, Half> {
        p.lock().unwrap_or_else(|e| e.into_inner())
    }
    #[derive(Debug)]
    pub struct TcpStream {
        rd: Pipe,
        wr: Pipe,
        /// largest read or write at once
        chunk: usize,
        user_timeout: Mutex<Option<Duration>>,
        stalled: Option<Pin<Box<Sleep>>>,
        id: Option<usize>,
        peer: SocketAddr,
    }
    pub fn pair(peer: SocketAddr, cap: usize, chunk: usize) -> (TcpStream, TcpStream) {
        let h = || Arc::new(Mutex::new(Half { cap, ..Default::default() }));
        let (a, b) = (h(), h());
        let s = |rd: &Pipe, wr: &Pipe| TcpStream {
            rd: rd.clone(), wr: wr.clone(), chunk, user_timeout: Mutex::new(None), stalled: None, id: None, peer,
        };
        (s(&a, &b), s(&b, &a))
    }
    impl TcpStream {
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
        pub fn set_user_timeout(&self, d: Option<Duration>) {
            *self.user_timeout.lock().unwrap() = d;
        }
        /// Tear the connection down both ways.
        pub fn reset(&self) {
            for p in [&self.rd, &self.wr] {
                let mut h = lock(p);
                h.reset = true;
                h.wake();
            }
        }
    }
    impl AsyncRead for TcpStream {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let mut h = lock(&self.rd);
            if h.reset {
                return Poll::Ready(Err(ErrorKind::ConnectionReset.into()));
            }
            if h.buf.is_empty() {
                if h.fin {
                    return Poll::Ready(Ok(()));
                }
                h.reader = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let n = h.buf.len().min(out.remaining()).min(self.chunk);
            let data: Vec<u8> = h.buf.drain(..n).collect();
            out.put_slice(&data);
            if let Some(w) = h.writer.take() {
                w.wake();
            }
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncWrite for TcpStream {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
            let this = &mut *self;
            let mut h = lock(&this.wr);
            if h.reset {
                return Poll::Ready(Err(ErrorKind::ConnectionReset.into()));
            }
            if h.gone || h.fin {
                return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
            }
            let n = (h.cap - h.buf.len()).min(data.len()).min(this.chunk);
            if n == 0 && !data.is_empty() {
                h.writer = Some(cx.waker().clone());
                drop(h);
                if let Some(d) = *this.user_timeout.lock().unwrap() {
                    let s = this.stalled.get_or_insert_with(|| Box::pin(real_tokio::time::sleep(d)));
                    if s.as_mut().poll(cx).is_ready() {
                        this.reset();
                        return Poll::Ready(Err(ErrorKind::TimedOut.into()));
                    }
                }
                return Poll::Pending;
            }
            this.stalled = None;
            h.buf.extend(&data[..n]);
            if let Some(w) = h.reader.take() {
                w.wake();
            }
            Poll::Ready(Ok(n))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            let mut h = lock(&self.wr);
            h.fin = true;
            h.wake();
            Poll::Ready(Ok(()))
        }
    }
    impl Drop for TcpStream {
        fn drop(&mut self) {
            {
                let mut h = lock(&self.wr);
                h.fin = true;
                h.wake();
            }
            {
                let mut h = lock(&self.rd);
                h.gone = true;
                h.wake();
            }
            if let Some(id) = self.id {
                world(|w| w.log.push((id, false)));
                if let Some(f) = world(|w| w.observer.clone()) {
                    f(id, false);
                }
            }
        }
    }
    /// What connects the one simulated listener with its clients.
    #[derive(Default)]
    pub struct World {
        backlog: VecDeque<(usize, TcpStream)>,
        listening: bool,
        waker: Option<Waker>,
        /// this many accepts fail
        pub accept_errors: u64,
        /// (connection, accepted or closed by the gateway)
        pub log: Vec<(usize, bool)>,
        pub observer: Option<Arc<dyn Fn(usize, bool) + Send + Sync>>,
    }
    static WORLD: Mutex<Option<World>> = Mutex::new(None);
    pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
        f(WORLD.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(World::default))
    }
    /// A client connects; its end of the connection, unless nobody listens.
    pub fn connect(id: usize, peer: SocketAddr, cap: usize, chunk: usize) -> Option<TcpStream> {
        if !world(|w| w.listening) {
            return None;
        }
        let (a, mut b) = pair(peer, cap, chunk);
        b.id = Some(id);
        let w = world(|w| {
            if !w.listening {
                return Err(b);
            }
            w.backlog.push_back((id, b));
            Ok(w.waker.take())
        });
        let w = match w {
            Ok(w) => w,
            Err(mut b) => {
                b.id = None;
                return None;
            }
        };
        if let Some(w) = w {
            w.wake();
        }
        Some(a)
    }
    #[derive(Debug)]
    pub struct TcpListener(SocketAddr);
    impl TcpListener {
        pub async fn bind(addr: SocketAddr) -> io::Result<Self> {
            world(|w| w.listening = true);
            Ok(Self(addr))
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.0)
        }
        pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            let (id, s) = std::future::poll_fn(|cx| {
                world(|w| {
                    if w.backlog.is_empty() {
                        w.waker = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                    if w.accept_errors > 0 {
                        w.accept_errors -= 1;
                        return Poll::Ready(Err(io::Error::from_raw_os_error(24)));
                    }
                    Poll::Ready(Ok(w.backlog.pop_front().unwrap()))
                })
            })
            .await?;
            if let Some(f) = world(|w| {
                w.log.push((id, true));
                w.observer.clone()
            }) {
                f(id, true);
            }
            let peer = s.peer;
            Ok((s, peer))
        }
    }
    impl Drop for TcpListener {
        fn drop(&mut self) {
            let left = world(|w| {
                w.listening = false;
                std::mem::take(&mut w.backlog)
            });
            for (_, mut s) in left {
                s.id = None;
                s.reset();
            }
        }
    }
}
