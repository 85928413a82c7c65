//! The part of reqwest the worker gateway uses, towards simulated upstreams.
use bytes::Bytes;
use futures::{future::BoxFuture, stream::BoxStream, Stream, StreamExt};
pub use http::{header, HeaderMap, HeaderName, HeaderValue, Method, StatusCode};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use tokio::time::{sleep_until, timeout_at, Instant};
pub use url::Url;

/// What a simulated upstream is asked and answers. A future of `connect` or `serve` that never ends is
/// an upstream that hangs; `Err` is a connection refused or broken.
pub struct Ask {
    pub method: Method,
    pub url: Url,
    pub headers: HeaderMap,
    pub body: Bytes,
}
pub struct Answer {
    pub status: StatusCode,
    pub headers: HeaderMap,
    pub body: BoxStream<'static, Result<Bytes, ()>>,
}
pub trait Upstream: Send + Sync {
    fn connect(&self, ask: Arc<Ask>) -> BoxFuture<'static, Result<(), ()>>;
    fn serve(&self, ask: Arc<Ask>) -> BoxFuture<'static, Result<Answer, ()>>;
}
static UPSTREAM: Mutex<Option<Arc<dyn Upstream>>> = Mutex::new(None);
pub fn set_upstream(u: Arc<dyn Upstream>) {
    *UPSTREAM.lock().unwrap() = Some(u);
}

#[derive(Debug)]
enum Kind {
    Connect,
    Timeout,
    Broken,
    Status(StatusCode),
    Decode,
    Builder,
}
#[derive(Debug)]
pub struct Error(Kind);
impl Error {
    pub fn is_timeout(&self) -> bool {
        matches!(self.0, Kind::Timeout)
    }
    pub fn is_connect(&self) -> bool {
        matches!(self.0, Kind::Connect)
    }
    pub fn is_request(&self) -> bool {
        matches!(self.0, Kind::Broken | Kind::Connect)
    }
    pub fn is_body(&self) -> bool {
        matches!(self.0, Kind::Broken)
    }
    pub fn is_decode(&self) -> bool {
        matches!(self.0, Kind::Decode)
    }
    pub fn is_builder(&self) -> bool {
        matches!(self.0, Kind::Builder)
    }
    pub fn is_status(&self) -> bool {
        matches!(self.0, Kind::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.0 {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

#[derive(Clone, Debug, Default)]
pub struct Client {
    connect_timeout: Option<Duration>,
    timeout: Option<Duration>,
}
#[derive(Debug, Default)]
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn connect_timeout(mut self, d: Duration) -> Self {
        self.0.connect_timeout = Some(d);
        self
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.0.timeout = Some(d);
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(self.0)
    }
}
impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    pub fn request(&self, method: Method, url: Url) -> RequestBuilder {
        RequestBuilder {
            client: self.clone(),
            timeout: None,
            ask: Ask { method, url, headers: HeaderMap::new(), body: Bytes::new() },
            bad: false,
        }
    }
    pub fn get(&self, url: Url) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post(&self, url: Url) -> RequestBuilder {
        self.request(Method::POST, url)
    }
}
pub struct RequestBuilder {
    client: Client,
    timeout: Option<Duration>,
    ask: Ask,
    bad: bool,
}
impl RequestBuilder {
    pub fn header<K, V>(mut self, k: K, v: V) -> Self
    where
        K: TryInto<HeaderName>,
        V: TryInto<HeaderValue>,
    {
        match (k.try_into(), v.try_into()) {
            (Ok(k), Ok(v)) => {
                self.ask.headers.append(k, v);
            }
            _ => self.bad = true,
        }
        self
    }
    pub fn headers(mut self, h: HeaderMap) -> Self {
        for k in h.keys() {
            self.ask.headers.remove(k);
        }
        for (k, v) in &h {
            self.ask.headers.append(k, v.clone());
        }
        self
    }
    pub fn body<B: Into<Bytes>>(mut self, b: B) -> Self {
        self.ask.body = b.into();
        self
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.timeout = Some(d);
        self
    }
    pub async fn send(self) -> Result<Response> {
        if self.bad {
            return Err(Error(Kind::Builder));
        }
        let up = UPSTREAM.lock().unwrap().clone().unwrap();
        let deadline = self.timeout.or(self.client.timeout).map(|d| Instant::now() + d);
        let ask = Arc::new(self.ask);
        let far = Instant::now() + Duration::from_secs(1 << 30);
        let connect = self.client.connect_timeout.map(|d| Instant::now() + d).unwrap_or(far);
        match timeout_at(connect.min(deadline.unwrap_or(far)), up.connect(ask.clone())).await {
            Err(_) => return Err(Error(Kind::Timeout)),
            Ok(Err(())) => return Err(Error(Kind::Connect)),
            Ok(Ok(())) => (),
        }
        let a = match timeout_at(deadline.unwrap_or(far), up.serve(ask)).await {
            Err(_) => return Err(Error(Kind::Timeout)),
            Ok(Err(())) => return Err(Error(Kind::Broken)),
            Ok(Ok(a)) => a,
        };
        Ok(Response { status: a.status, headers: a.headers, body: a.body, deadline })
    }
}
pub struct Response {
    status: StatusCode,
    headers: HeaderMap,
    body: BoxStream<'static, Result<Bytes, ()>>,
    deadline: Option<Instant>,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error(Kind::Status(self.status)));
        }
        Ok(self)
    }
    pub fn bytes_stream(self) -> impl Stream<Item = Result<Bytes>> + Send + 'static {
        let mut body = self.body;
        let mut sleep = self.deadline.map(|d| Box::pin(sleep_until(d)));
        let mut over = false;
        futures::stream::poll_fn(move |cx| {
            if over {
                return Poll::Ready(None);
            }
            // like reqwest's: the time limit is only looked at when the body is polled
            if let Some(s) = &mut sleep {
                if Pin::new(s).poll(cx).is_ready() {
                    over = true;
                    return Poll::Ready(Some(Err(Error(Kind::Timeout))));
                }
            }
            match body.poll_next_unpin(cx) {
                Poll::Ready(Some(Err(()))) => {
                    over = true;
                    Poll::Ready(Some(Err(Error(Kind::Broken))))
                }
                Poll::Ready(Some(Ok(b))) => Poll::Ready(Some(Ok(b))),
                Poll::Ready(None) => Poll::Ready(None),
                Poll::Pending => Poll::Pending,
            }
        })
    }
    pub async fn bytes(self) -> Result<Bytes> {
        let mut s = Box::pin(self.bytes_stream());
        let mut all = vec![];
        while let Some(c) = s.next().await {
            all.extend_from_slice(&c?);
        }
        Ok(all.into())
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.bytes().await?).map_err(|_| Error(Kind::Decode))
    }
}
