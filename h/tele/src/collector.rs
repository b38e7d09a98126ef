//! A server on the loopback interface taking OTLP exports over HTTP/1 and gRPC.
use bytes::Bytes;
use http_body_util::{BodyExt, StreamBody};
use hyper::body::{Frame, Incoming};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    convert::Infallible,
    sync::{Arc, Mutex, OnceLock},
};

#[derive(Clone, Debug)]
pub struct Export {
    pub grpc: bool,
    pub path: String,
    pub headers: BTreeMap<String, String>,
    /// The message, without what gRPC puts around it.
    pub message: Vec<u8>,
}

pub struct Collector {
    pub port: u16,
    taken: Arc<Mutex<Vec<Export>>>,
    task: tokio::task::JoinHandle<()>,
}

pub fn runtime() -> &'static tokio::runtime::Runtime {
    static RUNTIME: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RUNTIME.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap())
}

async fn answer(
    request: http::Request<Incoming>,
    taken: Arc<Mutex<Vec<Export>>>,
) -> Result<http::Response<impl http_body::Body<Data = Bytes, Error = Infallible>>, Infallible> {
    let grpc = request.headers().get("content-type").is_some_and(|v| v.as_bytes().starts_with(b"application/grpc"));
    let path = request.uri().path_and_query().map(|p| p.to_string()).unwrap_or_default();
    let headers = request
        .headers()
        .iter()
        .map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).to_string()))
        .collect();
    let body = request.into_body().collect().await.map(|b| b.to_bytes()).unwrap_or_default();
    let message = if grpc && body.len() >= 5 { body[5..].to_vec() } else { body.to_vec() };
    taken.lock().unwrap().push(Export { grpc, path, headers, message });
    let mut frames = Vec::new();
    let mut response = http::Response::builder();
    if grpc {
        response = response.header("content-type", "application/grpc");
        frames.push(Ok(Frame::data(Bytes::from_static(&[0; 5]))));
        let mut trailers = http::HeaderMap::new();
        trailers.insert("grpc-status", http::HeaderValue::from_static("0"));
        frames.push(Ok(Frame::trailers(trailers)));
    }
    let body = StreamBody::new(Frames(frames.into_iter()));
    Ok(response.body(body).unwrap())
}

struct Frames(std::vec::IntoIter<Result<Frame<Bytes>, Infallible>>);

impl futures_core::Stream for Frames {
    type Item = Result<Frame<Bytes>, Infallible>;

    fn poll_next(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
        std::task::Poll::Ready(self.0.next())
    }
}

impl Collector {
    pub fn bind(port: u16) -> std::io::Result<Self> {
        let listener = std::net::TcpListener::bind(("127.0.0.1", port))?;
        listener.set_nonblocking(true)?;
        let port = listener.local_addr()?.port();
        let taken: Arc<Mutex<Vec<Export>>> = Default::default();
        let shared = taken.clone();
        let task = runtime().spawn(async move {
            let listener = tokio::net::TcpListener::from_std(listener).unwrap();
            loop {
                let Ok((stream, _)) = listener.accept().await else { continue };
                let shared = shared.clone();
                tokio::spawn(async move {
                    let service = hyper::service::service_fn(move |r| answer(r, shared.clone()));
                    let builder = hyper_util::server::conn::auto::Builder::new(hyper_util::rt::TokioExecutor::new());
                    let _ = builder.serve_connection(hyper_util::rt::TokioIo::new(stream), service).await;
                });
            }
        });
        Ok(Collector { port, taken, task })
    }

    /// Frees the port.
    pub fn stop(&self) {
        self.task.abort();
        while !self.task.is_finished() {
            std::thread::yield_now();
        }
    }

    /// What arrived since the last time.
    pub fn take(&self) -> Vec<Export> {
        std::mem::take(&mut self.taken.lock().unwrap())
    }
}

/// The collectors of this thread.
pub fn with<R>(count: usize, f: impl FnOnce(&[Arc<Collector>]) -> R) -> R {
    thread_local! {
        static POOL: RefCell<Vec<Arc<Collector>>> = const { RefCell::new(Vec::new()) };
    }
    let pool: Vec<Arc<Collector>> = POOL.with(|pool| {
        let mut pool = pool.borrow_mut();
        while pool.len() < count {
            pool.push(Arc::new(Collector::bind(0).unwrap()));
        }
        pool[..count].to_vec()
    });
    for collector in &pool {
        collector.take();
    }
    f(&pool)
}
