//! A simulated object store: object_store's in-memory one behind operations of the simulator.
use crate::{count, op, Verdict};
use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::{self, BoxStream, StreamExt, TryStreamExt};
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::*;
use std::fmt;
use std::ops::Range;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone)]
pub struct Done {
    pub at: usize,
    pub kind: &'static str,
    pub path: String,
    pub ok: bool,
    pub client: String,
}
#[derive(Debug, Default, Clone)]
pub struct SimStore {
    pub inner: Arc<InMemory>,
    /// Every request that reached the store: kind, path, range, when.
    pub requests: Arc<Mutex<Vec<(String, String, Option<Range<usize>>, u64)>>>,
    /// Changes the store made: how many requests came before, what it was, where, whether it happened, for whom.
    pub done: Arc<Mutex<Vec<Done>>>,
    /// Objects that were deleted.
    pub trash: Arc<Mutex<std::collections::BTreeMap<String, Bytes>>>,
    pub name: String,
    /// While set, every request is refused at once.
    pub offline: Arc<std::sync::atomic::AtomicBool>,
}

impl fmt::Display for SimStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimStore")
    }
}

fn broken(what: &str) -> Error {
    Error::Generic { store: "sim", source: format!("injected: {what}").into() }
}

impl SimStore {
    pub fn new(name: &str) -> Self {
        SimStore { inner: Arc::new(InMemory::new()), requests: Default::default(), done: Default::default(), trash: Default::default(), name: name.into(), offline: Default::default() }
    }
    fn seen(&self, k: &str, p: &Path, r: Option<Range<usize>>) {
        let mut q = self.requests.lock().unwrap();
        if q.len() < 100_000 {
            q.push((k.into(), p.to_string(), r, crate::sys::elapsed_us()));
        }
        drop(q);
        count(&format!("store {k}"));
    }
    fn did(&self, kind: &'static str, p: &Path, ok: bool) {
        let at = self.requests.lock().unwrap().len();
        self.done.lock().unwrap().push(Done { at, kind, path: p.to_string(), ok, client: crate::client() });
    }
    async fn before(&self, k: &str, p: &Path, after: bool) -> Result<Verdict> {
        if self.offline.load(std::sync::atomic::Ordering::SeqCst) {
            return Err(broken("unreachable"));
        }
        match op(format!("{}{k} {p}", self.name), true, after).await {
            Verdict::Fail => Err(broken(k)),
            v => Ok(v),
        }
    }
}

#[async_trait]
impl ObjectStore for SimStore {
    async fn put_opts(&self, location: &Path, payload: PutPayload, opts: PutOptions) -> Result<PutResult> {
        let v = self.before("put", location, true).await?;
        self.seen("put", location, None);
        let r = self.inner.put_opts(location, payload, opts).await;
        self.did("put", location, r.is_ok());
        if v == Verdict::FailAfter {
            return Err(broken("put, answer lost"));
        }
        r
    }
    async fn put_multipart_opts(&self, location: &Path, opts: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
        self.before("multipart", location, false).await?;
        self.seen("multipart", location, None);
        let up = self.inner.put_multipart_opts(location, opts).await?;
        Ok(Box::new(Upload { store: self.clone(), location: location.clone(), up }))
    }
    async fn get_opts(&self, location: &Path, options: GetOptions) -> Result<GetResult> {
        let range = match &options.range {
            Some(GetRange::Bounded(r)) => Some(r.clone()),
            _ => None,
        };
        let head = options.head;
        let k = if head { "head" } else { "get" };
        let v = self.before(k, location, !head).await?;
        self.seen(k, location, range);
        let r = self.inner.get_opts(location, options).await?;
        if v == Verdict::FailAfter {
            // the connection breaks half way through the body
            let (meta, range, attributes) = (r.meta.clone(), r.range.clone(), r.attributes.clone());
            let b = r.bytes().await?;
            let half = b.slice(0..b.len() / 2);
            let s = stream::iter(vec![Ok(half), Err(broken("get, body cut off"))]).boxed();
            return Ok(GetResult { payload: GetResultPayload::Stream(s), meta, range, attributes });
        }
        Ok(r)
    }
    async fn delete(&self, location: &Path) -> Result<()> {
        let v = self.before("delete", location, true).await?;
        self.seen("delete", location, None);
        if let Ok(g) = self.inner.get(location).await {
            if let Ok(b) = g.bytes().await {
                self.trash.lock().unwrap().insert(location.to_string(), b);
            }
        }
        let r = self.inner.delete(location).await;
        self.did("delete", location, r.is_ok());
        if v == Verdict::FailAfter {
            return Err(broken("delete, answer lost"));
        }
        r
    }
    fn list(&self, prefix: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        let prefix = prefix.cloned();
        stream::once(async move {
            let p = prefix.clone().unwrap_or_default();
            let v = match self.before("list", &p, true).await {
                Ok(v) => v,
                Err(e) => return stream::iter(vec![Err(e)]).boxed(),
            };
            self.seen("list", &p, None);
            let mut all: Vec<Result<ObjectMeta>> = self.inner.list(prefix.as_ref()).collect().await;
            if v == Verdict::FailAfter {
                all.truncate(all.len() / 2);
                all.push(Err(broken("list, cut off")));
            }
            stream::iter(all).boxed()
        })
        .flatten()
        .boxed()
    }
    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> Result<ListResult> {
        self.before("list", &prefix.cloned().unwrap_or_default(), false).await?;
        self.seen("list", &prefix.cloned().unwrap_or_default(), None);
        self.inner.list_with_delimiter(prefix).await
    }
    async fn copy(&self, from: &Path, to: &Path) -> Result<()> {
        let v = self.before("copy", to, true).await?;
        self.seen("copy", to, None);
        let r = self.inner.copy(from, to).await;
        self.did("put", to, r.is_ok());
        if v == Verdict::FailAfter {
            return Err(broken("copy, answer lost"));
        }
        r
    }
    async fn copy_if_not_exists(&self, from: &Path, to: &Path) -> Result<()> {
        let v = self.before("copy_if_not_exists", to, true).await?;
        self.seen("copy_if_not_exists", to, None);
        let r = self.inner.copy_if_not_exists(from, to).await;
        self.did("put", to, r.is_ok());
        if v == Verdict::FailAfter {
            return Err(broken("copy_if_not_exists, answer lost"));
        }
        r
    }
}

struct Upload {
    store: SimStore,
    location: Path,
    up: Box<dyn MultipartUpload>,
}
impl fmt::Debug for Upload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Upload({})", self.location)
    }
}
#[async_trait]
impl MultipartUpload for Upload {
    fn put_part(&mut self, data: PutPayload) -> UploadPart {
        let (s, l) = (self.store.clone(), self.location.clone());
        let f = self.up.put_part(data);
        Box::pin(async move {
            s.before("part", &l, false).await?;
            f.await
        })
    }
    async fn complete(&mut self) -> Result<PutResult> {
        let v = self.store.before("complete", &self.location, true).await?;
        self.store.seen("complete", &self.location, None);
        let r = self.up.complete().await;
        self.store.did("put", &self.location, r.is_ok());
        if v == Verdict::FailAfter {
            return Err(broken("complete, answer lost"));
        }
        r
    }
    async fn abort(&mut self) -> Result<()> {
        self.store.before("abort", &self.location, false).await?;
        self.up.abort().await
    }
}

/// What the store holds, without going through the simulation.
pub async fn contents(s: &InMemory) -> Vec<(String, Bytes)> {
    let l: Vec<ObjectMeta> = s.list(None).try_collect().await.unwrap_or_default();
    let mut v = vec![];
    for m in l {
        if let Ok(r) = s.get(&m.location).await {
            v.push((m.location.to_string(), r.bytes().await.unwrap_or_default()));
        }
    }
    v.sort();
    v
}

thread_local! {
    static PROVIDED: std::cell::RefCell<Option<SimStore>> = const { std::cell::RefCell::new(None) };
}
/// The store that stands in for an in-memory one the code under test creates.
pub fn provide(s: Option<SimStore>) {
    PROVIDED.with(|p| *p.borrow_mut() = s);
}
pub fn provided() -> Option<SimStore> {
    PROVIDED.with(|p| p.borrow().clone())
}
