pub use real::*;

pub mod memory {
    use real::path::Path;
    use real::*;
    use std::fmt;

    /// A store the simulation provides, or the real in-memory one.
    #[derive(Debug)]
    pub struct InMemory(Box<dyn ObjectStore>);
    impl InMemory {
        pub fn new() -> Self {
            InMemory(match asim::store::provided() {
                Some(s) => Box::new(s),
                None => Box::new(real::memory::InMemory::new()),
            })
        }
    }
    impl Default for InMemory {
        fn default() -> Self {
            Self::new()
        }
    }
    impl fmt::Display for InMemory {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "InMemory")
        }
    }
    #[async_trait::async_trait]
    impl ObjectStore for InMemory {
        async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> Result<PutResult> {
            self.0.put_opts(l, p, o).await
        }
        async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
            self.0.put_multipart_opts(l, o).await
        }
        async fn get_opts(&self, l: &Path, o: GetOptions) -> Result<GetResult> {
            self.0.get_opts(l, o).await
        }
        async fn delete(&self, l: &Path) -> Result<()> {
            self.0.delete(l).await
        }
        fn list(&self, p: Option<&Path>) -> futures::stream::BoxStream<'_, Result<ObjectMeta>> {
            self.0.list(p)
        }
        async fn list_with_delimiter(&self, p: Option<&Path>) -> Result<ListResult> {
            self.0.list_with_delimiter(p).await
        }
        async fn copy(&self, a: &Path, b: &Path) -> Result<()> {
            self.0.copy(a, b).await
        }
        async fn copy_if_not_exists(&self, a: &Path, b: &Path) -> Result<()> {
            self.0.copy_if_not_exists(a, b).await
        }
    }
}
