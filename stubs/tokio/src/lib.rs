pub use real::*;

pub fn spawn<F>(f: F) -> real::task::JoinHandle<F::Output>
where
    F: std::future::Future + Send + 'static,
    F::Output: Send + 'static,
{
    if !asim::active() {
        return real::spawn(f);
    }
    let name = format!("{}'", asim::client().trim_end_matches('\''));
    asim::count("tasks spawned");
    real::spawn(asim::CLIENT.scope(name, async move {
        asim::op("starts a task", false, false).await;
        let mut f = Box::pin(f);
        std::future::poll_fn(move |cx| {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(cx))) {
                Ok(p) => p,
                Err(e) => {
                    asim::count("background panics");
                    asim::note("a background task panicked");
                    std::panic::resume_unwind(e)
                }
            }
        })
        .await
    }))
}

pub mod task {
    pub use super::spawn;
    pub use real::task::*;
}

pub mod fs {
    pub use real::fs::*;

    use asim::{op, Verdict};
    use std::io;
    use std::path::{Path, PathBuf};

    fn name(p: &Path) -> String {
        let n = p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
        // long hashed names
        let mut parts: Vec<String> = n.split(['-', '.']).map(|s| if s.len() > 12 { s[..6].to_string() } else { s.to_string() }).collect();
        parts.truncate(4);
        parts.join("-")
    }
    fn eio() -> io::Error {
        io::Error::from_raw_os_error(5)
    }
    fn enospc() -> io::Error {
        io::Error::from_raw_os_error(28)
    }
    async fn step(what: &str, p: &Path, after: bool) -> io::Result<Verdict> {
        match op(format!("file {what} {}", name(p)), true, after).await {
            Verdict::Fail => Err(if what == "open" { enospc() } else { eio() }),
            v => Ok(v),
        }
    }

    pub async fn write(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> io::Result<()> {
        if !asim::active() {
            return real::fs::write(path, contents).await;
        }
        use std::io::Write;
        let path: PathBuf = path.as_ref().into();
        let data = contents.as_ref().to_vec();
        step("open", &path, false).await?;
        let mut f = std::fs::File::create(&path)?;
        let half = if data.len() > 1 { 1 + asim::choose(data.len() as u32 - 1) as usize } else { data.len() };
        let mut at = 0;
        for end in [half, data.len()] {
            if at == end {
                continue;
            }
            if step("write", &path, true).await? == Verdict::FailAfter {
                // a full disk takes what fits
                let n = at + (end - at) / 2;
                f.write_all(&data[at..n])?;
                return Err(enospc());
            }
            f.write_all(&data[at..end])?;
            at = end;
        }
        Ok(())
    }
    pub async fn read(path: impl AsRef<Path>) -> io::Result<Vec<u8>> {
        if !asim::active() {
            return real::fs::read(path).await;
        }
        use std::io::Read;
        let path: PathBuf = path.as_ref().into();
        step("open", &path, false).await?;
        let mut f = std::fs::File::open(&path)?;
        step("read", &path, false).await?;
        let mut v = vec![];
        f.read_to_end(&mut v)?;
        Ok(v)
    }
    pub async fn read_to_string(path: impl AsRef<Path>) -> io::Result<String> {
        String::from_utf8(read(path).await?).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
    }
    macro_rules! one {
        ($what:literal, $p:expr, $e:expr) => {{
            if asim::active() && step($what, $p, false).await? == Verdict::FailAfter {
                let _ = $e;
                return Err(eio());
            }
            $e
        }};
    }
    pub async fn remove_file(path: impl AsRef<Path>) -> io::Result<()> {
        one!("remove", path.as_ref(), std::fs::remove_file(path.as_ref()))
    }
    pub async fn rename(from: impl AsRef<Path>, to: impl AsRef<Path>) -> io::Result<()> {
        one!("rename", to.as_ref(), std::fs::rename(from.as_ref(), to.as_ref()))
    }
    pub async fn create_dir_all(path: impl AsRef<Path>) -> io::Result<()> {
        one!("mkdir", path.as_ref(), std::fs::create_dir_all(path.as_ref()))
    }
    pub async fn create_dir(path: impl AsRef<Path>) -> io::Result<()> {
        one!("mkdir", path.as_ref(), std::fs::create_dir(path.as_ref()))
    }
    pub async fn remove_dir_all(path: impl AsRef<Path>) -> io::Result<()> {
        one!("rmdir", path.as_ref(), std::fs::remove_dir_all(path.as_ref()))
    }
    pub async fn hard_link(from: impl AsRef<Path>, to: impl AsRef<Path>) -> io::Result<()> {
        one!("link", to.as_ref(), std::fs::hard_link(from.as_ref(), to.as_ref()))
    }
    pub async fn copy(from: impl AsRef<Path>, to: impl AsRef<Path>) -> io::Result<u64> {
        if !asim::active() {
            return real::fs::copy(from, to).await;
        }
        let d = read(from).await?;
        write(to, &d).await?;
        Ok(d.len() as u64)
    }
    pub async fn metadata(path: impl AsRef<Path>) -> io::Result<std::fs::Metadata> {
        if asim::active() {
            step("stat", path.as_ref(), false).await?;
        }
        std::fs::metadata(path.as_ref())
    }
    pub async fn try_exists(path: impl AsRef<Path>) -> io::Result<bool> {
        if asim::active() {
            step("stat", path.as_ref(), false).await?;
        }
        path.as_ref().try_exists()
    }

    /// A file used without blocking threads.
    #[derive(Debug)]
    pub struct File(std::fs::File);
    impl File {
        pub async fn open(path: impl AsRef<Path>) -> io::Result<File> {
            if asim::active() {
                step("open", path.as_ref(), false).await?;
            }
            Ok(File(std::fs::File::open(path.as_ref())?))
        }
        pub async fn create(path: impl AsRef<Path>) -> io::Result<File> {
            if asim::active() {
                step("open", path.as_ref(), false).await?;
            }
            Ok(File(std::fs::File::create(path.as_ref())?))
        }
        pub fn from_std(f: std::fs::File) -> File {
            File(f)
        }
        pub async fn sync_all(&self) -> io::Result<()> {
            self.0.sync_all()
        }
        pub async fn sync_data(&self) -> io::Result<()> {
            self.0.sync_data()
        }
        pub async fn set_len(&self, n: u64) -> io::Result<()> {
            self.0.set_len(n)
        }
        pub async fn metadata(&self) -> io::Result<std::fs::Metadata> {
            self.0.metadata()
        }
    }
    use std::pin::Pin;
    use std::task::{Context, Poll};
    impl real::io::AsyncRead for File {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut real::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
            use std::io::Read;
            if asim::immediate("file read") {
                return Poll::Ready(Err(eio()));
            }
            let n = (&self.get_mut().0).read(buf.initialize_unfilled())?;
            buf.advance(n);
            Poll::Ready(Ok(()))
        }
    }
    impl real::io::AsyncWrite for File {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            use std::io::Write;
            if asim::immediate("file write") {
                return Poll::Ready(Err(enospc()));
            }
            Poll::Ready((&self.get_mut().0).write(b))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}
