//! Simulated stand-in for the parts of async-std a storage engine uses.
//!
//! The interface follows async-std 1.x; blocking, wake-up order, delays and
//! I/O results are decided by the simulator (`simrt`).  Every operation is a
//! scheduling point, before and after it takes effect, also inside `Drop`.
pub mod fs;
pub mod sync;
pub mod task;

pub mod io {
    pub use std::io::{Error, ErrorKind, Result, SeekFrom};

    // The methods of these traits are inherent to `fs::File`; the names only have to resolve.
    pub trait Read {}
    pub trait Write {}
    pub trait Seek {}
    pub trait ReadExt {}
    pub trait WriteExt {}
    pub trait SeekExt {}

    pub mod prelude {
        pub use super::{Read, ReadExt, Seek, SeekExt, Write, WriteExt};
    }

    pub async fn timeout<F, T>(dur: std::time::Duration, f: F) -> Result<T>
    where
        F: std::future::Future<Output = Result<T>>,
    {
        match crate::future::timeout(dur, f).await {
            Ok(r) => r,
            Err(_) => Err(Error::new(ErrorKind::TimedOut, "future timed out")),
        }
    }
}

pub mod path {
    use std::ffi::OsStr;

    /// Unsized path type with asynchronous queries, as in async-std.
    #[repr(transparent)]
    pub struct Path {
        inner: std::path::Path,
    }

    impl Path {
        pub fn new<S: AsRef<OsStr> + ?Sized>(s: &S) -> &Path {
            unsafe { &*(std::path::Path::new(s) as *const std::path::Path as *const Path) }
        }
        pub async fn exists(&self) -> bool {
            crate::fs::metadata(&self.inner).await.is_ok()
        }
        pub async fn is_file(&self) -> bool {
            self.exists().await
        }
        pub async fn metadata(&self) -> std::io::Result<crate::fs::Metadata> {
            crate::fs::metadata(&self.inner).await
        }
        pub fn to_path_buf(&self) -> PathBuf {
            self.inner.to_path_buf()
        }
        pub fn as_os_str(&self) -> &OsStr {
            self.inner.as_os_str()
        }
    }

    impl AsRef<std::path::Path> for Path {
        fn as_ref(&self) -> &std::path::Path {
            &self.inner
        }
    }
    impl<'a> From<&'a std::path::Path> for &'a Path {
        fn from(p: &'a std::path::Path) -> &'a Path {
            Path::new(p)
        }
    }

    pub use std::path::PathBuf;
}

pub mod os {
    pub mod unix {
        pub mod fs {
            pub trait OpenOptionsExt {
                fn mode(&mut self, mode: u32) -> &mut Self;
                fn custom_flags(&mut self, flags: i32) -> &mut Self;
            }
        }
    }
}

pub mod future {
    pub use std::future::{pending, ready, Future};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use std::time::Duration;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct TimeoutError(());
    impl std::fmt::Display for TimeoutError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "future timed out")
        }
    }
    impl std::error::Error for TimeoutError {}

    pub async fn timeout<F: Future>(dur: Duration, f: F) -> Result<F::Output, TimeoutError> {
        struct T<F> {
            f: F,
            s: simrt::Sleep,
        }
        impl<F: Future> Future for T<F> {
            type Output = Result<F::Output, TimeoutError>;
            fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                let this = unsafe { self.get_unchecked_mut() };
                if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut this.f) }.poll(cx) {
                    return Poll::Ready(Ok(v));
                }
                match Pin::new(&mut this.s).poll(cx) {
                    Poll::Ready(()) => Poll::Ready(Err(TimeoutError(()))),
                    Poll::Pending => Poll::Pending,
                }
            }
        }
        T { f, s: simrt::sleep(dur.as_nanos() as u64) }.await
    }

    pub fn poll_fn<F, T>(f: F) -> std::future::PollFn<F>
    where
        F: FnMut(&mut Context<'_>) -> Poll<T>,
    {
        std::future::poll_fn(f)
    }
}

pub mod prelude {
    pub use crate::future::Future;
    pub use crate::io::prelude::*;
}
