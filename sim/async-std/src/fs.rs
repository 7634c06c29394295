//! Simulated file system behind async_std::fs.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Error, ErrorKind, Result};
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// Kind of a file
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FileType(char);
impl FileType {
    pub fn is_file(&self) -> bool {
        self.0 == 'f'
    }
    pub fn is_dir(&self) -> bool {
        self.0 == 'd'
    }
    pub fn is_symlink(&self) -> bool {
        self.0 == 'l'
    }
}

const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;
pub const O_DIRECT: i32 = 0o40000;

/// What the simulator knows about one file.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct FileState {
    pub len: u64,
    /// written bytes (sparse; everything else reads as zero)
    pub data: BTreeMap<u64, u8>,
    /// number of times content or size was changed
    pub changes: u64,
    /// task that created it
    pub creator: Option<usize>,
}

type Node = Rc<RefCell<FileState>>;

#[derive(Default)]
pub struct Fs {
    pub files: BTreeMap<PathBuf, Node>,
    pub dirs: BTreeSet<PathBuf>,
    /// symbolic links; what they point to may not exist
    pub links: BTreeMap<PathBuf, PathBuf>,
    /// chance of an error in 1/1000, per operation
    pub open_fault: u64,
    pub set_len_fault: u64,
    pub other_fault: u64,
    pub max_latency: u64,
    /// errors injected: operation, errno, task
    pub injected: Vec<(&'static str, i32, usize)>,
    pub opens: u64,
    /// files open now
    pub open_now: u64,
}

thread_local! {
    static FS: RefCell<Fs> = RefCell::new(Fs::default());
}

/// Control interface for the harness.
pub mod sim {
    use super::*;
    pub fn reset() {
        FS.with(|f| *f.borrow_mut() = Fs::default());
    }
    pub fn with<R>(f: impl FnOnce(&mut Fs) -> R) -> R {
        FS.with(|x| f(&mut x.borrow_mut()))
    }
    pub fn add_file(path: &Path, len: u64, data: &[(u64, u8)]) {
        with(|fs| {
            fs.files.insert(
                path.to_path_buf(),
                Rc::new(RefCell::new(FileState { len, data: data.iter().copied().collect(), changes: 0, creator: None })),
            )
        });
    }
    /// What is at the path itself, without following a link: nothing, a file, a directory or a link
    pub fn kind(path: &Path) -> Option<char> {
        with(|fs| {
            if fs.links.contains_key(path) {
                Some('l')
            } else if fs.dirs.contains(path) {
                Some('d')
            } else if fs.files.contains_key(path) {
                Some('f')
            } else {
                None
            }
        })
    }
    /// The path behind a link
    pub fn follow(path: &Path) -> PathBuf {
        with(|fs| fs.links.get(path).cloned().unwrap_or_else(|| path.to_path_buf()))
    }
    pub fn unlink(path: &Path) -> Result<()> {
        match kind(path) {
            None => Err(Error::from_raw_os_error(2)),
            Some('d') => Err(Error::from_raw_os_error(21)),
            Some('l') => with(|f| {
                f.links.remove(path);
                Ok(())
            }),
            _ => with(|f| {
                f.files.remove(path);
                Ok(())
            }),
        }
    }
    pub fn rename(from: &Path, to: &Path) -> Result<()> {
        if kind(to) == Some('d') {
            return Err(Error::from_raw_os_error(21));
        }
        with(|f| match f.files.remove(from) {
            Some(n) => {
                f.links.remove(to);
                f.files.insert(to.to_path_buf(), n);
                Ok(())
            }
            None => Err(Error::from_raw_os_error(2)),
        })
    }
    pub fn stat(path: &Path) -> Option<FileState> {
        with(|fs| fs.files.get(path).map(|n| n.borrow().clone()))
    }
}

async fn latency() {
    simrt::preempt("fs.enter");
    let max = sim::with(|f| f.max_latency);
    if max > 0 {
        let l = simrt::fault(400, 5);
        if l > 0 {
            simrt::count("fault.slow_fs_call");
            simrt::sleep(1 + max * l / 5).await;
        }
    }
}

fn errno(op: &'static str, e: i32) -> Error {
    simrt::log(|| format!("fs {} -> errno {}", op, e));
    sim::with(|f| f.injected.push((op, e, simrt::current_task())));
    Error::from_raw_os_error(e)
}

const OPEN_ERRORS: [(i32, &str); 8] = [
    (13, "fault.open_EACCES"),
    (28, "fault.open_ENOSPC"),
    (24, "fault.open_EMFILE"),
    (23, "fault.open_ENFILE"),
    (5, "fault.open_EIO"),
    (2, "fault.open_ENOENT"),
    (22, "fault.open_EINVAL"),
    (30, "fault.open_EROFS"),
];
const SIZE_ERRORS: [(i32, &str); 4] =
    [(28, "fault.set_len_ENOSPC"), (27, "fault.set_len_EFBIG"), (5, "fault.set_len_EIO"), (122, "fault.set_len_EDQUOT")];

#[derive(Clone, Debug, Default)]
pub struct OpenOptions {
    read: bool,
    write: bool,
    append: bool,
    truncate: bool,
    create: bool,
    create_new: bool,
    flags: i32,
}

impl crate::os::unix::fs::OpenOptionsExt for OpenOptions {
    fn mode(&mut self, _mode: u32) -> &mut Self {
        self
    }
    fn custom_flags(&mut self, flags: i32) -> &mut Self {
        self.flags = flags;
        self
    }
}

impl OpenOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn read(&mut self, v: bool) -> &mut Self {
        self.read = v;
        self
    }
    pub fn write(&mut self, v: bool) -> &mut Self {
        self.write = v;
        self
    }
    pub fn append(&mut self, v: bool) -> &mut Self {
        self.append = v;
        self
    }
    pub fn truncate(&mut self, v: bool) -> &mut Self {
        self.truncate = v;
        self
    }
    pub fn create(&mut self, v: bool) -> &mut Self {
        self.create = v;
        self
    }
    pub fn create_new(&mut self, v: bool) -> &mut Self {
        self.create_new = v;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, path: P) -> impl std::future::Future<Output = Result<File>> {
        let o = self.clone();
        let path = path.as_ref().to_path_buf();
        async move { o.do_open(path).await }
    }

    async fn do_open(self, path: PathBuf) -> Result<File> {
        latency().await;
        sim::with(|f| f.opens += 1);
        let writable = self.write || self.append;
        let exclusive = self.create_new || (self.flags & O_EXCL != 0 && (self.create || self.flags & O_CREAT != 0));
        let creating = self.create || self.create_new || self.flags & O_CREAT != 0;
        let truncating = (self.truncate || self.flags & O_TRUNC != 0) && !self.create_new;
        if (self.create || self.create_new || self.truncate) && !writable {
            return Err(Error::from_raw_os_error(22));
        }
        let taken = sim::kind(&path).is_some();
        let named = path.clone();
        let path = sim::follow(&path);
        let exists = sim::with(|f| f.files.contains_key(&path));
        let p = sim::with(|f| f.open_fault);
        let fault = simrt::fault(p, OPEN_ERRORS.len() as u64 + 1);
        if fault > 0 {
            let (e, name) = OPEN_ERRORS[fault as usize - 1];
            // only direct access is something that a file system may not know
            if e != 22 || self.flags & O_DIRECT != 0 {
                simrt::count(name);
                if e == 22 && creating && !exists && !taken && simrt::fault_value(2) == 0 {
                    // Linux creates the file before it finds that O_DIRECT is not supported,
                    // other file systems reject the flag before they look at the name
                    create_node(&path);
                }
                return Err(errno("open", e));
            }
        }
        if taken && exclusive {
            simrt::log(|| format!("fs open {} -> exists", named.display()));
            simrt::count("seam.open_found_existing");
            return Err(Error::from_raw_os_error(17));
        }
        if sim::kind(&path) == Some('d') {
            return Err(Error::from_raw_os_error(21));
        }
        if !exists && !creating {
            return Err(Error::from_raw_os_error(2));
        }
        let node = if exists {
            let n = sim::with(|f| f.files.get(&path).unwrap().clone());
            if truncating {
                let mut s = n.borrow_mut();
                s.len = 0;
                s.data.clear();
                s.changes += 1;
            }
            n
        } else {
            create_node(&path)
        };
        simrt::log(|| format!("fs open {} -> ok", path.display()));
        simrt::event("open", exists as u64, 0);
        let file = File { node, pos: RefCell::new(0), append: self.append || self.flags & O_APPEND != 0, writable, readable: self.read };
        sim::with(|f| f.open_now += 1);
        simrt::preempt("fs.leave");
        Ok(file)
    }
}

fn create_node(path: &Path) -> Node {
    let me = simrt::current_task();
    let n = Rc::new(RefCell::new(FileState { creator: Some(me), ..Default::default() }));
    sim::with(|f| f.files.insert(path.to_path_buf(), n.clone()));
    n
}

pub struct File {
    node: Node,
    pos: RefCell<u64>,
    append: bool,
    writable: bool,
    readable: bool,
}
impl Drop for File {
    fn drop(&mut self) {
        let _ = FS.try_with(|f| {
            if let Ok(mut f) = f.try_borrow_mut() {
                f.open_now = f.open_now.saturating_sub(1);
            }
        });
    }
}
// The simulator runs all tasks on one thread.
unsafe impl Send for File {}
unsafe impl Sync for File {}

#[derive(Clone, Debug)]
pub struct Metadata {
    len: u64,
    kind: char,
}
impl Metadata {
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn is_file(&self) -> bool {
        self.kind == 'f'
    }
    pub fn is_dir(&self) -> bool {
        self.kind == 'd'
    }
    pub fn file_type(&self) -> FileType {
        FileType(self.kind)
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn is_symlink(&self) -> bool {
        self.kind == 'l'
    }
}

impl File {
    pub async fn open<P: AsRef<Path>>(path: P) -> Result<File> {
        OpenOptions::new().read(true).open(path).await
    }
    pub async fn create<P: AsRef<Path>>(path: P) -> Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(path).await
    }
    pub async fn set_len(&self, size: u64) -> Result<()> {
        latency().await;
        if !self.writable {
            return Err(Error::from_raw_os_error(22));
        }
        let p = sim::with(|f| f.set_len_fault);
        let fault = simrt::fault(p, SIZE_ERRORS.len() as u64 + 1);
        if fault > 0 {
            let (e, name) = SIZE_ERRORS[fault as usize - 1];
            simrt::count(name);
            return Err(errno("set_len", e));
        }
        {
            let mut s = self.node.borrow_mut();
            if size > i64::MAX as u64 {
                return Err(Error::from_raw_os_error(27));
            }
            s.len = size;
            s.data.split_off(&size);
            s.changes += 1;
        }
        simrt::log(|| format!("fs set_len {} -> ok", size));
        simrt::preempt("fs.leave");
        Ok(())
    }
    pub async fn metadata(&self) -> Result<Metadata> {
        latency().await;
        Ok(Metadata { len: self.node.borrow().len, kind: 'f' })
    }
    async fn sync(&self) -> Result<()> {
        latency().await;
        let p = sim::with(|f| f.other_fault);
        if simrt::fault(p, 2) == 1 {
            simrt::count("fault.fsync_EIO");
            return Err(errno("fsync", 5));
        }
        Ok(())
    }
    pub async fn sync_all(&self) -> Result<()> {
        self.sync().await
    }
    pub async fn sync_data(&self) -> Result<()> {
        self.sync().await
    }
    // the io::ReadExt / WriteExt / SeekExt methods, as inherent methods
    pub async fn write(&mut self, buf: &[u8]) -> Result<usize> {
        latency().await;
        if !self.writable {
            return Err(Error::from_raw_os_error(9));
        }
        let p = sim::with(|f| f.other_fault);
        let n = match simrt::fault(p, 3) {
            1 => {
                simrt::count("fault.file_write_EIO");
                return Err(errno("write", 5));
            }
            2 if buf.len() > 1 => {
                simrt::count("fault.file_short_write");
                1 + simrt::fault_value(buf.len() as u64 - 1) as usize
            }
            _ => buf.len(),
        };
        let mut s = self.node.borrow_mut();
        let mut pos = self.pos.borrow_mut();
        if self.append {
            *pos = s.len;
        }
        for b in &buf[..n] {
            s.data.insert(*pos, *b);
            *pos += 1;
        }
        s.len = s.len.max(*pos);
        s.changes += 1;
        Ok(n)
    }
    pub async fn write_all(&mut self, mut buf: &[u8]) -> Result<()> {
        while !buf.is_empty() {
            let n = self.write(buf).await?;
            buf = &buf[n..];
        }
        Ok(())
    }
    pub async fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        latency().await;
        if !self.readable {
            return Err(Error::from_raw_os_error(9));
        }
        let s = self.node.borrow();
        let mut pos = self.pos.borrow_mut();
        let n = (s.len.saturating_sub(*pos)).min(buf.len() as u64) as usize;
        for b in buf[..n].iter_mut() {
            *b = s.data.get(&pos).copied().unwrap_or(0);
            *pos += 1;
        }
        Ok(n)
    }
    pub async fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let mut done = 0;
        while done < buf.len() {
            let n = self.read(&mut buf[done..]).await?;
            if n == 0 {
                return Err(Error::from(ErrorKind::UnexpectedEof));
            }
            done += n;
        }
        Ok(())
    }
    pub async fn flush(&mut self) -> Result<()> {
        Ok(())
    }
    pub async fn seek(&mut self, to: std::io::SeekFrom) -> Result<u64> {
        let len = self.node.borrow().len as i64;
        let mut pos = self.pos.borrow_mut();
        let n = match to {
            std::io::SeekFrom::Start(x) => x as i64,
            std::io::SeekFrom::End(x) => len + x,
            std::io::SeekFrom::Current(x) => *pos as i64 + x,
        };
        if n < 0 {
            return Err(Error::from_raw_os_error(22));
        }
        *pos = n as u64;
        Ok(n as u64)
    }
}

pub async fn remove_file<P: AsRef<Path>>(path: P) -> Result<()> {
    let path = path.as_ref().to_path_buf();
    latency().await;
    sim::unlink(&path)
}

fn attributes(path: &Path) -> Result<Metadata> {
    match sim::kind(path) {
        None => Err(Error::from_raw_os_error(2)),
        Some(kind) => Ok(Metadata { len: sim::stat(path).map_or(0, |s| s.len), kind }),
    }
}

pub async fn metadata<P: AsRef<Path>>(path: P) -> Result<Metadata> {
    let path = path.as_ref().to_path_buf();
    latency().await;
    attributes(&sim::follow(&path))
}

pub async fn symlink_metadata<P: AsRef<Path>>(path: P) -> Result<Metadata> {
    let path = path.as_ref().to_path_buf();
    latency().await;
    attributes(&path)
}

pub async fn rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> Result<()> {
    let (from, to) = (from.as_ref().to_path_buf(), to.as_ref().to_path_buf());
    latency().await;
    sim::rename(&from, &to)
}

pub async fn try_exists<P: AsRef<Path>>(path: P) -> Result<bool> {
    Ok(metadata(path).await.is_ok())
}

pub async fn write<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> Result<()> {
    let mut f = File::create(path).await?;
    f.write_all(contents.as_ref()).await
}

pub async fn read<P: AsRef<Path>>(path: P) -> Result<Vec<u8>> {
    let mut f = File::open(path).await?;
    let mut v = vec![0; f.metadata().await?.len() as usize];
    f.read_exact(&mut v).await?;
    Ok(v)
}

pub async fn copy<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> Result<u64> {
    let data = read(from).await?;
    write(to, &data).await?;
    Ok(data.len() as u64)
}

pub async fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> Result<()> {
    let (from, to) = (from.as_ref().to_path_buf(), to.as_ref().to_path_buf());
    latency().await;
    sim::with(|f| {
        if f.files.contains_key(&to) || f.dirs.contains(&to) || f.links.contains_key(&to) {
            return Err(Error::from_raw_os_error(17));
        }
        match f.files.get(&from).cloned() {
            Some(n) => {
                f.files.insert(to, n);
                Ok(())
            }
            None => Err(Error::from_raw_os_error(2)),
        }
    })
}

pub async fn create_dir<P: AsRef<Path>>(_: P) -> Result<()> {
    latency().await;
    Ok(())
}

pub async fn create_dir_all<P: AsRef<Path>>(_: P) -> Result<()> {
    latency().await;
    Ok(())
}
