//! Files in memory, for the wasm build of the harnesses. The working directory is "/".
use crate::ffi::OsString;
use crate::fmt;
use crate::fs::TryLockError;
use crate::io::{self, BorrowedCursor, ErrorKind, IoSlice, IoSliceMut, SeekFrom};
use crate::path::{Path, PathBuf};
use crate::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use crate::sync::{Arc, Mutex, MutexGuard};
pub use crate::sys::fs::common::{Dir, exists, remove_dir_all};
use crate::sys::time::SystemTime;
use crate::sys::unsupported;
use crate::vec::Vec;

struct Inode {
    data: Mutex<Vec<u8>>,
    readonly: AtomicBool,
}
#[derive(Clone)]
enum Node {
    Dir,
    File(Arc<Inode>),
}
static FS: Mutex<Vec<(Vec<u8>, Node)>> = Mutex::new(Vec::new());
// No file may grow beyond this size (like RLIMIT_FSIZE).
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
#[unsafe(no_mangle)]
pub extern "C" fn symx_fs_limit(n: u64) {
    LIMIT.store(n, Relaxed)
}
// Directories are listed in the order of creation, or in the reverse one.
static REVERSE: AtomicBool = AtomicBool::new(false);
#[unsafe(no_mangle)]
pub extern "C" fn symx_fs_reverse(n: u32) {
    REVERSE.store(n != 0, Relaxed)
}

fn fs() -> MutexGuard<'static, Vec<(Vec<u8>, Node)>> {
    FS.lock().unwrap_or_else(|e| e.into_inner())
}
fn error(k: ErrorKind) -> io::Error {
    io::Error::from(k)
}
fn invalid() -> io::Error {
    error(ErrorKind::InvalidInput)
}
fn norm(p: &Path) -> io::Result<Vec<u8>> {
    let b = p.as_os_str().as_encoded_bytes();
    if b.is_empty() {
        return Err(error(ErrorKind::NotFound));
    }
    if b.contains(&0) {
        return Err(invalid());
    }
    let mut parts: Vec<&[u8]> = Vec::new();
    for c in b.split(|c| *c == b'/') {
        if c == b"" || c == b"." {
        } else if c == b".." {
            parts.pop();
        } else {
            if c.len() > 4095 {
                return Err(error(ErrorKind::InvalidFilename));
            }
            parts.push(c)
        }
    }
    let mut out = Vec::new();
    for c in parts {
        out.push(b'/');
        out.extend_from_slice(c);
    }
    Ok(out)
}
fn find(fs: &[(Vec<u8>, Node)], p: &[u8]) -> Option<usize> {
    fs.iter().position(|e| e.0.as_slice() == p)
}
fn parent(p: &[u8]) -> &[u8] {
    &p[..p.iter().rposition(|c| *c == b'/').unwrap_or(0)]
}
fn look(fs: &[(Vec<u8>, Node)], p: &[u8]) -> io::Result<Node> {
    if p.is_empty() {
        return Ok(Node::Dir);
    }
    match find(fs, p) {
        Some(i) => Ok(fs[i].1.clone()),
        None => {
            needs_dir(fs, parent(p))?;
            Err(error(ErrorKind::NotFound))
        }
    }
}
fn needs_dir(fs: &[(Vec<u8>, Node)], p: &[u8]) -> io::Result<()> {
    match look(fs, p)? {
        Node::Dir => Ok(()),
        Node::File(_) => Err(error(ErrorKind::NotADirectory)),
    }
}
fn slash(p: &Path) -> bool {
    p.as_os_str().as_encoded_bytes().last() == Some(&b'/')
}
fn empty_dir(fs: &[(Vec<u8>, Node)], p: &[u8]) -> bool {
    !fs.iter().any(|e| parent(&e.0) == p)
}

pub struct File {
    inode: Option<Arc<Inode>>,
    pos: Arc<AtomicU64>,
    read: bool,
    write: bool,
    append: bool,
}
#[derive(Clone)]
pub struct FileAttr {
    dir: bool,
    size: u64,
    readonly: bool,
}
pub struct ReadDir {
    root: PathBuf,
    entries: crate::vec::IntoIter<(Vec<u8>, bool)>,
}
pub struct DirEntry {
    root: PathBuf,
    name: Vec<u8>,
    dir: bool,
}
#[derive(Clone, Debug, Default)]
pub struct OpenOptions {
    read: bool,
    write: bool,
    append: bool,
    truncate: bool,
    create: bool,
    create_new: bool,
}
#[derive(Copy, Clone, Debug, Default)]
pub struct FileTimes {}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct FilePermissions {
    readonly: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct FileType {
    dir: bool,
}
#[derive(Debug)]
pub struct DirBuilder {}

impl FileAttr {
    pub fn size(&self) -> u64 {
        self.size
    }
    pub fn perm(&self) -> FilePermissions {
        FilePermissions { readonly: self.readonly }
    }
    pub fn file_type(&self) -> FileType {
        FileType { dir: self.dir }
    }
    pub fn modified(&self) -> io::Result<SystemTime> {
        unsupported()
    }
    pub fn accessed(&self) -> io::Result<SystemTime> {
        unsupported()
    }
    pub fn created(&self) -> io::Result<SystemTime> {
        unsupported()
    }
}
impl FilePermissions {
    pub fn readonly(&self) -> bool {
        self.readonly
    }
    pub fn set_readonly(&mut self, readonly: bool) {
        self.readonly = readonly
    }
}
impl FileTimes {
    pub fn set_accessed(&mut self, _t: SystemTime) {}
    pub fn set_modified(&mut self, _t: SystemTime) {}
}
impl FileType {
    pub fn is_dir(&self) -> bool {
        self.dir
    }
    pub fn is_file(&self) -> bool {
        !self.dir
    }
    pub fn is_symlink(&self) -> bool {
        false
    }
}
impl fmt::Debug for ReadDir {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.root, f)
    }
}
impl Iterator for ReadDir {
    type Item = io::Result<DirEntry>;
    fn next(&mut self) -> Option<io::Result<DirEntry>> {
        let (name, dir) = self.entries.next()?;
        Some(Ok(DirEntry { root: self.root.clone(), name, dir }))
    }
}
impl DirEntry {
    pub fn path(&self) -> PathBuf {
        self.root.join(self.file_name())
    }
    pub fn file_name(&self) -> OsString {
        unsafe { OsString::from_encoded_bytes_unchecked(self.name.clone()) }
    }
    pub fn metadata(&self) -> io::Result<FileAttr> {
        stat(&self.path())
    }
    pub fn file_type(&self) -> io::Result<FileType> {
        Ok(FileType { dir: self.dir })
    }
}
impl OpenOptions {
    pub fn new() -> OpenOptions {
        OpenOptions::default()
    }
    pub fn read(&mut self, v: bool) {
        self.read = v
    }
    pub fn write(&mut self, v: bool) {
        self.write = v
    }
    pub fn append(&mut self, v: bool) {
        self.append = v
    }
    pub fn truncate(&mut self, v: bool) {
        self.truncate = v
    }
    pub fn create(&mut self, v: bool) {
        self.create = v
    }
    pub fn create_new(&mut self, v: bool) {
        self.create_new = v
    }
}
impl File {
    pub fn open(path: &Path, o: &OpenOptions) -> io::Result<File> {
        let writes = o.write || o.append;
        if !(o.read || writes) || (o.append && o.truncate && !o.create_new) {
            return Err(invalid());
        }
        if !writes && (o.truncate || o.create || o.create_new) {
            return Err(invalid());
        }
        let p = norm(path)?;
        let mut fs = fs();
        let inode = match look(&fs, &p) {
            Ok(_) if o.create_new => return Err(error(ErrorKind::AlreadyExists)),
            Ok(Node::Dir) if writes => return Err(error(ErrorKind::IsADirectory)),
            Ok(Node::Dir) => None,
            Ok(Node::File(_)) if slash(path) => return Err(error(ErrorKind::NotADirectory)),
            Ok(Node::File(i)) => {
                if writes && i.readonly.load(Relaxed) {
                    return Err(error(ErrorKind::PermissionDenied));
                }
                Some(i)
            }
            Err(e) if e.kind() == ErrorKind::NotFound && (o.create || o.create_new) => {
                needs_dir(&fs, parent(&p))?;
                if slash(path) {
                    return Err(error(ErrorKind::IsADirectory));
                }
                let i = Arc::new(Inode { data: Mutex::new(Vec::new()), readonly: AtomicBool::new(false) });
                fs.push((p, Node::File(i.clone())));
                Some(i)
            }
            Err(e) => return Err(e),
        };
        if o.truncate
            && let Some(i) = &inode
        {
            *i.data.lock().unwrap() = Vec::new();
        }
        Ok(File { inode, pos: Arc::new(AtomicU64::new(0)), read: o.read, write: writes, append: o.append })
    }
    fn node(&self) -> io::Result<&Arc<Inode>> {
        self.inode.as_ref().ok_or_else(|| error(ErrorKind::IsADirectory))
    }
    pub fn file_attr(&self) -> io::Result<FileAttr> {
        Ok(match &self.inode {
            None => FileAttr { dir: true, size: 0, readonly: false },
            Some(i) => attr(i),
        })
    }
    pub fn fsync(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn datasync(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn lock(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn lock_shared(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn try_lock(&self) -> Result<(), TryLockError> {
        Ok(())
    }
    pub fn try_lock_shared(&self) -> Result<(), TryLockError> {
        Ok(())
    }
    pub fn unlock(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn truncate(&self, size: u64) -> io::Result<()> {
        if !self.write {
            return Err(invalid());
        }
        if size > LIMIT.load(Relaxed) {
            return Err(error(ErrorKind::FileTooLarge));
        }
        self.node()?.data.lock().unwrap().resize(size as usize, 0);
        Ok(())
    }
    pub fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        if !self.read {
            return Err(error(ErrorKind::PermissionDenied));
        }
        let d = self.node()?.data.lock().unwrap();
        let at = (self.pos.load(Relaxed) as usize).min(d.len());
        let n = buf.len().min(d.len() - at);
        buf[..n].copy_from_slice(&d[at..at + n]);
        self.pos.fetch_add(n as u64, Relaxed);
        Ok(n)
    }
    pub fn read_vectored(&self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        io::default_read_vectored(|b| self.read(b), bufs)
    }
    pub fn is_read_vectored(&self) -> bool {
        false
    }
    pub fn read_buf(&self, cursor: BorrowedCursor<'_, u8>) -> io::Result<()> {
        io::default_read_buf(|b| self.read(b), cursor)
    }
    pub fn write(&self, buf: &[u8]) -> io::Result<usize> {
        if !self.write {
            return Err(error(ErrorKind::PermissionDenied));
        }
        let mut d = self.node()?.data.lock().unwrap();
        let at = if self.append { d.len() } else { self.pos.load(Relaxed) as usize };
        let room = LIMIT.load(Relaxed).saturating_sub(at as u64);
        if room == 0 && !buf.is_empty() {
            return Err(error(ErrorKind::FileTooLarge));
        }
        let n = buf.len().min(room as usize);
        if at > d.len() {
            d.resize(at, 0);
        }
        let over = n.min(d.len() - at);
        d[at..at + over].copy_from_slice(&buf[..over]);
        d.extend_from_slice(&buf[over..n]);
        self.pos.store((at + n) as u64, Relaxed);
        Ok(n)
    }
    pub fn write_vectored(&self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        io::default_write_vectored(|b| self.write(b), bufs)
    }
    pub fn is_write_vectored(&self) -> bool {
        false
    }
    pub fn flush(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn seek(&self, pos: SeekFrom) -> io::Result<u64> {
        let (base, off) = match pos {
            SeekFrom::Start(n) => (0, n as i64),
            SeekFrom::Current(n) => (self.pos.load(Relaxed) as i64, n),
            SeekFrom::End(n) => (self.node()?.data.lock().unwrap().len() as i64, n),
        };
        let to = base.checked_add(off).filter(|n| *n >= 0).ok_or_else(invalid)?;
        self.pos.store(to as u64, Relaxed);
        Ok(to as u64)
    }
    pub fn size(&self) -> Option<io::Result<u64>> {
        self.inode.as_ref().map(|i| Ok(i.data.lock().unwrap().len() as u64))
    }
    pub fn tell(&self) -> io::Result<u64> {
        Ok(self.pos.load(Relaxed))
    }
    pub fn duplicate(&self) -> io::Result<File> {
        Ok(File { inode: self.inode.clone(), pos: self.pos.clone(), read: self.read, write: self.write, append: self.append })
    }
    pub fn set_permissions(&self, perm: FilePermissions) -> io::Result<()> {
        self.node()?.readonly.store(perm.readonly, Relaxed);
        Ok(())
    }
    pub fn set_times(&self, _times: FileTimes) -> io::Result<()> {
        Ok(())
    }
}
impl fmt::Debug for File {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("File")
    }
}
impl DirBuilder {
    pub fn new() -> DirBuilder {
        DirBuilder {}
    }
    pub fn mkdir(&self, path: &Path) -> io::Result<()> {
        let p = norm(path)?;
        let mut fs = fs();
        match look(&fs, &p) {
            Ok(_) => Err(error(ErrorKind::AlreadyExists)),
            Err(e) if e.kind() == ErrorKind::NotFound => {
                needs_dir(&fs, parent(&p))?;
                fs.push((p, Node::Dir));
                Ok(())
            }
            Err(e) => Err(e),
        }
    }
}
fn attr(i: &Inode) -> FileAttr {
    FileAttr { dir: false, size: i.data.lock().unwrap().len() as u64, readonly: i.readonly.load(Relaxed) }
}
pub fn readdir(path: &Path) -> io::Result<ReadDir> {
    let p = norm(path)?;
    let fs = fs();
    needs_dir(&fs, &p)?;
    let mut entries: Vec<(Vec<u8>, bool)> = Vec::new();
    for (name, node) in fs.iter() {
        if parent(name) == p.as_slice() {
            entries.push((name[p.len() + 1..].to_vec(), matches!(node, Node::Dir)));
        }
    }
    if REVERSE.load(Relaxed) {
        entries.reverse();
    }
    Ok(ReadDir { root: path.to_path_buf(), entries: entries.into_iter() })
}
pub fn unlink(path: &Path) -> io::Result<()> {
    let p = norm(path)?;
    let mut fs = fs();
    match look(&fs, &p)? {
        Node::Dir => Err(error(ErrorKind::IsADirectory)),
        Node::File(_) => {
            let i = find(&fs, &p).unwrap();
            fs.remove(i);
            Ok(())
        }
    }
}
pub fn rename(old: &Path, new: &Path) -> io::Result<()> {
    let (a, b) = (norm(old)?, norm(new)?);
    let mut fs = fs();
    let node = look(&fs, &a)?;
    needs_dir(&fs, parent(&b))?;
    if a == b {
        return Ok(());
    }
    let is_dir = matches!(node, Node::Dir);
    if is_dir && (a.is_empty() || (b.len() > a.len() && b.starts_with(&a) && b[a.len()] == b'/')) {
        return Err(invalid());
    }
    match look(&fs, &b) {
        Ok(Node::Dir) if !is_dir => return Err(error(ErrorKind::IsADirectory)),
        Ok(Node::File(_)) if is_dir => return Err(error(ErrorKind::NotADirectory)),
        Ok(Node::Dir) if !empty_dir(&fs, &b) => return Err(error(ErrorKind::DirectoryNotEmpty)),
        Ok(_) => {
            let i = find(&fs, &b).ok_or_else(invalid)?;
            fs.remove(i);
        }
        Err(_) => (),
    }
    for e in fs.iter_mut() {
        if e.0 == a {
            e.0 = b.clone();
        } else if is_dir && e.0.len() > a.len() && e.0.starts_with(&a) && e.0[a.len()] == b'/' {
            let mut n = b.clone();
            n.extend_from_slice(&e.0[a.len()..]);
            e.0 = n;
        }
    }
    Ok(())
}
pub fn set_perm(p: &Path, perm: FilePermissions) -> io::Result<()> {
    if let Node::File(i) = look(&fs(), &norm(p)?)? {
        i.readonly.store(perm.readonly, Relaxed);
    }
    Ok(())
}
pub fn set_perm_nofollow(p: &Path, perm: FilePermissions) -> io::Result<()> {
    set_perm(p, perm)
}
pub fn set_times(_p: &Path, _times: FileTimes) -> io::Result<()> {
    Ok(())
}
pub fn set_times_nofollow(_p: &Path, _times: FileTimes) -> io::Result<()> {
    Ok(())
}
pub fn rmdir(path: &Path) -> io::Result<()> {
    let p = norm(path)?;
    let mut fs = fs();
    match look(&fs, &p)? {
        Node::File(_) => Err(error(ErrorKind::NotADirectory)),
        Node::Dir if !empty_dir(&fs, &p) => Err(error(ErrorKind::DirectoryNotEmpty)),
        Node::Dir => {
            let i = find(&fs, &p).ok_or_else(invalid)?;
            fs.remove(i);
            Ok(())
        }
    }
}
pub fn readlink(_p: &Path) -> io::Result<PathBuf> {
    Err(invalid())
}
pub fn symlink(_original: &Path, _link: &Path) -> io::Result<()> {
    unsupported()
}
pub fn link(_src: &Path, _dst: &Path) -> io::Result<()> {
    unsupported()
}
pub fn stat(path: &Path) -> io::Result<FileAttr> {
    match look(&fs(), &norm(path)?)? {
        Node::Dir => Ok(FileAttr { dir: true, size: 0, readonly: false }),
        Node::File(_) if slash(path) => Err(error(ErrorKind::NotADirectory)),
        Node::File(i) => Ok(attr(&i)),
    }
}
pub fn lstat(path: &Path) -> io::Result<FileAttr> {
    stat(path)
}
pub fn canonicalize(path: &Path) -> io::Result<PathBuf> {
    let mut p = norm(path)?;
    look(&fs(), &p)?;
    if p.is_empty() {
        p.push(b'/');
    }
    Ok(PathBuf::from(unsafe { OsString::from_encoded_bytes_unchecked(p) }))
}
pub fn copy(from: &Path, to: &Path) -> io::Result<u64> {
    crate::sys::fs::common::copy(from, to)
}
