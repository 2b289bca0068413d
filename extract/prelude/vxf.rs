// ---------------------------------------------------------------------------
// Model of the command line and of the file system.
// ---------------------------------------------------------------------------
pub mod vxf {
use vstd::prelude::*;
use crate::vx::*;
use crate::specs::may_change;

/// the command line, the program's name first
pub uninterp spec fn cmdline() -> Seq<Seq<char>>;
/// what a file holds when the program starts
pub uninterp spec fn content(path: Seq<char>) -> Seq<u8>;
/// the program put exactly these bytes, and nothing else, into this file
pub uninterp spec fn holds(path: Seq<char>, b: Seq<u8>) -> bool;
/// the path with its extension replaced
pub uninterp spec fn with_ext(path: Seq<char>, ext: Seq<char>) -> Seq<char>;
pub open spec fn texts_of(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }

#[verifier::external_body]
pub fn env_args() -> (r: Vec<String>)
    ensures texts_of(r@) == cmdline()
{ unimplemented!() }
pub trait VxRemove<T> {
    spec fn items(&self) -> Seq<T>;
    fn vx_remove(&mut self, i: usize) -> (r: T)
        requires strict() ==> i < old(self).items().len()
        ensures i < old(self).items().len(), r == old(self).items()[i as int], final(self).items() == old(self).items().remove(i as int);
}
impl<T> VxRemove<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_remove(&mut self, i: usize) -> T { unimplemented!() }
}

pub trait VxPath { spec fn path_(&self) -> Seq<char>; }
impl VxPath for PathBuf { open spec fn path_(&self) -> Seq<char> { self@ } }
impl VxPath for str { open spec fn path_(&self) -> Seq<char> { self@ } }
impl VxPath for String { open spec fn path_(&self) -> Seq<char> { self@ } }
impl<P: VxPath + ?Sized> VxPath for &P { open spec fn path_(&self) -> Seq<char> { (**self).path_() } }
#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl PathBuf {
    #[verifier::external_body]
    pub fn from<P: VxPath>(s: P) -> (r: Self) ensures r@ == s.path_() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension(&self, e: &str) -> (r: Self) ensures r@ == with_ext(self@, e@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct FileRest { x: u8 }
/// an open file; `shape` is how it was opened
pub struct File { pub path: Ghost<Seq<char>>, pub how: Ghost<OpenOptions>, pub put: Ghost<Seq<u8>>, pub got: Ghost<Seq<u8>>, pub rest: FileRest }
impl Read for File {
    type Tok = ();
    open spec fn stream(&self) -> Seq<u8> { if self.how@.read { content(self.path@) } else { seq![] } }
    open spec fn taken(&self) -> Seq<u8> { self.got@ }
    open spec fn tok(&self) -> () { () }
    #[verifier::external_body]
    fn read<B: VxBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact<B: VxBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<(), IoError>) { unimplemented!() }
}
/// what a call may do to an open file
pub open spec fn same_file(a: &File, b: &File) -> bool { a.path == b.path && a.how == b.how }
impl Write for File {
    open spec fn sink(&self) -> Seq<u8> { self.put@ }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        ensures same_file(old(self), final(self)), r is Ok && old(self).how@.fresh() ==> holds(final(self).path@, final(self).put@)
    { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>)
        ensures same_file(old(self), final(self)), r is Ok && old(self).how@.fresh() ==> holds(final(self).path@, final(self).put@)
    { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures same_file(old(self), final(self)), r is Ok && old(self).how@.fresh() ==> holds(final(self).path@, final(self).put@)
    { unimplemented!() }
}
pub struct OpenOptions { pub read: bool, pub write: bool, pub append: bool, pub truncate: bool, pub create: bool, pub create_new: bool }
impl OpenOptions {
    /// an already existing file may be changed
    pub open spec fn changes(&self) -> bool { (self.write || self.append || self.truncate) && !self.create_new }
    /// what is written from then on is all the file holds
    pub open spec fn fresh(&self) -> bool { self.write && !self.append && (self.truncate || self.create_new) }
    pub fn new() -> (r: Self)
        ensures r == (OpenOptions { read: false, write: false, append: false, truncate: false, create: false, create_new: false })
    { OpenOptions { read: false, write: false, append: false, truncate: false, create: false, create_new: false } }
    pub fn read(&mut self, b: bool) -> (r: &mut Self) ensures *r == (OpenOptions { read: b, ..*old(self) }), *final(self) == *final(r) { self.read = b; self }
    pub fn write(&mut self, b: bool) -> (r: &mut Self) ensures *r == (OpenOptions { write: b, ..*old(self) }), *final(self) == *final(r) { self.write = b; self }
    pub fn append(&mut self, b: bool) -> (r: &mut Self) ensures *r == (OpenOptions { append: b, ..*old(self) }), *final(self) == *final(r) { self.append = b; self }
    pub fn truncate(&mut self, b: bool) -> (r: &mut Self) ensures *r == (OpenOptions { truncate: b, ..*old(self) }), *final(self) == *final(r) { self.truncate = b; self }
    pub fn create(&mut self, b: bool) -> (r: &mut Self) ensures *r == (OpenOptions { create: b, ..*old(self) }), *final(self) == *final(r) { self.create = b; self }
    pub fn create_new(&mut self, b: bool) -> (r: &mut Self) ensures *r == (OpenOptions { create_new: b, ..*old(self) }), *final(self) == *final(r) { self.create_new = b; self }
    /// a file that may be changed must be one that may be changed by now
    #[verifier::external_body]
    pub fn open<P: VxPath>(&self, path: P) -> (r: Result<File, IoError>)
        requires self.changes() ==> may_change(path.path_()), //#C22,C23
        ensures
            r is Ok ==> r->Ok_0.path@ == path.path_() && r->Ok_0.how@ == *self && r->Ok_0.put@ == Seq::<u8>::empty() && r->Ok_0.got@ == Seq::<u8>::empty(),
            strict() && (self.read && !self.changes() || self.fresh() && self.create) ==> r is Ok,
    { unimplemented!() }
}
pub open spec fn to_read() -> OpenOptions { OpenOptions { read: true, write: false, append: false, truncate: false, create: false, create_new: false } }
pub open spec fn to_write() -> OpenOptions { OpenOptions { read: false, write: true, append: false, truncate: true, create: true, create_new: false } }
impl File {
    #[verifier::external_body]
    pub fn open<P: VxPath>(path: P) -> (r: Result<File, IoError>)
        ensures
            r is Ok ==> r->Ok_0.path@ == path.path_() && r->Ok_0.how@ == to_read() && r->Ok_0.put@ == Seq::<u8>::empty() && r->Ok_0.got@ == Seq::<u8>::empty(),
            strict() ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: VxPath>(path: P) -> (r: Result<File, IoError>)
        requires may_change(path.path_()), //#C22,C23
        ensures
            r is Ok ==> r->Ok_0.path@ == path.path_() && r->Ok_0.how@ == to_write() && r->Ok_0.put@ == Seq::<u8>::empty() && r->Ok_0.got@ == Seq::<u8>::empty(),
            strict() ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_all(&self) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&self, n: u64) -> (r: Result<(), IoError>) requires may_change(self.path@), !self.how@.fresh(), //#C22,C23
    { unimplemented!() }
}
#[verifier::external_body]
pub fn fs_write<P: VxPath>(path: P, b: &[u8]) -> (r: Result<(), IoError>)
    requires may_change(path.path_()), //#C22,C23
    ensures r is Ok ==> holds(path.path_(), b@), strict() ==> r is Ok,
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_remove_file<P: VxPath>(path: P) -> (r: Result<(), IoError>)
    requires may_change(path.path_()), false, //#C22,C23
{ unimplemented!() }
}
