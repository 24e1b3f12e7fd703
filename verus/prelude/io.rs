// files and paths: a path is its text, a file its lines (None: a line that cannot be read)
#[verifier::external_body] pub struct Path { x: usize }
pub type PathBuf = Path;
pub type OsStr = Path;
pub uninterp spec fn pname(a: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn pstem(a: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn pext(a: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn pabs(a: Seq<char>) -> bool;
pub open spec fn opv(o: Option<&Path>) -> Option<Seq<char>> { match o { Some(p) => Some(p.pv()), None => None } }
pub uninterp spec fn pjoin(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn pdir(a: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn utf8(a: Seq<char>) -> bool;
pub uninterp spec fn file_lines(p: Seq<char>) -> Option<Seq<Option<Seq<char>>>>;
pub trait VAsPath { spec fn apv(&self) -> Seq<char>; }
impl VAsPath for str { open spec fn apv(&self) -> Seq<char> { self@ } }
impl VAsPath for String { open spec fn apv(&self) -> Seq<char> { self@ } }
impl VAsPath for Path { open spec fn apv(&self) -> Seq<char> { self.pv() } }
impl<'a, T: VAsPath + ?Sized> VAsPath for &'a T { open spec fn apv(&self) -> Seq<char> { (**self).apv() } }
impl Path {
    pub uninterp spec fn pv(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new<T: VAsPath + ?Sized>(s: &T) -> (r: &Path) ensures r.pv() == s.apv() { unimplemented!() }
    #[verifier::external_body] pub fn join<T: VAsPath>(&self, s: T) -> (r: Path) ensures r.pv() == pjoin(self.pv(), s.apv()) { unimplemented!() }
    #[verifier::external_body] pub fn v_join<T: VAsPath>(&self, s: T) -> (r: Path) ensures r.pv() == pjoin(self.pv(), s.apv()) { unimplemented!() }
    #[verifier::external_body] pub fn push<T: VAsPath>(&mut self, s: T) ensures final(self).pv() == pjoin(old(self).pv(), s.apv()) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some == utf8(self.pv()), r is Some ==> r->0@ == self.pv() { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures match r { Some(p) => pdir(self.pv()) == Some(p.pv()), None => pdir(self.pv()) is None } { unimplemented!() }
    #[verifier::external_body] pub fn display(&self) -> (r: &Path) ensures r.pv() == self.pv() { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&Path>) ensures opv(r) == pname(self.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn file_stem(&self) -> (r: Option<&Path>) ensures opv(r) == pstem(self.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&Path>) ensures opv(r) == pext(self.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == pabs(self.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn is_relative(&self) -> (r: bool) ensures r == !pabs(self.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures r.pv() == self.pv() { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: bool)
        ensures r == pdir(old(self).pv()) is Some, final(self).pv() == if pdir(old(self).pv()) is Some { pdir(old(self).pv())->0 } else { old(self).pv() } { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: Path) ensures r.pv() == self.pv() { unimplemented!() }
}
#[verifier::external_body] pub struct File { x: usize }
impl File {
    pub uninterp spec fn text(&self) -> Seq<Option<Seq<char>>>;
    #[verifier::external_body] pub fn open<T: VAsPath>(p: T) -> (r: Result<File, VErr>) ensures match r { Ok(f) => file_lines(p.apv()) == Some(f.text()), Err(_) => file_lines(p.apv()) is None } { unimplemented!() }
}
// files that are written: where, and the text in them so far. A file can be created where that is possible at all, once its
// directory is there; writing to it is taken to succeed
pub uninterp spec fn writable(p: Seq<char>) -> bool;
pub uninterp spec fn made(d: Seq<char>) -> bool;
pub uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub fn create_dir_all<T: VAsPath>(p: T) -> (r: Result<(), VErr>) ensures r is Ok ==> made(p.apv()) { unimplemented!() }
impl File {
    pub uninterp spec fn at(&self) -> Seq<char>;
    pub uninterp spec fn content(&self) -> Seq<char>;
    #[verifier::external_body] pub fn create<T: VAsPath>(p: T) -> (r: Result<File, VErr>)
        ensures r is Ok ==> r->Ok_0.at() == p.apv() && r->Ok_0.content() == Seq::<char>::empty(),
            writable(p.apv()) && pdir(p.apv()) is Some && made(pdir(p.apv())->0) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), VErr>)
        ensures final(self).at() == old(self).at(), final(self).content() == old(self).content() + text_of(b@) { unimplemented!() }
}
pub trait VBytes { fn v_as_bytes(&self) -> (r: &[u8]) ensures text_of(r@) == self.byv(); spec fn byv(&self) -> Seq<char>; }
impl VBytes for String { open spec fn byv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl VBytes for str { open spec fn byv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
#[verifier::external_body] pub struct BufReader { x: usize }
impl BufReader {
    pub uninterp spec fn text(&self) -> Seq<Option<Seq<char>>>;
    #[verifier::external_body] pub fn new(f: File) -> (r: BufReader) ensures r.text() == f.text() { unimplemented!() }
    #[verifier::external_body] pub fn lines(self) -> (r: VLines) ensures r.rest() == self.text() { unimplemented!() }
}
#[verifier::external_body] pub struct VLines { x: usize }
impl VLines {
    pub uninterp spec fn rest(&self) -> Seq<Option<Seq<char>>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<String, VErr>>)
        ensures match r {
            Some(l) => old(self).rest().len() > 0 && final(self).rest() == old(self).rest().drop_first() && match l { Ok(s) => old(self).rest()[0] == Some(s@), Err(_) => old(self).rest()[0] is None },
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
}
pub open spec fn line_of(r: Result<String, VErr>) -> Option<Seq<char>> { match r { Ok(s) => Some(s@), Err(_) => None } }
pub open spec fn lines_of(v: Seq<Result<String, VErr>>) -> Seq<Option<Seq<char>>> { v.map_values(|r: Result<String, VErr>| line_of(r)) }
impl VLines { pub uninterp spec fn items_(&self) -> Seq<Result<String, VErr>>; }
pub broadcast axiom fn ax_lines(x: VLines) ensures lines_of(#[trigger] x.items_()) == x.rest();
impl VItems<Result<String, VErr>> for VLines { open spec fn items(&self) -> Seq<Result<String, VErr>> { self.items_() } }
