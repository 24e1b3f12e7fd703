// the command line, and files as far as a program looks at them
pub uninterp spec fn argv() -> Seq<Seq<char>>;
pub uninterp spec fn accessible(p: Seq<char>) -> bool;
#[verifier::external_body] pub struct VArgs { x: usize }
impl VArgs {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn v_collect(self) -> (r: Vec<String>) ensures ss(r@) == self.rest() { unimplemented!() }
    #[verifier::external_body] pub fn v_nth(&mut self, n: usize) -> (r: Option<String>)
        ensures match r { Some(s) => n < old(self).rest().len() && s@ == old(self).rest()[n as int] && final(self).rest() == old(self).rest().subrange(n + 1, old(self).rest().len() as int),
            None => n >= old(self).rest().len() && final(self).rest().len() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<String>)
        ensures match r { Some(s) => old(self).rest().len() > 0 && s@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
}
pub mod env {
    use super::*;
    #[verifier::external_body] pub fn args() -> (r: VArgs) ensures r.rest() == argv() { unimplemented!() }
}
impl Path {
    #[verifier::external_body] pub fn try_exists(&self) -> (r: Result<bool, VErr>) ensures r is Ok == accessible(self.pv()), r is Ok && !r->Ok_0 ==> file_lines(self.pv()) is None { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures !r ==> file_lines(self.pv()) is None { unimplemented!() }
}
