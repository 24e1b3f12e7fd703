// numbers as text
pub trait VFromStr: Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; }
pub uninterp spec fn parsed_f64(s: Seq<char>) -> Option<f64>;
impl VFromStr for f64 { open spec fn parsed(s: Seq<char>) -> Option<f64> { parsed_f64(s) } }
pub uninterp spec fn parsed_usize(s: Seq<char>) -> Option<usize>;
impl VFromStr for usize { open spec fn parsed(s: Seq<char>) -> Option<usize> { parsed_usize(s) } }
pub trait VParse {
    spec fn ptext(&self) -> Seq<char>;
    fn v_parse<F: VFromStr>(&self) -> (r: Result<F, VErr>)
        ensures match r { Ok(v) => F::parsed(self.ptext()) == Some(v), Err(_) => F::parsed(self.ptext()) is None };
}
impl VParse for str { open spec fn ptext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_parse<F: VFromStr>(&self) -> (r: Result<F, VErr>) { unimplemented!() } }
impl VParse for String { open spec fn ptext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_parse<F: VFromStr>(&self) -> (r: Result<F, VErr>) { unimplemented!() } }
