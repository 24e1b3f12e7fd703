pub struct VErr { x: usize }
// str and String: only their character sequences
pub broadcast axiom fn ax_so1() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_se1(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_so2() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_se2(a: String, b: &String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_so3<'a>() ensures #[trigger] <String as PartialEqSpec<&'a str>>::obeys_eq_spec();
pub broadcast axiom fn ax_se3<'a>(a: String, b: &&'a str) ensures #[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_so4() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_se4(a: &str, b: &String) ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_so5<'a>() ensures #[trigger] <&'a str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_se5<'a>(a: &&'a str, b: &String) ensures #[trigger] <&'a str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast group group_strs { ax_trim_lr, ax_trim_rl, ax_so1, ax_se1, ax_so2, ax_se2, ax_so3, ax_se3, ax_so4, ax_se4, ax_so5, ax_se5 }

// a pattern: one character, or a text
pub trait VPat {
    spec fn pv(&self) -> Seq<char>;
}
impl VPat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] } }
impl<'a> VPat for &'a str { open spec fn pv(&self) -> Seq<char> { (*self)@ } }
impl<'a> VPat for &'a String { open spec fn pv(&self) -> Seq<char> { (*self)@ } }
pub open spec fn is_pre(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn is_suf(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn is_in(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
// number of times c occurs
pub open spec fn n_char(s: Seq<char>, c: char) -> nat decreases s.len()
{ if s.len() == 0 { 0 } else { n_char(s.drop_last(), c) + if s.last() == c { 1nat } else { 0nat } } }
// the pieces between the occurrences of c
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len()
{
    if s.len() == 0 { seq![s] }
    else if s.last() == c { pieces(s.drop_last(), c).push(Seq::<char>::empty()) }
    else { let p = pieces(s.drop_last(), c); p.update(p.len() - 1, p.last().push(s.last())) }
}
// the maximal runs of characters that are not white space
pub uninterp spec fn is_ws(c: char) -> bool;
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn trimmed(s: Seq<char>, t: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>| s == #[trigger] (a + t + b) && (forall|i: int| 0 <= i < a.len() ==> is_ws(#[trigger] a[i])) && (forall|i: int| 0 <= i < b.len() ==> is_ws(#[trigger] b[i]))
    && (t.len() > 0 ==> !is_ws(t[0]) && !is_ws(t.last()))
}
// the texts of a list
pub open spec fn ss(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub broadcast proof fn bl_ss_push(v: Seq<String>, x: String)
    ensures #[trigger] ss(v.push(x)) == ss(v).push(x@)
{ assert(ss(v.push(x)) =~= ss(v).push(x@)); }
pub broadcast proof fn bl_ss_pop(v: Seq<String>)
    requires v.len() > 0
    ensures #[trigger] ss(v.drop_last()) == ss(v).drop_last()
{ assert(ss(v.drop_last()) =~= ss(v).drop_last()); }
pub broadcast proof fn bl_push_pop(v: Seq<Seq<char>>, x: Seq<char>)
    ensures #[trigger] v.push(x).drop_last() == v
{ assert(v.push(x).drop_last() =~= v); }
pub broadcast proof fn bl_ss_sub(v: Seq<String>, i: int, j: int)
    requires 0 <= i <= j <= v.len()
    ensures #[trigger] ss(v.subrange(i, j)) == ss(v).subrange(i, j)
{ assert(ss(v.subrange(i, j)) =~= ss(v).subrange(i, j)); }
pub broadcast proof fn bl_push_sub(v: Seq<Seq<char>>, x: Seq<char>, j: int)
    requires 0 <= j <= v.len()
    ensures #[trigger] v.push(x).subrange(0, j) == v.subrange(0, j)
{ assert(v.push(x).subrange(0, j) =~= v.subrange(0, j)); }
pub broadcast proof fn bl_sub_all(v: Seq<Seq<char>>, j: int)
    requires j == v.len()
    ensures #[trigger] v.subrange(0, j) == v
{ assert(v.subrange(0, j) =~= v); }
pub broadcast proof fn bl_ss_len(v: Seq<String>)
    ensures #[trigger] ss(v).len() == v.len()
{}
pub broadcast group group_ss { bl_ss_push, bl_ss_pop, bl_push_pop, bl_ss_sub, bl_push_sub, bl_sub_all, bl_ss_len }
pub open spec fn sr(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
// a.b.c
pub open spec fn joined(p: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases p.len()
{ if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { joined(p.drop_last(), sep) + sep + p.last() } }

// every occurrence of p, from the left, exchanged for b
pub uninterp spec fn replaced(s: Seq<char>, p: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_trim(s: Seq<char>) ensures trimmed(s, #[trigger] trim(s));
// s without every p it starts (ends) with
pub open spec fn strip_pre(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len()
{ if p.len() > 0 && is_pre(s, p) { strip_pre(s.subrange(p.len() as int, s.len() as int), p) } else { s } }
pub open spec fn strip_suf(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len()
{ if p.len() > 0 && is_suf(s, p) { strip_suf(s.subrange(0, s.len() - p.len()), p) } else { s } }
// letter case
pub open spec fn lo_c(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u8 + 32) as u8) as char } else { c } }
pub open spec fn up_c(c: char) -> char { if 'a' <= c <= 'z' { ((c as u8 - 32) as u8) as char } else { c } }
pub open spec fn lo_s(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lo_c(s[i])) }
pub open spec fn up_s(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| up_c(s[i])) }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn uppered(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_lowered(s: Seq<char>) requires ascii(s) ensures #[trigger] lowered(s) == lo_s(s);
pub broadcast axiom fn ax_uppered(s: Seq<char>) requires ascii(s) ensures #[trigger] uppered(s) == up_s(s);
// white space is taken off one end
pub uninterp spec fn trim_l(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_r(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_trim_lr(s: Seq<char>) ensures #[trigger] trim_l(trim_r(s)) == trim(s);
pub broadcast axiom fn ax_trim_rl(s: Seq<char>) ensures #[trigger] trim_r(trim_l(s)) == trim(s);
pub trait VStr {
    spec fn sv(&self) -> Seq<char>;
    fn v_to_string(&self) -> (r: String) ensures r@ == self.sv();
    fn v_to_owned(&self) -> (r: String) ensures r@ == self.sv();
    fn v_as_str(&self) -> (r: &str) ensures r@ == self.sv();
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_pre(self.sv(), p.pv());
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_suf(self.sv(), p.pv());
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_in(self.sv(), p.pv());
    fn v_count(&self, c: char) -> (r: usize) ensures r == n_char(self.sv(), c);
    fn v_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures match r { Some(p) => self.sv() == p.0@ + seq![c] + p.1@ && !p.1@.contains(c), None => !self.sv().contains(c) };
    fn v_split_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures match r { Some(p) => self.sv() == p.0@ + seq![c] + p.1@ && !p.0@.contains(c), None => !self.sv().contains(c) };
    fn v_replace<P: VPat>(&self, p: P, by: &str) -> (r: String) ensures r@ == replaced(self.sv(), p.pv(), by@);
    fn v_trim(&self) -> (r: &str) ensures r@ == trim(self.sv());
    fn v_trim_start(&self) -> (r: &str) ensures r@ == trim_l(self.sv());
    fn v_trim_end(&self) -> (r: &str) ensures r@ == trim_r(self.sv());
    fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) ensures r@ == strip_pre(self.sv(), p.pv());
    fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) ensures r@ == strip_suf(self.sv(), p.pv());
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => self.sv() == p.pv() + t@, None => !is_pre(self.sv(), p.pv()) };
    fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => self.sv() == t@ + p.pv(), None => !is_suf(self.sv(), p.pv()) };
    fn v_to_lowercase(&self) -> (r: String) ensures r@ == lowered(self.sv());
    fn v_to_uppercase(&self) -> (r: String) ensures r@ == uppered(self.sv());
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lo_s(self.sv());
    fn v_to_ascii_uppercase(&self) -> (r: String) ensures r@ == up_s(self.sv());
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (lo_s(self.sv()) == lo_s(o@));
    fn v_chars(&self) -> (r: VChars) ensures r.rest() == self.sv();
    fn v_split<'a>(&'a self, c: char) -> (r: VSplit<'a>) ensures r.rest() == pieces(self.sv(), c);
    fn v_split_whitespace<'a>(&'a self) -> (r: VSplit<'a>) ensures r.rest() == words(self.sv());
}
impl VStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_count(&self, c: char) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, by: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() }
    #[verifier::external_body] fn v_split<'a>(&'a self, c: char) -> (r: VSplit<'a>) { unimplemented!() }
    #[verifier::external_body] fn v_split_whitespace<'a>(&'a self) -> (r: VSplit<'a>) { unimplemented!() }
}
impl VStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_count(&self, c: char) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, by: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() }
    #[verifier::external_body] fn v_split<'a>(&'a self, c: char) -> (r: VSplit<'a>) { unimplemented!() }
    #[verifier::external_body] fn v_split_whitespace<'a>(&'a self) -> (r: VSplit<'a>) { unimplemented!() }
}
// iterators, by what is still to come
#[verifier::external_body]
pub struct VChars { x: usize }
impl VChars {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
    #[verifier::external_body] pub fn v_collect(self) -> (r: Vec<char>) ensures r@ == self.rest() { unimplemented!() }
}
#[verifier::external_body]
pub struct VSplit<'a> { x: &'a str }
impl<'a> VSplit<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(c) => old(self).rest().len() > 0 && c@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
    #[verifier::external_body] pub fn v_collect(self) -> (r: Vec<&'a str>) ensures sr(r@) == self.rest() { unimplemented!() }
}
pub trait VCollectStr { spec fn cv(&self) -> Seq<char>; fn v_collect(self) -> (r: String) ensures r@ == self.cv(); }
impl VCollectStr for Vec<char> { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_collect(self) -> (r: String) { unimplemented!() } }
// String::from, String::new
pub trait VInto { spec fn iv(&self) -> Seq<char>; }
impl<'a> VInto for &'a str { open spec fn iv(&self) -> Seq<char> { (*self)@ } }
impl<'a> VInto for &'a String { open spec fn iv(&self) -> Seq<char> { (*self)@ } }
impl VInto for String { open spec fn iv(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn str_from<T: VInto>(x: T) -> (r: String) ensures r@ == x.iv() { unimplemented!() }
#[verifier::external_body] pub fn str_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn str_cat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
// growing a String
pub trait VPush: Sized {
    spec fn gv(&self) -> Seq<char>;
    fn push(&mut self, c: char) ensures final(self).gv() == old(self).gv().push(c);
    fn v_push_str(&mut self, s: &str) ensures final(self).gv() == old(self).gv() + s@;
}
impl VPush for String {
    open spec fn gv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn push(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body] fn v_push_str(&mut self, s: &str) { unimplemented!() }
}
// ["a", "b"].join(".")
pub trait VJoin { spec fn jv(&self) -> Seq<Seq<char>>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jv(), sep@); }
impl VJoin for Vec<String> { open spec fn jv(&self) -> Seq<Seq<char>> { ss(self@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl VJoin for [String] { open spec fn jv(&self) -> Seq<Seq<char>> { ss(self@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
// the order of texts: some strict total order
pub uninterp spec fn slt(a: Seq<char>, b: Seq<char>) -> bool;
pub broadcast axiom fn ax_slt_ir(a: Seq<char>) ensures !#[trigger] slt(a, a);
pub axiom fn ax_slt_tr(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires slt(a, b), slt(b, c) ensures slt(a, c);
pub axiom fn ax_slt_tot(a: Seq<char>, b: Seq<char>) ensures slt(a, b) || slt(b, a) || a == b;
#[verifier::external_body] pub fn str_lt(a: &str, b: &str) -> (r: bool) ensures r == slt(a@, b@) { unimplemented!() }
// Option::copied
pub trait VCopied<T> { spec fn ov(&self) -> Option<T>; fn v_copied(self) -> (r: Option<T>) ensures r == self.ov(); }
impl<'a, T: Copy> VCopied<T> for Option<&'a T> {
    open spec fn ov(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body] fn v_copied(self) -> (r: Option<T>) { unimplemented!() }
}
// slices of vectors and slices
pub trait VSub<T> { spec fn bv(&self) -> Seq<T>; }
impl<T> VSub<T> for Vec<T> { open spec fn bv(&self) -> Seq<T> { self@ } }
impl<T> VSub<T> for [T] { open spec fn bv(&self) -> Seq<T> { self@ } }
impl<'a, T> VSub<T> for &'a [T] { open spec fn bv(&self) -> Seq<T> { self@ } }
#[verifier::external_body] pub fn v_sub<T, V: VSub<T> + ?Sized>(v: &V, a: usize, b: usize) -> (r: &[T])
    requires a <= b <= v.bv().len() ensures r@ == v.bv().subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn v_from<T, V: VSub<T> + ?Sized>(v: &V, a: usize) -> (r: &[T])
    requires a <= v.bv().len() ensures r@ == v.bv().subrange(a as int, v.bv().len() as int) { unimplemented!() }
// consecutive pieces of n items, the last one possibly shorter
#[verifier::external_body] pub fn v_chunks<T, V: VSub<T> + ?Sized>(v: &V, n: usize) -> (r: Vec<&[T]>)
    requires n > 0
    ensures r.len() == (v.bv().len() + n - 1) / (n as int),
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == v.bv().subrange(i * n, if (i + 1) * n <= v.bv().len() { (i + 1) * n } else { v.bv().len() as int }) { unimplemented!() }
// char classes
pub uninterp spec fn is_alnum(c: char) -> bool;
pub uninterp spec fn is_alpha(c: char) -> bool;
pub uninterp spec fn is_numr(c: char) -> bool;
pub uninterp spec fn is_dig(c: char, base: u32) -> bool;
pub trait VChar { spec fn chv(&self) -> char;
    fn v_is_whitespace(&self) -> (r: bool) ensures r == is_ws(self.chv());
    fn v_is_alphanumeric(&self) -> (r: bool) ensures (self.chv() as u32) < 128 ==> r == ('0' <= self.chv() <= '9' || 'a' <= self.chv() <= 'z' || 'A' <= self.chv() <= 'Z'), r == is_alnum(self.chv());
    fn v_is_alphabetic(&self) -> (r: bool) ensures (self.chv() as u32) < 128 ==> r == ('a' <= self.chv() <= 'z' || 'A' <= self.chv() <= 'Z'), r == is_alpha(self.chv());
    fn v_is_numeric(&self) -> (r: bool) ensures (self.chv() as u32) < 128 ==> r == ('0' <= self.chv() <= '9'), r == is_numr(self.chv());
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == ('a' <= self.chv() <= 'z' || 'A' <= self.chv() <= 'Z');
    fn v_is_ascii_whitespace(&self) -> (r: bool) ensures r == (self.chv() == ' ' || self.chv() == '\t' || self.chv() == '\n' || self.chv() == '\r' || self.chv() == '\x0c'), r ==> is_ws(self.chv());
    fn v_to_ascii_lowercase(&self) -> (r: char) ensures r == lo_c(self.chv());
    fn v_to_ascii_uppercase(&self) -> (r: char) ensures r == up_c(self.chv());
    fn v_is_digit(&self, base: u32) -> (r: bool) ensures base == 10 ==> r == ('0' <= self.chv() <= '9'), r == is_dig(self.chv(), base);
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == ('0' <= self.chv() <= '9');
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == ('0' <= self.chv() <= '9' || 'a' <= self.chv() <= 'z' || 'A' <= self.chv() <= 'Z');
}
impl VChar for char { open spec fn chv(&self) -> char { *self }
    #[verifier::external_body] fn v_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_numeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn v_is_digit(&self, base: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
}

// format!
pub trait VShow { spec fn shown(&self) -> Seq<char>; }
pub uninterp spec fn dec_text(n: int) -> Seq<char>;
impl VShow for usize { open spec fn shown(&self) -> Seq<char> { dec_text(*self as int) } }
impl VShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a, T: VShow + ?Sized> VShow for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
// a number with nine decimals
pub uninterp spec fn nine(x: f64) -> Seq<char>;
pub trait VFix9 { spec fn fixed9(&self) -> Seq<char>; }
impl VFix9 for f64 { open spec fn fixed9(&self) -> Seq<char> { nine(*self) } }
impl<'a, T: VFix9 + ?Sized> VFix9 for &'a T { open spec fn fixed9(&self) -> Seq<char> { (**self).fixed9() } }
#[verifier::external_body] pub struct StrBuild { x: usize }
impl StrBuild {
    pub uninterp spec fn sb(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.sb() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: Self) ensures r.sb() == self.sb() + s@ { unimplemented!() }
    #[verifier::external_body] pub fn arg<T: VShow + ?Sized>(self, x: &T) -> (r: Self) ensures r.sb() == self.sb() + x.shown() { unimplemented!() }
    #[verifier::external_body] pub fn fix9<T: VFix9 + ?Sized>(self, x: &T) -> (r: Self) ensures r.sb() == self.sb() + x.fixed9() { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: String) ensures r@ == self.sb() { unimplemented!() }
}
// for x in e, where e gives items by value
pub trait VItems<T> { spec fn items(&self) -> Seq<T>; }
impl<T> VItems<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } }
impl<'a, T> VItems<&'a T> for &'a [T] { open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<'a, T> VItems<&'a T> for &'a Vec<T> { open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
#[verifier::external_body] pub fn v_all<T, I: VItems<T>>(x: I) -> (r: Vec<T>) ensures r@ == x.items() { unimplemented!() }
#[verifier::external_body] pub fn v_item<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v.len() ensures r == v[i as int] { unimplemented!() }

// where a failure aborts the run, if it may
pub trait VUnwrap<T> { spec fn uv(&self) -> Option<T>; fn vunwrap(self, Ghost(may): Ghost<bool>) -> (r: T) requires self.uv() is Some || may ensures self.uv() == Some(r); }
impl<T> VUnwrap<T> for Option<T> { open spec fn uv(&self) -> Option<T> { *self } #[verifier::external_body] fn vunwrap(self, Ghost(may): Ghost<bool>) -> (r: T) { unimplemented!() } }
impl<T, E> VUnwrap<T> for Result<T, E> { open spec fn uv(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } } #[verifier::external_body] fn vunwrap(self, Ghost(may): Ghost<bool>) -> (r: T) { unimplemented!() } }
#[verifier::external_body] pub fn vabort_if(Ghost(may): Ghost<bool>) -> ! requires may ensures false { panic!() }
// cuts off a branch that another part of the same function covers (@split)
#[verifier::external_body] pub fn v_other_part() ensures false { unimplemented!() }
#[verifier::external_body] pub fn v_idx<T, V: VSub<T> + ?Sized>(v: &V, i: usize, Ghost(may): Ghost<bool>) -> (r: &T)
    requires i < v.bv().len() || may ensures i < v.bv().len(), *r == v.bv()[i as int] { unimplemented!() }
#[verifier::external_body] pub fn v_sub_p<T, V: VSub<T> + ?Sized>(v: &V, a: usize, b: usize, Ghost(may): Ghost<bool>) -> (r: &[T])
    requires a <= b <= v.bv().len() || may ensures a <= b <= v.bv().len(), r@ == v.bv().subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn v_from_p<T, V: VSub<T> + ?Sized>(v: &V, a: usize, Ghost(may): Ghost<bool>) -> (r: &[T])
    requires a <= v.bv().len() || may ensures a <= v.bv().len(), r@ == v.bv().subrange(a as int, v.bv().len() as int) { unimplemented!() }
