@prelude f64s strs io sys
@broadcast super::strs::group_strs
@opaque Circuit Configuration Reader Engine Statistics
@use group_ss
@raw
#[verifier::external_body] pub struct Circuit { x: usize }
#[verifier::external_body] pub struct Configuration { x: usize }
#[verifier::external_body] pub struct Reader { x: usize }
#[verifier::external_body] pub struct Engine { x: usize }
#[verifier::external_body] pub struct Statistics { x: usize }
// r is as Reader::new makes it
pub uninterp spec fn empty_reader(r: Reader) -> bool;
// r is what reading the file p into an empty reader leaves (contract of Reader::read, unit reader)
pub uninterp spec fn holds(r: Reader, p: Seq<char>) -> bool;
// its there_are_errors, and its cfg
pub uninterp spec fn errs(r: Reader) -> bool;
pub uninterp spec fn settings(r: Reader) -> Configuration;
// c is the flattened circuit of what r holds (contract of Reader::get_expanded_circuit, unit expander)
pub uninterp spec fn flattens(r: Reader, c: Circuit) -> bool;
// the simulations run so far: Engine::go on this circuit with these settings (its contract: unit go)
pub struct Run { pub ckt: Circuit, pub cfg: Configuration }
#[verifier::external_body] pub tracked struct World { x: usize }
impl World { pub uninterp spec fn runs(&self) -> Seq<Run>; }
// no file name given, or no such file can be looked at
pub open spec fn cannot_start() -> bool { argv().len() < 2 || !accessible(argv()[1]) }
// the runs that the deck p calls for
pub open spec fn called_for(p: Seq<char>, s: Seq<Run>) -> bool {
    exists|r: Reader| #[trigger] holds(r, p) && if errs(r) { s.len() == 0 } else { s.len() == 1 && flattens(r, s[0].ckt) && s[0].cfg == settings(r) }
}
@assumed spice.rs Reader::new
@ret r
@spec
  ensures empty_reader(r)
@endfn
@assumed spice.rs Reader::read
@ret r
@spec
  ensures empty_reader(*old(self)) ==> holds(*final(self), filepath.pv()), r == errs(*final(self))
@endfn
@assumed spice.rs Reader::get_expanded_circuit
@ret r
@spec
  ensures flattens(*self, r)
@endfn
@assumed spice.rs Reader::configuration
@ret r
@spec
  ensures *r == settings(*self)
@endfn
@assumed circuit.rs Circuit::list_elements
@endfn
@assumed circuit.rs Circuit::list_nodes
@endfn
@assumed engine.rs Engine::new
@endfn
@assumed engine.rs Engine::go
@world
@spec
  ensures final(w).runs() == old(w).runs().push(Run { ckt: *ckt, cfg: *cfg })
@endfn
@fn bin/tiny-spice.rs main
@world
@panics cannot_start()
@spec
  requires old(w).runs().len() == 0
  ensures argv().len() >= 2, called_for(argv()[1], final(w).runs())
@endfn
