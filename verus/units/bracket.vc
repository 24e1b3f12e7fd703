@prelude f64s cells strs maps nums
@broadcast super::f64s::group_f64, super::strs::group_strs
@type Expression ValueState
@rawfile numbers
@raw
pub open spec fn reader(t: Seq<char>, p: int, st: ValueState) -> bool {
    match st {
        ValueState::Start => p == 0,
        ValueState::Int => at_int(t, p),
        ValueState::Frac => at_frac(t, p),
        ValueState::ExpStart => at_es(t, p),
        ValueState::Exp => at_exp(t, p),
        ValueState::Unit => p == mend(t) && at(t, p, t[p]) && letter(t[p]),
    }
}
@fn bracket_expression.rs extract_value
@ret r
@spec
  // what is read is the number the text spells; a proper number is read
  ensures r is Some ==> r == number(text@), r is None ==> !proper(text@)
@begin
    broadcast use ax_parse;
    let ghost t = text@;
    proof { lemma_ends(t); lemma_mant(t); if at(t, mend(t), 'e') { lemma_exp(t); }
      reveal_strlit(""); assert(t.subrange(0, 0) =~= Seq::<char>::empty()); assert(t.subrange(0, t.len() as int) =~= t); }
@loop 0
    invariant reader(t, float_str@.len() as int, state), float_str@ == t.subrange(0, float_str@.len() as int), float_str@.len() <= t.len(), plain(float_str@),
      state is Unit ==> text_iter.rest() == t.subrange(float_str@.len() as int + 1, t.len() as int) && value == number(t),
      !(state is Unit) ==> text_iter.rest() == t.subrange(float_str@.len() as int, t.len() as int) && value is None && eng_mult == num(1real),
    ensures reader(t, float_str@.len() as int, state), float_str@ == t.subrange(0, float_str@.len() as int), float_str@.len() <= t.len(), plain(float_str@),
      !(state is Unit) ==> value is None && eng_mult == num(1real),
      match state {
        ValueState::Start => !proper(t),
        ValueState::Int | ValueState::Frac => float_str@.len() == mend(t) && !at(t, mend(t), 'e') && (mend(t) < t.len() ==> !letter(t[mend(t)])),
        ValueState::ExpStart => eend(t) == ebeg(t),
        ValueState::Exp => float_str@.len() == eend(t),
        ValueState::Unit => value == number(t),
      }
    decreases text_iter.rest().len()
@loop 0 begin
    proof {
      let p = float_str@.len() as int;
      if p < t.len() { assert(t.subrange(0, p).push(t[p]) =~= t.subrange(0, p + 1)); assert(t.subrange(p, t.len() as int).drop_first() =~= t.subrange(p + 1, t.len() as int)); }
      if p == t.len() || !dg(t[p]) {
        if at_int(t, p) { lemma_run_to(t, aft(t, 0), p); }
        if at_frac(t, p) { lemma_run_to(t, iend(t) + 1, p); }
        if at_exp(t, p) { lemma_run_to(t, ebeg(t), p); }
      }
    }
@endfn
@fn bracket_expression.rs extract_expression
@ret r
@spec
  // a literal is the number the text spells; a name is the one between the braces; anything else is refused
  ensures lit_of(r) is Some ==> !at(text@, 0, '{') && lit_of(r) == number(text@),
    id_of(r) is Some ==> braced(text@) && id_of(r) == Some(name_in(text@)),
    r is None ==> !(at(text@, 0, '{') && braced(text@) && nend(text@) > nbeg(text@)) && !(!at(text@, 0, '{') && proper(text@))
@begin
    let ghost t = text@;
    proof { assert(wrun(t, t.len() as int) == t.len() && arun(t, t.len() as int) == t.len()); assert(is_pre(t, seq!['{']) == at(t, 0, '{')) by { if t.len() > 0 { assert((t.subrange(0, 1) == seq!['{']) == (t[0] == '{')) by { if t[0] == '{' { assert(t.subrange(0, 1) =~= seq!['{']); } else { assert(t.subrange(0, 1)[0] == t[0]); assert(seq!['{'][0] == '{'); } } } } }
@loop 0
    invariant 1 <= i < expr_str.len(), expr_str@ == t, wrun(t, i as int) == nbeg(t),
    decreases expr_str.len() - i
@loop 1
    invariant 1 <= i < expr_str.len(), expr_str@ == t, arun(t, i as int) == nend(t), nbeg(t) <= i, ident_chars@ == t.subrange(nbeg(t), i as int),
    decreases expr_str.len() - i
@loop 1 begin
    proof { assert(t.subrange(nbeg(t), i as int).push(t[i as int]) =~= t.subrange(nbeg(t), i + 1)); }
@loop 2
    invariant 1 <= i < expr_str.len(), expr_str@ == t, wrun(t, i as int) == wrun(t, nend(t)), ident@ == name_in(t),
    decreases expr_str.len() - i
@endfn
