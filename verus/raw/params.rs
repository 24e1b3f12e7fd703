// index of the first parameter of that name
pub open spec fn first_param(ps: Seq<Parameter>, s: Seq<char>, i: int) -> Option<int> decreases ps.len() - i
{ if i < 0 || i >= ps.len() { None } else if ps[i].name@ == s { Some(i) } else { first_param(ps, s, i + 1) } }
