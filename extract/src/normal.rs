//! Loops that count, written with `while` or `loop`, are read as the `for` loops they are:
//! ```text
//! let mut i = S; while i < E { body; i += 1; }     is     for i in S..E { body }
//! let mut it = X; while let Some(p) = it.next() { body }     is     for p in X { body }
//! ```
//! Only where nothing else changes or uses the counter, the body has no `continue`, and the bound
//! cannot change while the loop runs; any other loop is left as it is.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub fn counted_loops(text: &str) -> String {
    let mut t = text.to_string();
    for _ in 0..200 {
        let ast = match syn::parse_file(&t) { Ok(a) => a, Err(_) => return text.to_string() };
        let mut f = Finder { shared_self: false, found: None };
        f.visit_file(&ast);
        let mut edits = match f.found { Some(e) => e, None => return t };
        edits.sort_by(|a, b| b.0.cmp(&a.0));
        for (lo, hi, new) in edits {
            // lines keep their numbers
            let nl = t[lo..hi].matches('\n').count().saturating_sub(new.matches('\n').count());
            t.replace_range(lo..hi, &format!("{}{}", new, "\n".repeat(nl)));
        }
    }
    t
}

fn rng(x: &impl Spanned) -> (usize, usize) { let r = x.span().byte_range(); (r.start, r.end) }

fn ident(e: &syn::Expr) -> Option<String> {
    match e { syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), syn::Expr::Paren(p) => ident(&p.expr), _ => None }
}

fn mentions(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == name,
        TokenTree::Group(g) => mentions(g.stream(), name),
        TokenTree::Literal(l) => l.to_string().contains(&format!("{{{}", name)),
        _ => false,
    })
}

fn root(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Field(f) => root(&f.base),
        syn::Expr::Index(i) => root(&i.expr),
        syn::Expr::Paren(p) => root(&p.expr),
        syn::Expr::Unary(u) => root(&u.expr),
        syn::Expr::Reference(r) => root(&r.expr),
        syn::Expr::MethodCall(m) => root(&m.receiver),
        _ => ident(e),
    }
}

/// the variables a bound reads, if it is of a simple kind
fn bound(e: &syn::Expr, out: &mut Vec<String>) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Path(p) => { if let Some(i) = p.path.get_ident() { out.push(i.to_string()); } true }
        syn::Expr::Paren(p) => bound(&p.expr, out),
        syn::Expr::Field(f) => bound(&f.base, out),
        syn::Expr::Index(i) => bound(&i.expr, out) && bound(&i.index, out),
        syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) | syn::BinOp::Div(_)) && bound(&b.left, out) && bound(&b.right, out),
        syn::Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && bound(&m.receiver, out),
        _ => false,
    }
}

const READS: [&str; 40] = ["len", "is_empty", "iter", "get", "contains", "contains_key", "clone", "to_vec", "to_string", "to_owned", "as_str", "first", "last", "abs", "chars",
    "starts_with", "ends_with", "trim", "is_some", "is_none", "copied", "cloned", "join", "eq", "ne", "cmp", "as_ref", "keys", "values", "split", "parse", "exp", "ln", "sin",
    "powf", "powi", "sqrt", "min", "max", "is_nan"];

/// whether a body changes a variable, or may
struct Changes<'a> { name: &'a str, shared_self: bool, hit: bool }
impl<'a, 'ast> Visit<'ast> for Changes<'a> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let is = |x: &syn::Expr| root(x).as_deref() == Some(self.name);
        let hit = match e {
            syn::Expr::Assign(a) => is(&a.left),
            syn::Expr::Binary(b) => b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_)) && is(&b.left),
            syn::Expr::Reference(r) => r.mutability.is_some() && is(&r.expr),
            syn::Expr::MethodCall(m) => (is(&m.receiver) && !READS.contains(&m.method.to_string().as_str()) && !(self.shared_self && self.name == "self")) || m.args.iter().any(|x| ident(x).as_deref() == Some(self.name)),
            syn::Expr::Call(c) => c.args.iter().any(|x| ident(x).as_deref() == Some(self.name)),
            syn::Expr::ForLoop(f) => f.expr.to_token_stream().to_string().starts_with("& mut") && is(&f.expr),
            _ => false,
        };
        self.hit |= hit;
        visit::visit_expr(self, e);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if p.ident == self.name { self.hit = true; } // another variable of the name
    }
}

/// `continue` of this loop (or of an outer one)
#[derive(Default)]
struct Continues { depth: usize, hit: bool }
impl<'ast> Visit<'ast> for Continues {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Continue(c) => self.hit |= c.label.is_some() || self.depth == 0,
            syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_) => { self.depth += 1; visit::visit_expr(self, e); self.depth -= 1; return; }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

type Edits = Vec<(usize, usize, String)>;
struct Finder { shared_self: bool, found: Option<Edits> }

impl Finder {
    /// `i += 1` or `i = i + 1`
    fn step(s: &syn::Stmt, i: &str) -> bool {
        let one = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(n) if n.base10_digits() == "1"));
        match s {
            syn::Stmt::Expr(syn::Expr::Binary(b), Some(_)) => matches!(b.op, syn::BinOp::AddAssign(_)) && ident(&b.left).as_deref() == Some(i) && one(&b.right),
            syn::Stmt::Expr(syn::Expr::Assign(a), Some(_)) => ident(&a.left).as_deref() == Some(i) && match &*a.right {
                syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Add(_)) && ident(&b.left).as_deref() == Some(i) && one(&b.right),
                _ => false,
            },
            _ => false,
        }
    }

    /// the `let mut x = ..` a loop at place j starts from, with nothing in between that uses x, and x unused after the loop
    fn start<'b>(b: &'b syn::Block, j: usize, x: &str) -> Option<(usize, &'b syn::Expr)> {
        for s in &b.stmts[j + 1..] {
            if let syn::Stmt::Local(l) = s {
                let again = match &l.pat { syn::Pat::Ident(p) => p.ident == x, syn::Pat::Type(t) => matches!(&*t.pat, syn::Pat::Ident(p) if p.ident == x), _ => false };
                if again && !l.init.as_ref().map_or(false, |i| mentions(i.expr.to_token_stream(), x)) { break; }
            }
            if mentions(s.to_token_stream(), x) { return None; }
        }
        for k in (0..j).rev() {
            if let syn::Stmt::Local(l) = &b.stmts[k] {
                let (p, ty) = match &l.pat { syn::Pat::Ident(p) => (p, None), syn::Pat::Type(t) => (match &*t.pat { syn::Pat::Ident(p) => p, _ => continue }, Some(&t.ty)), _ => continue };
                if p.ident == x && p.mutability.is_some() && p.subpat.is_none() {
                    if ty.map_or(false, |t| t.to_token_stream().to_string() != "usize") { return None; }
                    let i = l.init.as_ref()?;
                    if i.diverge.is_some() { return None; }
                    if k + 1 < j && !matches!(&*i.expr, syn::Expr::Lit(_)) { return None; }
                    return Some((k, &i.expr));
                }
            }
            if mentions(b.stmts[k].to_token_stream(), x) { return None; }
        }
        None
    }

    fn try_loop(&self, b: &syn::Block, j: usize) -> Option<Edits> {
        let e = match &b.stmts[j] { syn::Stmt::Expr(e, _) => e, _ => return None };
        // while let Some(p) = it.next()
        if let syn::Expr::While(w) = e {
            if let syn::Expr::Let(l) = &*w.cond {
                let p = match &*l.pat { syn::Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => &t.elems[0], _ => return None };
                if !matches!(p, syn::Pat::Ident(_) | syn::Pat::Reference(_) | syn::Pat::Tuple(_)) { return None; }
                let m = match &*l.expr { syn::Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => m, _ => return None };
                let it = ident(&m.receiver)?;
                if mentions(w.body.to_token_stream(), &it) { return None; }
                let (k, x) = Self::start(b, j, &it)?;
                if k + 1 != j { return None; }
                let (bl, _) = rng(&w.body);
                let (wl, _) = rng(w);
                return Some(vec![
                    (rng(&b.stmts[k]).0, rng(&b.stmts[k]).1, String::new()),
                    (wl, bl, format!("{}for {} in {} ", w.label.as_ref().map_or(String::new(), |l| l.to_token_stream().to_string() + " "), p.to_token_stream(), x.to_token_stream())),
                ]);
            }
        }
        let (cond, body, head, label) = match e {
            syn::Expr::While(w) => (w.cond.as_ref().clone(), &w.body, None, &w.label),
            syn::Expr::Loop(l) => {
                let first = l.body.stmts.first()?;
                let i = match first { syn::Stmt::Expr(syn::Expr::If(i), _) if i.else_branch.is_none() => i, _ => return None };
                match (&i.then_branch.stmts[..], &*i.cond) {
                    ([syn::Stmt::Expr(syn::Expr::Break(k), _)], syn::Expr::Binary(c)) if k.label.is_none() && k.expr.is_none() => {
                        let mut c = c.clone();
                        c.op = match c.op { syn::BinOp::Ge(_) => syn::BinOp::Lt(Default::default()), syn::BinOp::Gt(_) => syn::BinOp::Le(Default::default()), _ => return None };
                        (syn::Expr::Binary(c), &l.body, Some(rng(first)), &l.label)
                    }
                    _ => return None,
                }
            }
            _ => return None,
        };
        let c = match cond { syn::Expr::Binary(c) => c, _ => return None };
        let (i, end, incl) = match c.op {
            syn::BinOp::Lt(_) => (ident(&c.left)?, &c.right, false),
            syn::BinOp::Le(_) => (ident(&c.left)?, &c.right, true),
            syn::BinOp::Gt(_) => (ident(&c.right)?, &c.left, false),
            syn::BinOp::Ge(_) => (ident(&c.right)?, &c.left, true),
            _ => return None,
        };
        let last = body.stmts.last()?;
        if !Self::step(last, &i) { return None; }
        let mut co = Continues::default();
        co.visit_block(body);
        if co.hit { return None; }
        let mut vars = vec![];
        if !bound(end, &mut vars) || vars.contains(&i) { return None; }
        let rest = &body.stmts[head.is_some() as usize..body.stmts.len() - 1];
        for (v, all) in vars.iter().map(|v| (v.as_str(), true)).chain([(i.as_str(), false)]) {
            let mut ch = Changes { name: v, shared_self: self.shared_self, hit: false };
            for s in rest {
                // the counter itself is a number: passing it on does not change it
                if all { ch.visit_stmt(s); } else {
                    struct Own<'a> { i: &'a str, hit: bool }
                    impl<'a, 'ast> Visit<'ast> for Own<'a> {
                        fn visit_expr(&mut self, e: &'ast syn::Expr) {
                            let is = |x: &syn::Expr| ident(x).as_deref() == Some(self.i);
                            self.hit |= match e {
                                syn::Expr::Assign(a) => is(&a.left),
                                syn::Expr::Binary(b) => b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_)) && is(&b.left),
                                syn::Expr::Reference(r) => r.mutability.is_some() && is(&r.expr),
                                _ => false,
                            };
                            visit::visit_expr(self, e);
                        }
                        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { if p.ident == self.i { self.hit = true; } }
                    }
                    let mut o = Own { i: v, hit: false };
                    o.visit_stmt(s);
                    ch.hit |= o.hit;
                }
            }
            if ch.hit { return None; }
        }
        let (k, s) = Self::start(b, j, &i)?;
        let s = s.to_token_stream().to_string();
        let s = if s.parse::<f64>().is_ok() || s.chars().all(|c| c.is_alphanumeric() || c == '_') { s } else { format!("({})", s) };
        let (el, _) = rng(e);
        let (bl, _) = rng(body);
        let t = end.to_token_stream().to_string();
        let mut ed = vec![
            (rng(&b.stmts[k]).0, rng(&b.stmts[k]).1, String::new()),
            (el, bl, format!("{}for {} in {}{}{} ", label.as_ref().map_or(String::new(), |l| l.to_token_stream().to_string() + " "), i, s, if incl { "..=" } else { ".." }, t)),
            (rng(last).0, rng(last).1, String::new()),
        ];
        if let Some((lo, hi)) = head { ed.push((lo, hi, String::new())); }
        Some(ed)
    }
}

impl<'ast> Visit<'ast> for Finder {
    fn visit_signature(&mut self, s: &'ast syn::Signature) {
        self.shared_self = s.receiver().map_or(false, |r| r.mutability.is_none() && r.reference.is_some());
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        if self.found.is_some() { return; }
        for j in 0..b.stmts.len() {
            if let Some(e) = self.try_loop(b, j) { self.found = Some(e); return; }
        }
        visit::visit_block(self, b);
    }
}
