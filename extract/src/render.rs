//! Rendering of one function (or type, or constant) of the crate as Verus text.
//!
//! Works by splicing the original text: every rewrite is an edit of a byte range.
use crate::contract::*;
use crate::index::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Rendered {
    pub text: String,
    pub lost: Vec<String>,
    pub literals: BTreeSet<String>,
    pub types: BTreeSet<String>,
    pub consts: BTreeSet<String>,
    pub dropped: Vec<String>,
    pub inlined: Vec<String>,
    pub base: BaseFn,
    pub hint_lost: bool,
    pub unmeasured: bool, // a loop without a decreases clause
    pub lines: (usize, usize),
}

#[derive(Clone)]
struct Edit {
    lo: usize,
    hi: usize,
    text: String,
    prio: i32,
}

/// State shared by a function and the helpers inlined into it.
#[derive(Default)]
struct Shared {
    lost: Vec<String>,
    literals: BTreeSet<String>,
    types: BTreeSet<String>,
    consts: BTreeSet<String>,
    dropped: Vec<String>,
    inlined: Vec<String>,
    locals: Vec<String>,
    loops: usize,
    unmeasured: bool,
    loop_stack: Vec<usize>,
    parts: usize, // branches of the loop that is checked in parts
    breaks: usize,
    continues: usize,
    returns: usize,
    fresh: usize,
    depth: usize,
    anchor_hits: BTreeMap<usize, usize>, // anchor index -> statements matched so far
    anchor_done: BTreeSet<usize>,
    maps: usize,
    strs: BTreeSet<String>, // variables that hold a String
    iters: BTreeMap<String, (syn::Expr, usize, usize)>, // variables that only name the iterator of one loop
}

struct Ctx<'a> {
    idx: &'a Index,
    unit: &'a Unit,
    fc: &'a FnContract,
    file: Rc<File>,
    self_ty: String,
    fn_key: String,
    edits: Vec<Edit>,
    sh: &'a mut Shared,
    rename: &'a BTreeMap<String, String>,
    leaves: Vec<String>,
    split: bool,
}

fn rng(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn strip_ws(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Replace identifiers in contract text.
pub fn rename_text(s: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return s.to_string();
    }
    let mut out = String::new();
    let mut id = String::new();
    let mut prev = ' ';
    let flush = |id: &mut String, out: &mut String, prev: char| {
        if !id.is_empty() {
            match map.get(id.as_str()) {
                Some(n) if prev != '.' && prev != ':' => out.push_str(n),
                _ => out.push_str(id),
            }
            id.clear();
        }
    };
    let mut before_id = ' ';
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            if id.is_empty() {
                before_id = prev;
            }
            id.push(c);
        } else {
            flush(&mut id, &mut out, before_id);
            out.push(c);
        }
        prev = c;
    }
    flush(&mut id, &mut out, before_id);
    out
}

const DROP_MACROS: &[&str] = &["println", "print", "eprintln", "eprint", "trace", "dbg"];
const PANIC_MACROS: &[&str] = &["panic", "todo", "unimplemented", "unreachable"];

impl<'a> Ctx<'a> {
    fn src(&self, lo: usize, hi: usize) -> &str {
        &self.file.text[lo..hi]
    }
    fn edit(&mut self, lo: usize, hi: usize, text: String) {
        if hi > lo {
            self.edits.retain(|e| !(e.lo >= lo && e.hi <= hi));
        }
        self.edits.push(Edit { lo, hi, text, prio: 0 });
    }
    fn insert(&mut self, at: usize, text: String, prio: i32) {
        self.edits.push(Edit { lo: at, hi: at, text, prio });
    }
    /// Text of a range with the edits made inside it.
    fn render(&self, lo: usize, hi: usize) -> String {
        let mut es: Vec<&Edit> = self.edits.iter().filter(|e| e.lo >= lo && e.hi <= hi).collect();
        // a zero-length edit precedes a replacement starting at the same place
        es.sort_by_key(|e| (e.lo, if e.hi > e.lo { 1 } else { 0 }, e.prio));
        let mut out = String::new();
        let mut at = lo;
        for e in es {
            if e.lo < at {
                continue; // inside a replaced range
            }
            out.push_str(self.src(at, e.lo));
            out.push_str(&e.text);
            at = e.hi;
        }
        out.push_str(self.src(at, hi));
        out
    }
    fn r<T: Spanned>(&self, t: &T) -> String {
        let (lo, hi) = rng(t.span());
        self.render(lo, hi)
    }
    fn c(&self, s: &str) -> String {
        rename_text(s, self.rename)
    }
    fn lost(&mut self, s: impl Into<String>) {
        self.sh.lost.push(s.into());
    }

    fn anchor_text(&mut self, what: &str) -> String {
        let mut t = String::new();
        for (i, a) in self.fc.anchors.iter().enumerate() {
            if a.what == what {
                self.sh.anchor_done.insert(i);
                t.push_str(&rename_text(&a.text, self.rename));
            }
        }
        t
    }
    fn nth_anchor(&mut self, what: &str, n: usize) -> Option<String> {
        for (i, a) in self.fc.anchors.iter().enumerate() {
            if a.what == what && a.nth == n {
                self.sh.anchor_done.insert(i);
                return Some(rename_text(&a.text, self.rename));
            }
        }
        None
    }

    /// `@loop N leaf`: ghost text at the end of every branch the body of loop N may end in
    fn leaf_block(&mut self, b: &syn::Block, text: &str) {
        // statements without an effect at the end do not count
        let mut k = b.stmts.len();
        while k > 0 {
            let idle = match &b.stmts[k - 1] {
                syn::Stmt::Macro(m) => m.mac.path.get_ident().map_or(false, |i| DROP_MACROS.contains(&i.to_string().as_str())),
                syn::Stmt::Local(l) => matches!(l.pat, syn::Pat::Wild(_)) && l.init.as_ref().map_or(true, |i| i.diverge.is_none() && idle_expr(&i.expr)),
                syn::Stmt::Expr(e, Some(_)) => idle_expr(e),
                _ => false,
            };
            if !idle { break; }
            k -= 1;
        }
        if k > 0 {
            if let syn::Stmt::Expr(e, _) = &b.stmts[k - 1] {
                if self.leaf_expr(e, text) { return; }
                if matches!(e, syn::Expr::Continue(_) | syn::Expr::Break(_) | syn::Expr::Return(_)) { return; }
            }
        }
        let semi = match b.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_)),
            Some(syn::Stmt::Macro(m)) => m.semi_token.is_none(),
            _ => false,
        };
        let at = rng(b.span()).1 - 1;
        if self.split {
            let k = self.sh.parts;
            self.sh.parts += 1;
            self.insert(rng(b.span()).0 + 1, format!("/*PART {k}*/"), -10);
        }
        self.insert(at, format!("{}{}", if semi { ";\n" } else { "\n" }, text), 1);
    }
    fn leaf_expr(&mut self, e: &syn::Expr, text: &str) -> bool {
        match e {
            syn::Expr::If(i) => {
                self.leaf_block(&i.then_branch, text);
                match &i.else_branch {
                    Some((_, x)) => { if !self.leaf_expr(x, text) { self.lost("an else the extraction does not know"); } }
                    None => { let at = rng(i.span()).1; let m = if self.split { self.sh.parts += 1; format!("/*PART {}*/", self.sh.parts - 1) } else { String::new() }; self.insert(at, format!(" else {{{m}\n{text}}}"), 1); }
                }
                true
            }
            syn::Expr::Block(b) if b.label.is_none() => { self.leaf_block(&b.block, text); true }
            syn::Expr::Match(m) if m.arms.iter().all(|a| matches!(&*a.body, syn::Expr::Block(b) if b.label.is_none())) => {
                for a in &m.arms { self.leaf_expr(&a.body, text); }
                true
            }
            _ => false,
        }
    }

    /// (invariant_except_break, invariant, ensures, decreases) of loop n
    fn ghost_place(e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            syn::Expr::Paren(p) => Self::ghost_place(&p.expr),
            syn::Expr::Field(f) => match &f.member { syn::Member::Named(m) => Some(format!("{}.{}", Self::ghost_place(&f.base)?, m)), _ => None },
            syn::Expr::Index(x) => match &*x.index { syn::Expr::Path(_) => Some(format!("{}[{} as int]", Self::ghost_place(&x.expr)?, Self::ghost_place(&x.index)?)), _ => None },
            _ => None,
        }
    }

    fn loop_spec(&mut self, n: usize, auto_inv: &[String], auto_dec: Option<String>) -> String {
        let text = self.fc.loops.get(&n).cloned().unwrap_or_default();
        let text = self.c(&text);
        let mut sec: BTreeMap<&str, String> = BTreeMap::new();
        let mut cur = "invariant";
        for line in text.lines() {
            let mut l = line.trim();
            for k in ["invariant_except_break", "invariant", "ensures", "decreases"] {
                if let Some(rest) = l.strip_prefix(k) {
                    if rest.is_empty() || rest.starts_with(' ') {
                        cur = k;
                        l = rest;
                        break;
                    }
                }
            }
            let e = sec.entry(cur).or_default();
            e.push_str(l);
            e.push('\n');
        }
        let mut out = String::from("\n");
        for k in ["invariant_except_break", "invariant", "ensures", "decreases"] {
            let mut body = sec.get(k).cloned().unwrap_or_default();
            if k == "invariant" && !auto_inv.is_empty() {
                body = format!("{},\n{}", auto_inv.join(", "), body);
            }
            if k == "decreases" && body.trim().is_empty() {
                if let Some(d) = &auto_dec {
                    body = d.clone();
                }
            }
            if !body.trim().is_empty() {
                out.push_str(&format!("  {} {}\n", k, body.trim_end()));
            } else if k == "decreases" {
                self.sh.unmeasured = true;
            }
        }
        out
    }

    fn loop_range(&mut self, body: &syn::Block) -> (usize, usize) {
        let (lo, hi) = rng(body.span());
        (lo + 1, hi - 1)
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop, n: usize) {
        let label = match &f.label {
            Some(l) => self.r(l) + " ",
            None => String::new(),
        };
        let pat = self.r(&*f.pat);
        let (blo, bhi) = self.loop_range(&f.body);
        let body = self.render(blo, bhi);
        let begin = self.anchor_text(&format!("loop {} begin", n));
        let end = self.anchor_text(&format!("loop {} end", n));
        let it = format!("it{}", n);
        let kind = self.fc.fors.get(&n).cloned().unwrap_or_default();

        // peel the iterator expression
        let mut e: &syn::Expr = &f.expr;
        let aliased;
        if let syn::Expr::Path(p) = e {
            if let Some((x, lo, hi)) = p.path.get_ident().and_then(|i| self.sh.iters.get(&i.to_string())).cloned() {
                aliased = x;
                e = &aliased;
                self.edit(lo, hi, String::new());
            }
        }
        let mut rev = false;
        let mut enumerate = false;
        let mut skip: Option<String> = None;
        let mut take: Option<String> = None;
        let mut zip: Option<String> = None;
        let mut by_value = false; // copied()
        let mut relative = false; // enumerate() counts from the first item not skipped
        let mut what = "";
        loop {
            match e {
                syn::Expr::Paren(p) => e = &p.expr,
                syn::Expr::Group(p) => e = &p.expr,
                syn::Expr::MethodCall(m) => {
                    let name = m.method.to_string();
                    match (name.as_str(), m.args.len()) {
                        ("rev", 0) => rev = !rev,
                        ("enumerate", 0) if !rev => enumerate = true,
                        ("skip", 1) if !rev && zip.is_none() && skip.is_none() && take.is_none() => { relative = enumerate; skip = Some(self.r(&m.args[0])) }
                        ("take", 1) if !rev && zip.is_none() && take.is_none() => take = Some(self.r(&m.args[0])),
                        ("chunks", 1) if !rev && zip.is_none() && take.is_none() && skip.is_none() => { what = "chunks"; break; }
                        ("split_whitespace", 0) | ("split", 1) => { what = "split"; break; }
                        ("zip", 1) if !rev && zip.is_none() => {
                            let mut z = &m.args[0];
                            while let syn::Expr::MethodCall(mm) = z {
                                if mm.method == "iter" && mm.args.is_empty() { z = &mm.receiver } else { break }
                            }
                            if let syn::Expr::Reference(rf) = z { z = &rf.expr; }
                            zip = Some(self.r(z));
                        }
                        ("iter", 0) => { e = &m.receiver; what = if self.is_map(e) { "map" } else { "slice" }; break; }
                        ("iter_mut", 0) => { e = &m.receiver; what = "mut"; break; }
                        ("chars", 0) => { e = &m.receiver; what = "chars"; break; }
                        ("copied", 0) if !by_value => by_value = true,
                        ("copied", 0) | ("cloned", 0) => { what = "bad"; break; }
                        _ => { what = "other"; break; }
                    }
                    e = &m.receiver;
                }
                syn::Expr::Range(_) => { what = "range"; break; }
                syn::Expr::Reference(rf) => {
                    e = &rf.expr;
                    if rf.mutability.is_some() { what = "mut"; break; }
                    what = if self.is_map(e) { "map" } else { "slice" };
                    break;
                }
                _ => { what = "other"; break; }
            }
        }
        if !kind.is_empty() {
            what = &kind;
        }
        let mut pre = String::new();
        let text;
        match what {
            "range" => {
                let rg = match e { syn::Expr::Range(r) => r, _ => { self.lost(format!("loop {}: not a range", n)); return; } };
                if skip.is_some() || take.is_some() || zip.is_some() || enumerate {
                    self.lost(format!("loop {}: unsupported iterator", n));
                    return;
                }
                let a = match &rg.start { Some(x) => self.r(&**x), None => "0".into() };
                let b = match &rg.end { Some(x) => self.r(&**x), None => { self.lost(format!("loop {}: unbounded range", n)); return; } };
                let incl = matches!(rg.limits, syn::RangeLimits::Closed(_));
                if !rev {
                    pre = format!("let {it}_s: usize = {a}; let {it}_end: usize = {b}; let mut {it}: usize = {it}_s;\n");
                    let (op, lim) = if incl { ("<=", format!("{it}_end + 1")) } else { ("<", format!("{it}_end")) };
                    let inv = vec![format!("{it}_s <= {it}"), format!("({it} <= {lim} || {it} == {it}_s)")];
                    // `0..list.len()` walks the list by index: what the contract says about the list holds of it
                    if let (Some(syn::Expr::MethodCall(m)), false, "0") = (rg.end.as_deref(), incl, a.as_str()) {
                        if m.method == "len" && self.fc.loops.get(&n).map_or(false, |t| t.contains(&format!("{it}_v@"))) {
                            if let Some(p) = Self::ghost_place(&m.receiver) { pre.push_str(&format!("let ghost {it}_v = {p};\n")); }
                        }
                    }
                    let spec = self.loop_spec(n, &inv, Some(format!("{lim} - {it}")));
                    // the text for the start of an iteration goes after `let x = &list[i];`, the step to the item itself
                    let mut step = String::new();
                    let mut body = body;
                    if let Some(syn::Stmt::Local(l)) = f.body.stmts.first() {
                        let mut v = l.init.as_ref().map(|i| &*i.expr);
                        while let Some(syn::Expr::Reference(x)) = v { v = Some(&x.expr); }
                        if let Some(syn::Expr::Index(x)) = v {
                            if self.r(&*x.index) == pat && l.init.as_ref().map_or(false, |i| i.diverge.is_none()) {
                                let (_, mid) = rng(l.span());
                                step = self.render(blo, mid) + "\n";
                                body = self.render(mid, bhi);
                            }
                        }
                    }
                    text = format!("{label}while {it} {op} {it}_end {spec}{{ let {pat} = {it}; {it} = {it} + 1;\n{step}{begin}{body}{end}}}");
                } else {
                    let hi = if incl { format!("({b}) + 1") } else { b };
                    pre = format!("let {it}_s: usize = {a}; let {it}_end: usize = {hi}; let mut {it}: usize = {it}_end;\n");
                    let inv = vec![format!("{it} <= {it}_end"), format!("({it}_s <= {it} || {it} == {it}_end)")];
                    let spec = self.loop_spec(n, &inv, Some(format!("{it} - {it}_s")));
                    text = format!("{label}while {it} > {it}_s {spec}{{ {it} = {it} - 1; let {pat} = {it};\n{begin}{body}{end}}}");
                }
            }
            "slice" | "chars" | "map" | "vec" | "chunks" | "split" | "mut" | "other" => {
                let base = self.r(e);
                // `list[a..b]` is walked by its places in the list, as `list.iter().take(b).skip(a)` is
                let mut part: Option<(String, Option<String>)> = None;
                if let (syn::Expr::Index(x), "slice", None, None, None) = (e, what, &skip, &take, &zip) {
                    if let syn::Expr::Range(rg) = &*x.index {
                        let a = rg.start.as_ref().map_or("0".to_string(), |y| self.r(&**y));
                        let incl = matches!(rg.limits, syn::RangeLimits::Closed(_));
                        part = Some((a, rg.end.as_ref().map(|y| if incl { format!("({}) + 1", self.r(&**y)) } else { self.r(&**y) })));
                        pre = format!("let {it}_c = &{base};\nlet {it}_v = &{};\n", self.r(&*x.expr));
                        relative = enumerate;
                    }
                }
                let mut item = match what {
                    "slice" if part.is_some() => format!("&{it}_v[{it}]"),
                    "slice" => { pre = format!("let {it}_v = &{base};\n"); format!("&{it}_v[{it}]") }
                    "vec" => { pre = format!("let {it}_v = {base};\n"); format!("&{it}_v[{it}]") }
                    "mut" if !self.is_map(e) => { pre = format!("let ghost {it}_o = {base};\n"); format!("&mut {base}[{it}]") }
                    "other" => { pre = format!("let {it}_v = v_all({base});\n"); format!("v_item(&{it}_v, {it})") }
                    "chunks" => {
                        let m = match e { syn::Expr::MethodCall(m) => m, _ => { self.lost(format!("loop {}", n)); return; } };
                        pre = format!("let {it}_v = v_chunks(&{}, {});\n", self.r(&*m.receiver), self.r(&m.args[0]));
                        format!("{it}_v[{it}]")
                    }
                    "split" => { pre = format!("let {it}_v = {base}.v_collect();\n"); format!("{it}_v[{it}]") }
                    "chars" => { pre = format!("let {it}_v = {base}.v_chars().v_collect();\n"); format!("{it}_v[{it}]") }
                    _ => { pre = format!("let {it}_v = {base}.entries();\n"); format!("({it}_v[{it}].0, {it}_v[{it}].1)") }
                };
                let mut zip_item: Option<(String, String)> = None;
                let mut lim = if what == "mut" { format!("{base}.len()") } else { format!("{it}_v.len()") };
                if let Some(z) = zip {
                    if what != "slice" { self.lost(format!("loop {}: unsupported iterator", n)); return; }
                    pre.push_str(&format!("let {it}_z = &{z};\n"));
                    lim = format!("(if {it}_v.len() < {it}_z.len() {{ {it}_v.len() }} else {{ {it}_z.len() }})");
                    zip_item = Some((item.clone(), format!("&{it}_z[{it}]")));
                    item = format!("({item}, &{it}_z[{it}])");
                }
                let mut start = "0".to_string();
                if let Some((a, b)) = part {
                    start = a;
                    if let Some(b) = b { lim = b; }
                }
                if let Some(s) = take {
                    pre.push_str(&format!("let {it}_t: usize = {s};\n"));
                    lim = format!("(if {it}_t < {lim} {{ {it}_t }} else {{ {lim} }})");
                }
                if let Some(s) = skip {
                    pre.push_str(&format!("let {it}_k: usize = {s};\n"));
                    start = format!("(if {it}_k < {lim} {{ {it}_k }} else {{ {lim} }})");
                }
                // copied(), and patterns that take a reference off: `&x`
                if by_value {
                    match item.strip_prefix('&') {
                        Some(x) if zip_item.is_none() && what == "slice" => item = x.to_string(),
                        _ => { self.lost(format!("loop {}: unsupported iterator", n)); return; }
                    }
                }
                let mut pat = pat;
                let inner = match (&*f.pat, enumerate) {
                    (syn::Pat::Tuple(t), true) if t.elems.len() == 2 => Some(&t.elems[1]),
                    (p, false) => Some(p),
                    _ => None,
                };
                if let Some(p) = inner {
                    let mut text = self.r(p);
                    let mut changed = false;
                    if let (syn::Pat::Reference(rf), Some(x)) = (p, item.strip_prefix('&')) {
                        if rf.mutability.is_none() { text = self.r(&*rf.pat); item = x.to_string(); changed = true; }
                    } else if let (syn::Pat::Tuple(t), Some((a, b))) = (p, zip_item.clone()) {
                        if t.elems.len() == 2 {
                            let side = |q: &syn::Pat, x: String| match (q, x.strip_prefix('&')) {
                                (syn::Pat::Reference(rf), Some(y)) if rf.mutability.is_none() => (self.r(&*rf.pat), y.to_string()),
                                _ => (self.r(q), x),
                            };
                            let (pa, xa) = side(&t.elems[0], a);
                            let (pb, xb) = side(&t.elems[1], b);
                            text = format!("({pa}, {pb})");
                            item = format!("({xa}, {xb})");
                            changed = true;
                        }
                    }
                    if changed {
                        pat = match &*f.pat {
                            syn::Pat::Tuple(t) if enumerate => format!("({}, {})", self.r(&t.elems[0]), text),
                            _ => text,
                        };
                    }
                }
                let bind = if enumerate && relative {
                    format!("let {pat} = ({it} - {it}_s, {item});")
                } else if enumerate {
                    format!("let {pat} = ({it}, {item});")
                } else {
                    format!("let {pat} = {item};")
                };
                if rev { self.lost(format!("loop {}: unsupported iterator", n)); return; }
                pre.push_str(&format!("let {it}_s: usize = {start}; let {it}_end: usize = {lim}; let mut {it}: usize = {it}_s;\n"));
                let inv = vec![format!("{it}_s <= {it}"), format!("({it} <= {it}_end || {it} == {it}_s)")];
                let spec = self.loop_spec(n, &inv, Some(format!("{it}_end - {it}")));
                text = format!("{label}while {it} < {it}_end {spec}{{ {bind} {it} = {it} + 1;\n{begin}{body}{end}}}");
            }
            _ => {
                self.lost(format!("loop {}: iterates over something the extraction does not know: {}", n, self.src(rng(f.expr.span()).0, rng(f.expr.span()).1)));
                return;
            }
        }
        let before = self.anchor_text(&format!("loop {} before", n));
        let mut after = self.anchor_text(&format!("loop {} after", n));
        if self.fc.split.map_or(false, |x| x.0 == n) { after = format!("/*REST*/{after}"); }
        let (lo, hi) = rng(f.span());
        self.edit(lo, hi, format!("{pre}{before}{text}{after}"));
    }

    fn plain_loop(&mut self, n: usize, at: usize, body: &syn::Block, whole: (usize, usize)) {
        let spec = self.loop_spec(n, &[], None);
        self.insert(at, spec, 0);
        let begin = self.anchor_text(&format!("loop {} begin", n));
        let end = self.anchor_text(&format!("loop {} end", n));
        let (blo, bhi) = self.loop_range(body);
        if !begin.is_empty() { self.insert(blo, begin, -1); }
        if !end.is_empty() { self.insert(bhi, end, 1); }
        let before = self.anchor_text(&format!("loop {} before", n));
        let after = self.anchor_text(&format!("loop {} after", n));
        if !before.is_empty() { self.insert(whole.0, before, -2); }
        let after = if self.fc.split.map_or(false, |x| x.0 == n) { format!("/*REST*/{after}") } else { after };
        if !after.is_empty() { self.insert(whole.1, after, 2); }
    }

    /// a field whose type is a HashMap
    fn is_map(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Field(f) => matches!(&f.member, syn::Member::Named(n) if self.idx.map_fields.contains(&n.to_string())),
            syn::Expr::Paren(p) => self.is_map(&p.expr),
            syn::Expr::Reference(p) => self.is_map(&p.expr),
            _ => false,
        }
    }

    /// match on string literals, as a chain of comparisons
    fn str_match(&mut self, m: &syn::ExprMatch) -> Option<String> {
        self.sh.fresh += 1;
        let k = self.sh.fresh;
        let mut out = format!("{{ let ms{k} = {}; ", self.r(&*m.expr));
        let mut closed = false;
        for (i, a) in m.arms.iter().enumerate() {
            if i > 0 { out.push_str(" else "); }
            let guard = match &a.guard { Some((_, g)) => Some(self.r(&**g)), None => None };
            let body = self.r(&*a.body);
            match (&a.pat, guard) {
                (syn::Pat::Wild(_), None) => { out.push_str(&format!("{{ {body} }}")); closed = true; }
                (syn::Pat::Wild(_), Some(g)) => out.push_str(&format!("if {g} {{ {body} }}")),
                (syn::Pat::Ident(p), None) if p.subpat.is_none() => {
                    out.push_str(&format!("{{ let {} = ms{k}; {body} }}", p.ident));
                    closed = true;
                }
                (p, g) => {
                    let alts = str_pats(p)?;
                    let c: Vec<String> = alts.iter().map(|a| format!("ms{k} == {a}")).collect();
                    let mut c = c.join(" || ");
                    if let Some(g) = g { c = format!("({c}) && {g}"); }
                    out.push_str(&format!("if {c} {{ {body} }}"));
                }
            }
            if closed { break; }
        }
        if !closed { return None; }
        out.push_str(" }");
        Some(out)
    }

    /// Option methods that take a closure, as a match
    fn option_closure(&mut self, m: &syn::ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        if !["map", "and_then", "map_or", "unwrap_or_else", "is_some_and", "or_else"].contains(&name.as_str()) { return None; }
        let c = match m.args.last()? { syn::Expr::Closure(c) => c, _ => return None };
        struct It(bool);
        impl<'ast> Visit<'ast> for It {
            fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                if ["iter", "chars", "into_iter", "iter_mut", "split", "split_whitespace", "lines", "keys", "values", "bytes"].contains(&m.method.to_string().as_str()) { self.0 = true; }
                visit::visit_expr_method_call(self, m);
            }
            fn visit_expr_range(&mut self, _: &'ast syn::ExprRange) { self.0 = true; }
        }
        let mut it = It(false);
        it.visit_expr(&m.receiver);
        struct Ret(bool);
        impl<'ast> Visit<'ast> for Ret {
            fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
            fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
        }
        let mut ret = Ret(false);
        ret.visit_expr(&c.body);
        if it.0 || ret.0 { return None; }
        let r = self.r(&*m.receiver);
        let b = self.r(&*c.body);
        let p: Vec<String> = c.inputs.iter().map(|p| match p { syn::Pat::Type(t) => self.r(&*t.pat), p => self.r(p) }).collect();
        Some(match (name.as_str(), p.len(), m.args.len()) {
            ("map", 1, 1) => format!("(match {r} {{ Some({}) => Some({b}), None => None }})", p[0]),
            ("and_then", 1, 1) => format!("(match {r} {{ Some({}) => {b}, None => None }})", p[0]),
            ("is_some_and", 1, 1) => format!("(match {r} {{ Some({}) => {b}, None => false }})", p[0]),
            ("map_or", 1, 2) => format!("(match {r} {{ Some({}) => {b}, None => {} }})", p[0], self.r(&m.args[0])),
            ("unwrap_or_else", 0, 1) => { self.sh.fresh += 1; let k = self.sh.fresh; format!("(match {r} {{ Some(uo{k}) => uo{k}, None => {b} }})") }
            ("or_else", 0, 1) => { self.sh.fresh += 1; let k = self.sh.fresh; format!("(match {r} {{ Some(uo{k}) => Some(uo{k}), None => {b} }})") }
            _ => return None,
        })
    }

    fn contract_of(&self, key: &str) -> bool {
        self.unit.fns.iter().any(|f| f.key == key)
    }

    /// Inline a helper function that has no contract of its own.
    fn inline(&mut self, target: &FnItem, args: Vec<String>) -> Option<String> {
        struct Bad(bool);
        impl<'ast> Visit<'ast> for Bad {
            fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
            fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
            fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        }
        let mut bad = Bad(false);
        bad.visit_block(&target.block);
        if bad.0 || self.sh.depth > 4 || target.key == self.fn_key {
            self.lost(format!("call of {}, which has no contract and cannot be inlined", target.key));
            return None;
        }
        self.sh.depth += 1;
        self.sh.fresh += 1;
        { let mut ss = StrScan(&mut self.sh.strs); for i in &target.sig.inputs { ss.visit_fn_arg(i); } ss.visit_block(&target.block); }
        let k = self.sh.fresh;
        let mut pre = String::new();
        let mut binds = String::new();
        let mut i = 0;
        for inp in &target.sig.inputs {
            if let syn::FnArg::Typed(pt) = inp {
                let mut sub = Ctx { idx: self.idx, unit: self.unit, fc: self.fc, file: target.file.clone(), self_ty: target.self_ty.clone(),
                    fn_key: target.key.clone(), edits: vec![], leaves: vec![], split: false, sh: self.sh, rename: self.rename };
                sub.visit_pat(&pt.pat);
                sub.visit_type(&pt.ty);
                let ty = sub.r(&*pt.ty);
                let pat = sub.r(&*pt.pat);
                pre.push_str(&format!("let inl{k}_{i}: {ty} = {}; ", args.get(i)?));
                binds.push_str(&format!("let {pat}: {ty} = inl{k}_{i}; "));
                i += 1;
            }
        }
        let mut sub = Ctx { idx: self.idx, unit: self.unit, fc: self.fc, file: target.file.clone(), self_ty: target.self_ty.clone(),
            fn_key: target.key.clone(), edits: vec![], leaves: vec![], split: false, sh: self.sh, rename: self.rename };
        sub.visit_block(&target.block);
        let body = sub.r(&target.block);
        self.sh.depth -= 1;
        self.sh.inlined.push(target.key.clone());
        Some(format!("({{ {pre}{{ {binds}{body} }} }})"))
    }

    fn find_callee(&self, key: &str) -> Option<&'a FnItem> {
        self.idx.find(&self.file.name, key)
    }

    /// format!("..{}..", a, b) as nested concatenation over the string shim
    fn format_macro(&mut self, mac: &syn::Macro) -> Option<String> {
        let args = mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
        let mut it = args.iter();
        let lit = match it.next()? {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut rest: Vec<&syn::Expr> = it.collect();
        for a in &rest { self.visit_expr(a); }
        rest.reverse();
        let mut out = String::from("StrBuild::new()");
        let mut txt = String::new();
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if i + 1 < cs.len() && cs[i + 1] == '{' => { txt.push('{'); i += 2; }
                '}' if i + 1 < cs.len() && cs[i + 1] == '}' => { txt.push('}'); i += 2; }
                '{' => {
                    let mut j = i + 1;
                    while j < cs.len() && cs[j] != '}' { j += 1; }
                    let inner: String = cs[i + 1..j].iter().collect();
                    i = j + 1;
                    if !txt.is_empty() { out.push_str(&format!(".lit({:?})", txt)); txt.clear(); }
                    let (name, spec) = match inner.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (inner.clone(), String::new()) };
                    let arg = if name.is_empty() { let a = rest.pop()?; self.r(a) } else { name };
                    let m = match spec.as_str() { "" => "arg".to_string(), "0.9" | ".9" => "fix9".to_string(), "?" => "debug".to_string(), _ => return None };
                    out.push_str(&format!(".{}(&({}))", m, arg));
                }
                c => { txt.push(c); i += 1; }
            }
        }
        if !txt.is_empty() { out.push_str(&format!(".lit({:?})", txt)); }
        out.push_str(".done()");
        Some(out)
    }

    fn panicidx(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.fc.panicidx.contains(&i.to_string())),
            _ => false,
        }
    }

    fn macro_edit(&mut self, mac: &syn::Macro, lo: usize, hi: usize, stmt: bool) {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        if DROP_MACROS.contains(&name.as_str()) {
            self.edit(lo, hi, "()".into());
            return;
        }
        if PANIC_MACROS.contains(&name.as_str()) {
            let f = match &self.fc.abort {
                Some(c) => format!("vabort_if(Ghost({}))", c),
                None => if self.fc.panics { "vabort()".into() } else { "vforbid()".into() },
            };
            self.edit(lo, hi, f);
            return;
        }
        match name.as_str() {
            "vec" => {
                if mac.tokens.is_empty() {
                    self.edit(lo, hi, "Vec::new()".into());
                    return;
                }
                struct Rep(syn::Expr, syn::Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        let _: syn::Token![;] = i.parse()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(Rep(a, b)) = mac.parse_body::<Rep>() {
                    self.visit_expr(&a);
                    self.visit_expr(&b);
                    let t = format!("vec_rep({}, {})", self.r(&a), self.r(&b));
                    self.edit(lo, hi, t);
                    return;
                }
                if let Ok(args) = mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    let mut v = vec![];
                    for a in &args {
                        self.visit_expr(a);
                        v.push(self.r(a));
                    }
                    self.edit(lo, hi, format!("vec![{}]", v.join(", ")));
                    return;
                }
                self.lost("vec! with unknown arguments");
            }
            "assert" | "debug_assert" => {
                if let Ok(args) = mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    if let Some(a) = args.first() {
                        self.visit_expr(a);
                        let f = if self.fc.panics { "vabort()" } else { "vforbid()" };
                        let t = format!("if !({}) {{ {}; }}", self.r(a), f);
                        self.edit(lo, hi, t);
                        return;
                    }
                }
                self.lost("assert! with unknown arguments");
            }
            "format" => {
                match self.format_macro(mac) {
                    Some(t) => self.edit(lo, hi, t),
                    None => self.lost("format! the extraction does not know"),
                }
            }
            "matches" => {
                struct M(syn::Expr, syn::Pat, Option<syn::Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        let _: syn::Token![,] = i.parse()?;
                        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) { let _: syn::Token![if] = i.parse()?; Some(i.parse()?) } else { None };
                        let _: Option<syn::Token![,]> = i.parse()?;
                        Ok(M(a, p, g))
                    }
                }
                if let Ok(M(a, p, g)) = mac.parse_body::<M>() {
                    self.visit_expr(&a);
                    if let (Some(alts), None) = (str_pats(&p), &g) {
                        self.sh.fresh += 1;
                        let k = self.sh.fresh;
                        let c: Vec<String> = alts.iter().map(|a| format!("ms{k} == {a}")).collect();
                        let t = format!("({{ let ms{k} = {}; {} }})", self.r(&a), c.join(" || "));
                        self.edit(lo, hi, t);
                        return;
                    }
                    self.visit_pat(&p);
                    let gt = match &g { Some(g) => { self.visit_expr(g); format!(" if {}", self.r(g)) } None => String::new() };
                    let t = format!("(match {} {{ {}{} => true, _ => false }})", self.r(&a), self.r(&p), gt);
                    self.edit(lo, hi, t);
                    return;
                }
                self.lost("matches! the extraction does not know");
            }
            other => self.lost(format!("macro {}!", other)),
        }
        let _ = stmt;
    }

    fn path_edit(&mut self, p: &syn::Path, as_expr: bool) -> bool {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let (lo, hi) = rng(p.span());
        let joined = segs.join("::");
        if as_expr && (joined == "std::f64::consts::PI" || joined == "f64::consts::PI" || joined == "consts::PI" || joined == "PI") {
            self.edit(lo, hi, "f64_pi()".into());
            return true;
        }
        if as_expr && segs.len() == 2 && segs[0] == "f64" || joined.starts_with("std::f64::") {
            let name = segs.last().unwrap();
            if ["INFINITY", "NAN", "NEG_INFINITY", "MAX", "EPSILON", "MIN_POSITIVE"].contains(&name.as_str()) {
                self.edit(lo, hi, format!("f64_{}()", name));
                return true;
            }
        }
        // strip module prefixes
        let mut first = 0;
        while first + 1 < segs.len() {
            let s = &segs[first];
            let skip = ["crate", "super", "std", "collections", "cell", "fmt", "io"].contains(&s.as_str())
                || (s == "self" && segs.len() > 1)
                || (self.idx.modules.contains(s) && !self.idx.types.contains_key(s))
                || (s == "string") || (s == "fs");
            if !skip { break; }
            first += 1;
        }
        if first > 0 {
            let (slo, _) = rng(p.segments[first].span());
            self.edit(lo, slo, String::new());
        }
        for s in &segs[first..] {
            if self.idx.types.contains_key(s) {
                self.sh.types.insert(s.clone());
            }
        }
        if segs.len() - first == 1 {
            let name = &segs[first];
            if let Some((_, c)) = self.idx.consts.get(name) {
                self.sh.consts.insert(name.clone());
                if as_expr && c.ty.to_token_stream().to_string() == "f64" {
                    self.edit(lo, hi, format!("c_{}()", name));
                    return true;
                }
            }
        }
        false
    }
}

/// the string literals of a pattern, if it consists of nothing else
fn str_pats(p: &syn::Pat) -> Option<Vec<String>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit { syn::Lit::Str(s) => Some(vec![format!("{:?}", s.value())]), _ => None },
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases { v.extend(str_pats(c)?); }
            Some(v)
        }
        syn::Pat::Paren(p) => str_pats(&p.pat),
        _ => None,
    }
}

pub fn lit_name(l: &str) -> String {
    format!("fl_{}", l.replace('.', "_").replace('-', "m").replace('+', "p"))
}

fn lit_norm(f: &syn::LitFloat) -> String {
    f.base10_digits().to_string()
}

/// "1.5e-3" -> real literal text
fn lit_real(l: &str) -> String {
    let l = l.replace('_', "");
    let (m, e) = match l.split_once(['e', 'E']) {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().unwrap_or(0)),
        None => (l.clone(), 0),
    };
    let (ip, fp) = match m.split_once('.') { Some((a, b)) => (a.to_string(), b.to_string()), None => (m.clone(), String::new()) };
    let digits = format!("{}{}", ip, fp);
    let mut digits = digits.trim_start_matches('0').to_string();
    if digits.is_empty() { digits = "0".into(); }
    let mut e = e - fp.len() as i32;
    while e < 0 && digits.len() > 1 && digits.ends_with('0') { digits.pop(); e += 1; }
    if digits == "0" { return "0real".into(); }
    if e >= 0 {
        format!("{}{}real", digits, "0".repeat(e as usize))
    } else {
        format!("({}real / 1{}real)", digits, "0".repeat((-e) as usize))
    }
}

pub fn literal_fn(l: &str) -> String {
    format!(
        "#[verifier::external_body] pub fn {}() -> (r: f64) ensures r == num({}) {{ f64 {{ x: {} }} }}\n",
        lit_name(l), lit_real(l), if l.contains(['.', 'e', 'E']) { l.to_string() } else { format!("{}.0", l) }
    )
}

impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (lo, hi) = rng(a.span());
        self.edit(lo, hi, String::new());
    }

    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let name = p.ident.to_string();
        if !self.idx.consts.contains_key(&name) {
            self.sh.locals.push(name);
        }
        visit::visit_pat_ident(self, p);
    }

    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let (lo, hi) = rng(s.span());
        // statement anchors, matched in source order
        let norm = strip_ws(&s.to_token_stream().to_string());
        let mut before = String::new();
        let mut after = String::new();
        for (i, a) in self.fc.anchors.iter().enumerate() {
            if a.what != "stmt" { continue; }
            let pat = strip_ws(&rename_text(&a.pat, self.rename));
            if norm.starts_with(&pat) {
                let h = self.sh.anchor_hits.entry(i).or_insert(0);
                if *h == a.nth || a.nth == usize::MAX {
                    self.sh.anchor_done.insert(i);
                    let t = rename_text(&a.text, self.rename);
                    if a.before { before.push_str(&t) } else { after.push_str(&t) }
                }
                *h += 1;
            }
        }
        match s {
            syn::Stmt::Item(_) => {
                // nested items are extracted on their own
                self.edit(lo, hi, String::new());
            }
            syn::Stmt::Macro(m) => {
                let (mlo, mhi) = rng(m.mac.span());
                for a in &m.attrs { self.visit_attribute(a); }
                self.macro_edit(&m.mac, mlo, mhi, true);
            }
            _ => visit::visit_stmt(self, s),
        }
        if !before.is_empty() { self.insert(lo, before, -1); }
        if !after.is_empty() {
            if let syn::Stmt::Expr(_, None) = s {
                // fine after block-like statements; a tail value has nothing after it
            }
            self.insert(hi, after, 1);
        }
    }

    fn visit_path(&mut self, p: &'ast syn::Path) {
        self.path_edit(p, false);
        visit::visit_path(self, p);
    }

    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let (lo, hi) = rng(m.span());
        self.macro_edit(m, lo, hi, false);
    }

    fn visit_lifetime(&mut self, _l: &'ast syn::Lifetime) {}

    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let (lo, hi) = rng(e.span());
        match e {
            syn::Expr::ForLoop(f) => {
                let n = self.sh.loops;
                self.sh.loops += 1;
                for a in &f.attrs { self.visit_attribute(a); }
                self.visit_pat(&f.pat);
                self.visit_expr(&f.expr);
                let leaf = self.anchor_text(&format!("loop {} leaf", n));
                self.split = self.fc.split.map_or(false, |x| x.0 == n);
                if !leaf.is_empty() { self.leaf_block(&f.body, &leaf); }
                let leaf = if self.split && !leaf.is_empty() { format!("/*REST*/{leaf}") } else { leaf };
                self.split = false;
                self.leaves.push(leaf);
                self.visit_block(&f.body);
                self.leaves.pop();
                self.for_loop(f, n);
                return;
            }
            syn::Expr::While(w) => {
                let n = self.sh.loops;
                self.sh.loops += 1;
                let leaf = self.anchor_text(&format!("loop {} leaf", n));
                self.split = self.fc.split.map_or(false, |x| x.0 == n);
                if !leaf.is_empty() { self.leaf_block(&w.body, &leaf); }
                let leaf = if self.split && !leaf.is_empty() { format!("/*REST*/{leaf}") } else { leaf };
                self.split = false;
                self.leaves.push(leaf);
                visit::visit_expr(self, e);
                self.leaves.pop();
                let at = rng(w.body.span()).0;
                self.plain_loop(n, at, &w.body, (lo, hi));
                return;
            }
            syn::Expr::Loop(w) => {
                let n = self.sh.loops;
                self.sh.loops += 1;
                let leaf = self.anchor_text(&format!("loop {} leaf", n));
                self.split = self.fc.split.map_or(false, |x| x.0 == n);
                if !leaf.is_empty() { self.leaf_block(&w.body, &leaf); }
                let leaf = if self.split && !leaf.is_empty() { format!("/*REST*/{leaf}") } else { leaf };
                self.split = false;
                self.leaves.push(leaf);
                visit::visit_expr(self, e);
                self.leaves.pop();
                let at = rng(w.body.span()).0;
                self.plain_loop(n, at, &w.body, (lo, hi));
                return;
            }
            syn::Expr::Break(_) => {
                let n = self.sh.breaks;
                self.sh.breaks += 1;
                visit::visit_expr(self, e);
                if let Some(t) = self.nth_anchor("break", n) {
                    let s = self.render(lo, hi);
                    self.edit(lo, hi, format!("{{ {} {} }}", t, s));
                }
                return;
            }
            syn::Expr::Continue(_) => {
                let n = self.sh.continues;
                self.sh.continues += 1;
                let mut t = self.nth_anchor("continue", n).unwrap_or_default();
                if let Some(l) = self.leaves.last() { t = format!("{}{}", l, t); }
                if !t.is_empty() {
                    let s = self.render(lo, hi);
                    self.edit(lo, hi, format!("{{ {} {} }}", t, s));
                }
                return;
            }
            syn::Expr::Return(_) => {
                let n = self.sh.returns;
                self.sh.returns += 1;
                visit::visit_expr(self, e);
                if let Some(t) = self.nth_anchor("return", n) {
                    let s = self.render(lo, hi);
                    self.edit(lo, hi, format!("{{ {} {} }}", t, s));
                }
                return;
            }
            syn::Expr::Match(m) => {
                visit::visit_expr(self, e);
                if m.arms.iter().any(|a| str_pats(&a.pat).is_some()) {
                    match self.str_match(m) {
                        Some(t) => self.edit(lo, hi, t),
                        None => self.lost("match on strings the extraction does not know"),
                    }
                }
                return;
            }
            syn::Expr::Index(ix) => {
                visit::visit_expr(self, e);
                if self.is_map(&ix.expr) {
                    let t = format!("(*{}.{}({}))", self.r(&*ix.expr), if self.fc.panics { "vat_p" } else { "vat" }, self.r(&*ix.index));
                    self.edit(lo, hi, t);
                } else if let syn::Expr::Range(rg) = &*ix.index {
                    if matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) {
                        let x = self.r(&*ix.expr);
                        let a = match &rg.start { Some(a) => self.r(&**a), None => "0".into() };
                        let (p, g) = if self.panicidx(&ix.expr) { ("_p", format!(", Ghost({})", self.fc.abort.as_deref().unwrap_or("true"))) } else { ("", String::new()) };
                        let t = match &rg.end { Some(b) => format!("(*v_sub{p}(&{x}, {a}, {}{g}))", self.r(&**b)), None => format!("(*v_from{p}(&{x}, {a}{g}))") };
                        self.edit(lo, hi, t);
                    }
                } else if self.panicidx(&ix.expr) {
                    let t = format!("(*v_idx(&{}, {}, Ghost({})))", self.r(&*ix.expr), self.r(&*ix.index), self.fc.abort.as_deref().unwrap_or("true"));
                    self.edit(lo, hi, t);
                }
                return;
            }
            syn::Expr::Assign(a) if matches!(&*a.left, syn::Expr::Infer(_)) => {
                visit::visit_expr(self, e);
                let t = format!("let _ = {}", self.r(&*a.right));
                self.edit(lo, hi, t);
                return;
            }
            syn::Expr::Path(p) => {
                if p.qself.is_none() && self.path_edit(&p.path, true) {
                    return;
                }
                visit::visit_expr_path(self, p);
                return;
            }
            syn::Expr::Lit(l) => {
                if let syn::Lit::Float(f) = &l.lit {
                    let t = lit_norm(f);
                    self.sh.literals.insert(t.clone());
                    self.edit(lo, hi, format!("{}()", lit_name(&t)));
                }
                return;
            }
            syn::Expr::Macro(m) => {
                for a in &m.attrs { self.visit_attribute(a); }
                let (mlo, mhi) = rng(m.mac.span());
                self.macro_edit(&m.mac, mlo, mhi, false);
                return;
            }
            syn::Expr::Cast(c) => {
                visit::visit_expr(self, e);
                if strip_ws(&c.ty.to_token_stream().to_string()) == "f64" {
                    let t = format!("fl_from({})", self.r(&*c.expr));
                    self.edit(lo, hi, t);
                }
                return;
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) && matches!(&*u.expr, syn::Expr::Reference(_)) => {
                visit::visit_expr(self, e);
                if let syn::Expr::Reference(rf) = &*u.expr {
                    let t = format!("!({})", self.r(&*rf.expr));
                    self.edit(lo, hi, t);
                }
                return;
            }
            syn::Expr::Binary(b) => {
                visit::visit_expr(self, e);
                // strict `and`/`or` of booleans
                let (strict, assign) = match &b.op {
                    syn::BinOp::BitAnd(_) => ("b_and", false),
                    syn::BinOp::BitOr(_) => ("b_or", false),
                    syn::BinOp::BitAndAssign(_) => ("b_and", true),
                    syn::BinOp::BitOrAssign(_) => ("b_or", true),
                    _ => ("", false),
                };
                if !strict.is_empty() && (boolish(&b.left) || boolish(&b.right)) {
                    let (l, r) = (self.r(&*b.left), self.r(&*b.right));
                    let t = format!("{}({}, {})", strict, l, r);
                    self.edit(lo, hi, if assign { format!("{} = {}", l, t) } else { t });
                    return;
                }
                if matches!(b.op, syn::BinOp::Add(_)) && str_expr(&b.left, &self.sh.strs) {
                    let t = format!("str_cat({}, {})", self.r(&*b.left), self.r(&*b.right));
                    self.edit(lo, hi, t);
                    return;
                }
                let ord = match &b.op {
                    syn::BinOp::Lt(_) => Some((false, false)),
                    syn::BinOp::Gt(_) => Some((true, false)),
                    syn::BinOp::Ge(_) => Some((false, true)),
                    syn::BinOp::Le(_) => Some((true, true)),
                    _ => None,
                };
                if let Some((flip, neg)) = ord {
                    let is_s = |x: &syn::Expr, me: &Self| me.fc.strvars.contains(&me.unrename(&strip_ws(&x.to_token_stream().to_string()))) || str_expr(x, &me.sh.strs);
                    if is_s(&b.left, self) || is_s(&b.right, self) {
                        let (l, r) = (self.r(&*b.left), self.r(&*b.right));
                        let t = if flip { format!("str_lt({r}, {l})") } else { format!("str_lt({l}, {r})") };
                        self.edit(lo, hi, if neg { format!("!{t}") } else { t });
                    }
                    return;
                }
                let op = match &b.op {
                    syn::BinOp::AddAssign(_) => "+",
                    syn::BinOp::SubAssign(_) => "-",
                    syn::BinOp::MulAssign(_) => "*",
                    syn::BinOp::DivAssign(_) => "/",
                    syn::BinOp::RemAssign(_) => "%",
                    syn::BinOp::BitAndAssign(_) => "&",
                    syn::BinOp::BitOrAssign(_) => "|",
                    _ => return,
                };
                let l = self.r(&*b.left);
                let r = self.r(&*b.right);
                if op == "+" || op == "-" {
                    if let syn::Expr::Index(i2) = &*b.left {
                        if let syn::Expr::Index(i1) = &*i2.expr {
                            if let syn::Expr::Path(p) = &*i1.expr {
                                let nm = p.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                                if self.fc.celladd.contains(&self.unrename(&nm)) {
                                    let t = format!("cell_{}({}, {}, {}, {})", if op == "+" { "add" } else { "sub" }, nm, self.r(&*i1.index), self.r(&*i2.index), r);
                                    self.edit(lo, hi, t);
                                    return;
                                }
                            }
                        }
                    }
                }
                let t = if op == "+" && (self.fc.strvars.contains(&self.unrename(&strip_ws(&l))) || str_expr(&b.left, &self.sh.strs)) {
                    format!("{}.v_push_str({})", l, r)
                } else {
                    format!("{} = {} {} ({})", l, l, op, r)
                };
                self.edit(lo, hi, t);
                return;
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                visit::visit_expr(self, e);
                if self.unit.fns.iter().any(|f| f.world && f.key.rsplit("::").next() == Some(name.as_str())) {
                    let at = m.paren_token.span.close().byte_range().start;
                    let sep = if m.args.is_empty() || m.args.trailing_punct() { "" } else { ", " };
                    self.insert(at, format!("{sep}Tracked(&mut *w)"), 9);
                }
                let recv = self.r(&*m.receiver);
                let (mlo, mhi) = rng(m.method.span());
                // a method of this crate
                let is_self = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
                if is_self {
                    let key = format!("{}::{}", self.self_ty, name);
                    if !self.contract_of(&key) {
                        if let Some(t) = self.find_callee(&key) {
                            let args: Vec<String> = m.args.iter().map(|a| self.r(a)).collect();
                            if let Some(txt) = self.inline(t, args) {
                                self.edit(lo, hi, txt);
                            }
                            return;
                        }
                    }
                } else if !["new", "clone", "len", "push", "is_empty", "get"].contains(&name.as_str()) {
                    let cands: Vec<&FnItem> = self.idx.fns.iter().filter(|f| !f.self_ty.is_empty() && f.name == name && f.key.matches("::").count() == 1).collect();
                    if !cands.is_empty() && !cands.iter().any(|f| self.contract_of(&f.key)) {
                        self.lost(format!("call of {}, which has no contract", cands[0].key));
                        return;
                    }
                }
                let args: Vec<String> = m.args.iter().map(|a| self.r(a)).collect();
                if let Some(t) = self.option_closure(m) {
                    self.edit(lo, hi, t);
                    return;
                }
                if name == "count" && args.is_empty() {
                    // x.matches(c).count()
                    if let syn::Expr::MethodCall(mm) = &*m.receiver {
                        if mm.method == "matches" && mm.args.len() == 1 {
                            let t = format!("{}.v_count({})", self.r(&*mm.receiver), self.r(&mm.args[0]));
                            self.edit(lo, hi, t);
                            return;
                        }
                    }
                }
                if name == "collect" && args.is_empty() {
                    // x.into_iter().collect()
                    let mut rc = &*m.receiver;
                    if let syn::Expr::MethodCall(mm) = rc { if mm.method == "into_iter" || mm.method == "iter" { rc = &mm.receiver; } }
                    let t = format!("{}.v_collect()", self.r(rc));
                    self.edit(lo, hi, t);
                    return;
                }
                if name == "parse" && args.is_empty() {
                    let tf = m.turbofish.as_ref().map(|t| quote::quote!(#t).to_string()).unwrap_or_default();
                    let t = format!("{}.v_parse{}()", recv, tf);
                    self.edit(lo, hi, t);
                    return;
                }
                match (name.as_str(), args.len()) {
                    ("swap", 2) => {
                        let t = format!("vec_swap(&mut {}, {}, {})", recv, args[0], args[1]);
                        self.edit(lo, hi, t);
                    }
                    ("unwrap", 0) | ("expect", 1) => {
                        if self.fc.panics {
                            let t = format!("vunwrap(Ghost({}))", self.fc.abort.as_deref().unwrap_or("true"));
                            self.edit(mlo, hi, t);
                        } else if name == "expect" {
                            self.edit(mlo, hi, "unwrap()".into());
                        }
                    }
                    _ => {
                        if let Some(to) = method_map(&name) {
                            self.edit(mlo, mhi, to.to_string());
                        }
                    }
                }
                return;
            }
            syn::Expr::Call(c) => {
                visit::visit_expr(self, e);
                if let syn::Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if segs.len() >= 2 && segs[segs.len() - 2] == "String" && (last == "from" || last == "new") {
                        let (flo, fhi) = rng(c.func.span());
                        self.edit(flo, fhi, format!("str_{last}"));
                        return;
                    }
                    let mut key = last.clone();
                    if segs.len() >= 2 {
                        let q = &segs[segs.len() - 2];
                        if q == "Self" { key = format!("{}::{}", self.self_ty, last); }
                        else if self.idx.types.contains_key(q) { key = format!("{}::{}", q, last); }
                        else if !self.idx.modules.contains(q) && q != "crate" && q != "super" && q != "self" { return; }
                    }
                    let nested = format!("{}::{}", self.fn_key, last);
                    if segs.len() == 1 && self.idx.fns.iter().any(|f| f.key == nested) {
                        let t = nested.replace("::", "__");
                        let (flo, fhi) = rng(c.func.span());
                        if self.contract_of(&nested) {
                            self.edit(flo, fhi, t);
                            return;
                        }
                        key = nested;
                    }
                    if self.contract_of(&key) { return; }
                    if let Some(t) = self.find_callee(&key) {
                        if t.sig.receiver().is_some() {
                            self.lost(format!("call of {}, which has no contract", key));
                            return;
                        }
                        let args: Vec<String> = c.args.iter().map(|a| self.r(a)).collect();
                        if let Some(txt) = self.inline(t, args) {
                            self.edit(lo, hi, txt);
                        }
                    }
                }
                return;
            }
            _ => visit::visit_expr(self, e),
        }
    }
}

impl<'a> Ctx<'a> {
    fn unrename(&self, s: &str) -> String {
        for (k, v) in self.rename {
            if v == s { return k.clone(); }
        }
        s.to_string()
    }
}

/// String and iterator methods that go to the shim's traits.
fn method_map(name: &str) -> Option<&'static str> {
    Some(match name {
        "to_string" => "v_to_string",
        "to_owned" => "v_to_owned",
        "to_vec" => "v_to_vec",
        "clone" => "v_clone",
        "join" => "v_join",
        "starts_with" => "v_starts_with",
        "ends_with" => "v_ends_with",
        "rsplit_once" => "v_rsplit_once",
        "split_once" => "v_split_once",
        "trim" => "v_trim",
        "copied" => "v_copied",
        "split" => "v_split",
        "split_whitespace" => "v_split_whitespace",
        "push_str" => "v_push_str",
        "replace" => "v_replace",
        "is_whitespace" => "v_is_whitespace",
        "is_ascii_alphanumeric" => "v_is_ascii_alphanumeric",
        "is_alphanumeric" => "v_is_alphanumeric",
        "into_iter" => "v_into_iter",
        "to_lowercase" => "v_to_lowercase",
        "as_bytes" => "v_as_bytes",
        "as_str" => "v_as_str",
        "chars" => "v_chars",
        "nth" => "v_nth",
        "contains" => "v_contains",
        "is_numeric" => "v_is_numeric",
        "is_alphabetic" => "v_is_alphabetic",
        "is_ascii_digit" => "v_is_ascii_digit",
        "trim_start" => "v_trim_start",
        "trim_end" => "v_trim_end",
        "trim_start_matches" => "v_trim_start_matches",
        "trim_end_matches" => "v_trim_end_matches",
        "strip_prefix" => "v_strip_prefix",
        "strip_suffix" => "v_strip_suffix",
        "to_uppercase" => "v_to_uppercase",
        "to_ascii_lowercase" => "v_to_ascii_lowercase",
        "to_ascii_uppercase" => "v_to_ascii_uppercase",
        "eq_ignore_ascii_case" => "v_eq_ignore_ascii_case",
        "is_ascii_alphabetic" => "v_is_ascii_alphabetic",
        "is_ascii_whitespace" => "v_is_ascii_whitespace",
        "is_digit" => "v_is_digit",
        _ => return None,
    })
}

/// local variables that are certainly a String or &str
struct StrScan<'b>(&'b mut BTreeSet<String>);
fn str_type(t: &syn::Type) -> bool {
    matches!(strip_ws(&t.to_token_stream().to_string()).trim_start_matches(|c| c == '&').trim_start_matches("mut"), "String" | "str")
}
fn str_expr(e: &syn::Expr, known: &BTreeSet<String>) -> bool {
    match e {
        syn::Expr::Paren(p) => str_expr(&p.expr, known),
        syn::Expr::Macro(m) => m.mac.path.is_ident("format"),
        syn::Expr::MethodCall(m) => m.method == "to_string" && m.args.is_empty(),
        syn::Expr::Call(c) => matches!(strip_ws(&c.func.to_token_stream().to_string()).as_str(), "String::new" | "String::from"),
        syn::Expr::Path(p) => p.path.get_ident().map_or(false, |i| known.contains(&i.to_string())),
        syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) => str_expr(&b.left, known),
        _ => false,
    }
}
impl<'ast, 'b> Visit<'ast> for StrScan<'b> {
    fn visit_fn_arg(&mut self, a: &'ast syn::FnArg) {
        if let syn::FnArg::Typed(t) = a {
            if let (syn::Pat::Ident(i), true) = (&*t.pat, str_type(&t.ty)) { self.0.insert(i.ident.to_string()); }
        }
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let (pat, ty) = match &l.pat { syn::Pat::Type(t) => (&*t.pat, Some(&*t.ty)), p => (p, None) };
        if let syn::Pat::Ident(i) = pat {
            let by_init = l.init.as_ref().map_or(false, |x| str_expr(&x.expr, self.0));
            if ty.map_or(by_init, str_type) { self.0.insert(i.ident.to_string()); }
        }
        visit::visit_local(self, l);
    }
}

struct LocalScan { names: Vec<String> }
impl<'ast> Visit<'ast> for LocalScan {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.names.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

/// variables a loop carries from one iteration to the next
#[derive(Default)]
struct CarriedScan { depth: usize, decl: BTreeMap<String, usize>, carried: BTreeSet<String> }
impl CarriedScan {
    fn write(&mut self, e: &syn::Expr) {
        let mut e = e;
        loop {
            match e {
                syn::Expr::Field(f) => e = &f.base,
                syn::Expr::Index(i) => e = &i.expr,
                syn::Expr::Paren(p) => e = &p.expr,
                syn::Expr::Unary(u) => e = &u.expr,
                _ => break,
            }
        }
        if let syn::Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                let n = i.to_string();
                if self.decl.get(&n).map_or(false, |d| *d < self.depth) { self.carried.insert(n); }
            }
        }
    }
    fn looped(&mut self, f: impl FnOnce(&mut Self)) {
        self.depth += 1;
        f(self);
        self.depth -= 1;
    }
}
impl<'ast> Visit<'ast> for CarriedScan {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if p.mutability.is_some() && p.by_ref.is_none() { self.decl.insert(p.ident.to_string(), self.depth); }
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        visit::visit_local(self, l);
        // declared now, given a value later
        if l.init.is_none() {
            if let syn::Pat::Ident(p) = &l.pat { self.decl.insert(p.ident.to_string(), self.depth); }
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        self.visit_expr(&f.expr);
        self.looped(|s| { s.visit_pat(&f.pat); s.visit_block(&f.body) });
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) { self.looped(|s| { s.visit_expr(&w.cond); s.visit_block(&w.body) }); }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) { self.looped(|s| s.visit_block(&l.body)); }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) { self.write(&a.left); visit::visit_expr_assign(self, a); }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_)) { self.write(&b.left); }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) { self.write(&m.receiver); visit::visit_expr_method_call(self, m); }
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if r.mutability.is_some() { self.write(&r.expr); }
        visit::visit_expr_reference(self, r);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

fn params_of(sig: &syn::Signature) -> Vec<String> {
    sig.inputs.iter().filter_map(|i| match i {
        syn::FnArg::Typed(pt) => match &*pt.pat {
            syn::Pat::Ident(p) => Some(p.ident.to_string()),
            other => Some(strip_ws(&other.to_token_stream().to_string())),
        },
        _ => None,
    }).collect()
}

/// base name -> current name, for names that have been renamed
fn rename_map(base: &BaseFn, params: &[String], locals: &[String]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if base.params.len() == params.len() {
        for (a, b) in base.params.iter().zip(params) {
            if a != b && a != "_" && b != "_" { m.insert(a.clone(), b.clone()); }
        }
    }
    let cur: BTreeSet<&String> = locals.iter().chain(params).collect();
    let old: BTreeSet<&String> = base.locals.iter().chain(&base.params).collect();
    let mut gone: Vec<&String> = vec![];
    for x in &base.locals { if !cur.contains(x) && !gone.contains(&x) { gone.push(x); } }
    let mut new: Vec<&String> = vec![];
    for x in locals { if !old.contains(x) && !new.contains(&x) { new.push(x); } }
    if base.locals.len() == locals.len() {
        for (a, b) in base.locals.iter().zip(locals) {
            if a != b && gone.contains(&a) && new.contains(&b) { m.insert(a.clone(), b.clone()); }
        }
    } else if gone.len() == new.len() {
        for (a, b) in gone.iter().zip(&new) { m.insert((*a).clone(), (*b).clone()); }
    }
    m
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h >> 1
}

/// `let x = v.iter()...;` where x is only used as the iterator of one `for`
#[derive(Default)]
struct IterScan { lets: BTreeMap<String, Option<(syn::Expr, usize, usize)>>, uses: BTreeMap<String, usize>, fors: BTreeSet<String> }
fn iter_chain(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "iter" | "chars" | "split_whitespace" => m.args.is_empty() && !matches!(&*m.receiver, syn::Expr::MethodCall(_)),
            "enumerate" | "rev" | "copied" => m.args.is_empty() && iter_chain(&m.receiver),
            "zip" => m.args.len() == 1 && iter_chain(&m.receiver) && (iter_chain(&m.args[0]) || matches!(&m.args[0], syn::Expr::Reference(_))),
            _ => false,
        },
        _ => false,
    }
}
impl<'ast> Visit<'ast> for IterScan {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (syn::Pat::Ident(i), Some(n)) = (&l.pat, &l.init) {
            let (lo, hi) = rng(l.span());
            let v = if iter_chain(&n.expr) && n.diverge.is_none() && !self.lets.contains_key(&i.ident.to_string()) { Some(((*n.expr).clone(), lo, hi)) } else { None };
            self.lets.insert(i.ident.to_string(), v);
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(i) = p.path.get_ident() { *self.uses.entry(i.to_string()).or_insert(0) += 1; }
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        if let syn::Expr::Path(p) = &*f.expr { if let Some(i) = p.path.get_ident() { self.fors.insert(i.to_string()); } }
        visit::visit_expr_for_loop(self, f);
    }
}

pub fn render_fn(idx: &Index, unit: &Unit, fc: &FnContract, f: &FnItem, base: Option<&BaseFn>) -> Result<Rendered, String> {
    let params = params_of(&f.sig);
    let mut ls = LocalScan { names: vec![] };
    ls.visit_block(&f.block);
    let locals = ls.names.clone();
    let rename = match base { Some(b) => rename_map(b, &params, &locals), None => BTreeMap::new() };
    // a loop that carries a variable no invariant can know about
    let carried: Vec<String> = {
        let mut cs = CarriedScan::default();
        cs.visit_block(&f.block);
        cs.carried.into_iter().collect()
    };
    let new_carried = base.map_or(false, |b| carried.iter().any(|n| !b.carried.contains(n) && !b.carried.iter().any(|o| rename.get(o) == Some(n))));
    let mut sh = Shared::default();
    { let mut ss = StrScan(&mut sh.strs); for i in &f.sig.inputs { ss.visit_fn_arg(i); } ss.visit_block(&f.block); }
    {
        let mut is = IterScan::default();
        is.visit_block(&f.block);
        for (k, v) in is.lets {
            if let (Some(v), Some(1), true) = (v, is.uses.get(&k), is.fors.contains(&k)) { sh.iters.insert(k, v); }
        }
    }
    let mut cx = Ctx { idx, unit, fc, file: f.file.clone(), self_ty: f.self_ty.clone(), fn_key: f.key.clone(), edits: vec![], leaves: vec![], split: false, sh: &mut sh, rename: &rename };

    // signature
    for i in &f.sig.inputs { cx.visit_fn_arg(i); }
    let generics = f.sig.generics.to_token_stream().to_string();
    let mut ins: Vec<String> = vec![];
    for i in &f.sig.inputs {
        let mut t = cx.r(i);
        if let syn::FnArg::Receiver(_) = i {
            if fc.cellmut && strip_ws(&t) == "&self" { t = "&mut self".into(); }
        }
        if let syn::FnArg::Typed(pt) = i {
            if matches!(&*pt.pat, syn::Pat::Wild(_)) { cx.sh.fresh += 1; t = format!("_unused{}: {}", cx.sh.fresh, cx.r(&*pt.ty)); }
        }
        ins.push(t);
    }
    if fc.world { ins.push("Tracked(w): Tracked<&mut World>".into()); }
    let ret = match &f.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => {
            cx.visit_type(t);
            format!(" -> ({}: {})", fc.ret.clone().unwrap_or_else(|| "ret".into()), cx.r(&**t))
        }
    };
    let name = if f.key.matches("::").count() >= 1 && f.self_ty.is_empty() { f.key.replace("::", "__") } else { f.name.clone() };
    let spec = cx.c(&fc.spec);
    let mut attrs = fc.attrs.clone();
    let body;
    if fc.assumed {
        attrs.push_str("#[verifier::external_body]\n");
        body = "{ unimplemented!() }".to_string();
    } else {
        if !fc.isolate { attrs.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"); }
        cx.sh.locals.clear();
        cx.visit_block(&f.block);
        let (lo, hi) = rng(f.block.span());
        let begin = cx.anchor_text("begin");
        if !begin.is_empty() { cx.insert(lo + 1, format!("\n{}", begin), -5); }
        let end = cx.anchor_text("end");
        if !end.is_empty() {
            let at = match f.block.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) if !matches!(f.sig.output, syn::ReturnType::Default) => rng(e.span()).0,
                _ => hi - 1,
            };
            if at == hi - 1 { cx.insert(at, format!("\n;{}", end), 5); } else { cx.insert(at, format!("\n{}", end), -5); }
        }
        let mut b = cx.render(lo, hi);
        for (x, y) in &fc.subst {
            let x = rename_text(x, &rename);
            if b.contains(&x) { b = b.replace(&x, &rename_text(y, &rename)); }
            else { cx.lost(format!("substitution target `{}`", x)); }
        }
        if fc.cellmut { b = cell_calls(&b); }
        body = b;
        for (i, a) in fc.anchors.iter().enumerate() {
            if !cx.sh.anchor_done.contains(&i) && !a.optional {
                cx.lost(format!("anchor {} `{}` {}", a.what, a.pat, a.nth));
            }
        }
        if let Some(b) = base {
            if b.loops != cx.sh.loops { let n = cx.sh.loops; cx.lost(format!("loop structure changed ({} loops, contract has {})", n, b.loops)); }
        }
    }
    let toks = format!("{} {}", f.sig.to_token_stream(), f.block.to_token_stream());
    let loops = sh.loops;
    let hits: usize = fc.anchors.iter().enumerate().filter(|(_, a)| a.optional).map(|(i, a)| if a.nth == usize::MAX { *sh.anchor_hits.get(&i).unwrap_or(&0) } else { sh.anchor_done.contains(&i) as usize }).sum();
    let (l0, l1) = {
        let a = f.sig.span().start().line;
        let b = f.block.span().end().line;
        (a, b)
    };
    if !fc.assumed && (sh.unmeasured || !fc.spec.contains("decreases")) { attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n"); }
    let mut text = format!("{}pub fn {}{}({}){}\n{}\n{}", attrs, name, generics, ins.join(", "), ret, spec, body);
    if let (Some((_, g)), false) = (fc.split, fc.assumed) {
        // the same text once for every few branches, the others cut off; last, all branches cut off
        const CUT: &str = "v_other_part();";
        let n = (sh.parts + g - 1) / g;
        text = format!("{}#[verifier::external_body]\npub fn {}{}({}){}\n{}\n{{ unimplemented!() }}", attrs, name, generics, ins.join(", "), ret, spec);
        for k in 0..=n {
            let mut b = body.clone();
            for j in 0..sh.parts {
                b = b.replace(&format!("/*PART {j}*/"), if k < n && j / g == k { "" } else { CUT });
            }
            b = b.replace("/*REST*/", if k < n { CUT } else { "" });
            text.push_str(&format!("\n{}#[verifier::spinoff_prover]\npub fn {}__part{}{}({}){}\n{}\n{}", attrs, name, k, generics, ins.join(", "), ret, spec, b));
        }
    }
    Ok(Rendered {
        text,
        lost: if fc.assumed { vec![] } else { sh.lost },
        unmeasured: sh.unmeasured,
        literals: sh.literals,
        types: sh.types,
        consts: sh.consts,
        dropped: sh.dropped,
        inlined: sh.inlined,
        base: BaseFn { params, locals, loops, hash: hash(&toks), hits, carried },
        hint_lost: base.map_or(false, |b| hits < b.hits) || new_carried,
        lines: (l0, l1),
    })
}

/// `self.x.set(v)` / `self.x.get()` on fields that are plain here
fn cell_calls(s: &str) -> String {
    let mut out = s.replace(".get()", "");
    while let Some(i) = out.find(".set(") {
        let mut depth = 0;
        let mut j = i + 4;
        for (k, c) in out[i + 4..].char_indices() {
            if c == '(' { depth += 1 }
            if c == ')' { depth -= 1; if depth == 0 { j = i + 4 + k; break; } }
        }
        let arg = out[i + 5..j].to_string();
        out = format!("{} = {}{}", &out[..i], arg, &out[j + 1..]);
    }
    out = out.replace("Cell::new(", "(");
    out
}

pub fn render_type(idx: &Index, unit: &Unit, ty: &TypeItem) -> Result<(String, BTreeSet<String>, BTreeSet<String>), String> {
    let fc = FnContract::default();
    let mut sh = Shared::default();
    let rename = BTreeMap::new();
    let mk = |file: &Rc<File>, sh| Ctx { idx, unit, fc: &fc, file: file.clone(), self_ty: String::new(), fn_key: String::new(), edits: vec![], leaves: vec![], split: false, sh, rename: &rename };
    let derives = |attrs: &[syn::Attribute]| -> String {
        attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.to_token_stream().to_string()).collect()
    };
    let mut out = String::new();
    let finish = |out: &mut String, name: &str, gen: &str, d: &str| {
        if d.contains("Clone") {
            out.push_str(&format!("impl{gen} Clone for {name}{gen} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
        }
        if d.contains("Copy") {
            out.push_str(&format!("impl{gen} Copy for {name}{gen} {{}}\n"));
        }
    };
    match ty {
        TypeItem::Struct(file, s) => {
            let mut cx = mk(file, &mut sh);
            let name = s.ident.to_string();
            let gen = s.generics.to_token_stream().to_string();
            let cellmut = unit.cellmut.contains(&name);
            match &s.fields {
                syn::Fields::Named(n) => {
                    out.push_str(&format!("pub struct {}{} {{\n", name, gen));
                    for f in &n.named {
                        cx.visit_type(&f.ty);
                        let mut t = cx.r(&f.ty);
                        if cellmut {
                            let s = strip_ws(&t);
                            if let Some(x) = s.strip_prefix("Cell<").and_then(|x| x.strip_suffix('>')) { t = x.to_string(); }
                        }
                        out.push_str(&format!("    pub {}: {},\n", f.ident.as_ref().unwrap(), t));
                    }
                    out.push_str("}\n");
                }
                syn::Fields::Unnamed(n) => {
                    let mut v = vec![];
                    for f in &n.unnamed { cx.visit_type(&f.ty); v.push(format!("pub {}", cx.r(&f.ty))); }
                    out.push_str(&format!("pub struct {}{}({});\n", name, gen, v.join(", ")));
                }
                syn::Fields::Unit => out.push_str(&format!("pub struct {}{};\n", name, gen)),
            }
            finish(&mut out, &name, &gen, &derives(&s.attrs));
        }
        TypeItem::Enum(file, s) => {
            let mut cx = mk(file, &mut sh);
            let name = s.ident.to_string();
            let gen = s.generics.to_token_stream().to_string();
            let fieldless = s.variants.iter().all(|v| v.fields.is_empty());
            let d = derives(&s.attrs);
            if fieldless && d.contains("PartialEq") { out.push_str("#[derive(PartialEq, Eq, Structural)]\n"); }
            out.push_str(&format!("pub enum {}{} {{\n", name, gen));
            for v in &s.variants {
                let mut t = v.ident.to_string();
                match &v.fields {
                    syn::Fields::Unnamed(n) => {
                        let mut fs = vec![];
                        for f in &n.unnamed { cx.visit_type(&f.ty); fs.push(cx.r(&f.ty)); }
                        t.push_str(&format!("({})", fs.join(", ")));
                    }
                    syn::Fields::Named(n) => {
                        let mut fs = vec![];
                        for f in &n.named { cx.visit_type(&f.ty); fs.push(format!("{}: {}", f.ident.as_ref().unwrap(), cx.r(&f.ty))); }
                        t.push_str(&format!("{{ {} }}", fs.join(", ")));
                    }
                    syn::Fields::Unit => {}
                }
                out.push_str(&format!("    {},\n", t));
            }
            out.push_str("}\n");
            finish(&mut out, &name, &gen, &d);
        }
        TypeItem::Alias(file, s) => {
            let mut cx = mk(file, &mut sh);
            cx.visit_type(&s.ty);
            let t = cx.r(&*s.ty);
            out.push_str(&format!("pub type {}{} = {};\n", s.ident, s.generics.to_token_stream(), t));
        }
    }
    if !sh.lost.is_empty() { return Err(sh.lost.join("; ")); }
    Ok((out, sh.types, sh.literals))
}

/// no effect and no abort
fn idle_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
        syn::Expr::Tuple(t) => t.elems.iter().all(idle_expr),
        syn::Expr::Paren(p) => idle_expr(&p.expr),
        syn::Expr::Reference(r) => idle_expr(&r.expr),
        syn::Expr::Field(f) => idle_expr(&f.base),
        _ => false,
    }
}

fn boolish(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Paren(p) => boolish(&p.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && boolish(&u.expr),
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Bool(_)),
        syn::Expr::Binary(b) => match b.op {
            syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::Eq(_) | syn::BinOp::Ne(_)
            | syn::BinOp::And(_) | syn::BinOp::Or(_) => true,
            syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_) => boolish(&b.left) || boolish(&b.right),
            _ => false,
        },
        _ => false,
    }
}

/// Value of a constant f64 expression as a real term.
fn const_real(idx: &Index, e: &syn::Expr) -> Option<String> {
    Some(match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Float(f) => lit_real(&lit_norm(f)),
            _ => return None,
        },
        syn::Expr::Paren(p) => const_real(idx, &p.expr)?,
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => format!("(0real - {})", const_real(idx, &u.expr)?),
        syn::Expr::Binary(b) => {
            let op = match b.op { syn::BinOp::Add(_) => "+", syn::BinOp::Sub(_) => "-", syn::BinOp::Mul(_) => "*", syn::BinOp::Div(_) => "/", _ => return None };
            format!("({} {} {})", const_real(idx, &b.left)?, op, const_real(idx, &b.right)?)
        }
        syn::Expr::Path(p) => {
            let n = p.path.segments.last()?.ident.to_string();
            let (_, c) = idx.consts.get(&n)?;
            const_real(idx, &c.expr)?
        }
        _ => return None,
    })
}

pub fn render_const(idx: &Index, unit: &Unit, name: &str, k: &(Rc<File>, syn::ItemConst)) -> Result<(String, BTreeSet<String>), String> {
    let (file, c) = k;
    let ty = c.ty.to_token_stream().to_string();
    if ty == "f64" {
        let r = const_real(idx, &c.expr).ok_or("constant expression")?;
        return Ok((
            format!("pub open spec fn s_{name}() -> real {{ {r} }}\n#[verifier::external_body] pub fn c_{name}() -> (r: f64) ensures r == num(s_{name}()) {{ unimplemented!() }}\n"),
            BTreeSet::new(),
        ));
    }
    let fc = FnContract::default();
    let mut sh = Shared::default();
    let rename = BTreeMap::new();
    let mut cx = Ctx { idx, unit, fc: &fc, file: file.clone(), self_ty: String::new(), fn_key: String::new(), edits: vec![], leaves: vec![], split: false, sh: &mut sh, rename: &rename };
    cx.visit_expr(&c.expr);
    cx.visit_type(&c.ty);
    let t = format!("pub const {}: {} = {};\n", name, cx.r(&*c.ty), cx.r(&*c.expr));
    Ok((t, sh.literals))
}

/// names followed by an opening parenthesis
pub fn called(text: &str) -> BTreeSet<String> {
    let body = text.find('{').map_or("", |i| &text[i..]);
    let mut out = BTreeSet::new();
    let mut word = String::new();
    for c in body.chars() {
        if c.is_alphanumeric() || c == '_' { word.push(c); continue; }
        if c == '(' && !word.is_empty() { out.insert(word.clone()); }
        word.clear();
    }
    out
}
