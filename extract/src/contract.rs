//! Contract files and recorded baselines.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct Anchor {
    pub what: String, // begin | end | loop N begin|end|before|after | break N.M | stmt
    pub pat: String,
    pub nth: usize,
    pub before: bool,
    pub optional: bool,
    pub text: String,
}

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub file: String,
    pub key: String,
    pub rename: Option<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub anchors: Vec<Anchor>,
    pub assumed: bool,  // contract only: proved in another unit
    pub isolate: bool,  // loop isolation on
    pub panics: bool,   // panicking (aborting the run) is allowed
    pub abort: Option<String>, // ... but only where this holds
    pub panicidx: BTreeSet<String>, // lists in which an index out of range aborts the run
    pub attrs: String,
    pub fors: BTreeMap<usize, String>, // for-loop kind overrides
    pub split: Option<(usize, usize)>, // the branches of loop N are checked in parts of G branches each
    pub cellmut: bool,
    pub world: bool, // carries the ghost record of what the program has done
    pub strvars: BTreeSet<String>,
    pub celladd: BTreeSet<String>, // matrices whose `m[a][b] += v` go through cell_add (verified in prelude mna)
    pub subst: Vec<(String, String)>, // textual substitutions on the rendered body (declared in DESIGN.md)
}

impl FnContract {
    pub fn full_key(&self) -> String {
        self.key.clone()
    }
}

#[derive(Default, Debug)]
pub struct Unit {
    pub preludes: Vec<String>,
    pub broadcasts: Vec<String>,
    pub uses: Vec<String>, // broadcast groups of the unit's own text, used in every function
    pub types: Vec<String>,
    pub consts: Vec<String>,
    pub opaque: BTreeSet<String>,
    pub raw: String,
    pub fns: Vec<FnContract>,
    pub cellmut: BTreeSet<String>, // types whose Cell fields become plain fields
}

impl Unit {
    pub fn load(path: &Path, dir: &Path) -> Unit {
        let mut u = Unit::default();
        u.parse(path, dir);
        u
    }

    fn parse(&mut self, path: &Path, dir: &Path) {
        let text = fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
        enum Sink { None, Raw, Spec, Loop(usize), Anchor }
        let mut sink = Sink::None;
        let mut cur: Option<FnContract> = None;
        let mut include_only: Option<String> = None;
        let _ = &mut include_only;
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix('@') {
                let w: Vec<&str> = rest.split_whitespace().collect();
                match w[0] {
                    "prelude" => self.preludes.extend(w[1..].iter().map(|s| s.to_string())),
                    "broadcast" => self.broadcasts.push(w[1..].join(" ")),
                    "use" => self.uses.extend(w[1..].iter().map(|s| s.to_string())),
                    "type" => self.types.extend(w[1..].iter().map(|s| s.to_string())),
                    "const" => self.consts.extend(w[1..].iter().map(|s| s.to_string())),
                    "opaque" => self.opaque.extend(w[1..].iter().map(|s| s.to_string())),
                    "celltypes" => self.cellmut.extend(w[1..].iter().map(|s| s.to_string())),
                    "raw" => sink = Sink::Raw,
                    "rawfile" => {
                        for n in &w[1..] {
                            let p = dir.join("../raw").join(format!("{}.rs", n));
                            self.raw.push_str(&fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e)));
                        }
                        sink = Sink::None;
                    }
                    "include" => {
                        // contracts proved elsewhere, used here as assumed contracts
                        self.parse(&dir.join(format!("{}.vc", w[1])), dir);
                        sink = Sink::None;
                    }
                    "assume_from" => {
                        // @assume_from unit fn... : take the contracts of those functions, bodies not verified here
                        let other = Unit::load(&dir.join(format!("{}.vc", w[1])), dir);
                        for k in &w[2..] {
                            let f = other.fns.iter().find(|f| f.key == *k)
                                .unwrap_or_else(|| panic!("assume_from {}: no {}", w[1], k));
                            let mut f = f.clone();
                            f.assumed = true;
                            f.loops.clear();
                            f.anchors.clear();
                            self.fns.push(f);
                        }
                        sink = Sink::None;
                    }
                    "fn" | "assumed" => {
                        if let Some(f) = cur.take() { self.fns.push(f); }
                        cur = Some(FnContract {
                            file: w[1].to_string(),
                            key: w[2].to_string(),
                            assumed: w[0] == "assumed",
                            ..Default::default()
                        });
                        sink = Sink::Spec;
                    }
                    "endfn" => {
                        if let Some(f) = cur.take() { self.fns.push(f); }
                        sink = Sink::None;
                    }
                    "ret" => cur.as_mut().unwrap().ret = Some(w[1].to_string()),
                    "world" => cur.as_mut().unwrap().world = true,
                    "isolate" => cur.as_mut().unwrap().isolate = true,
                    "panics" => {
                        let c = cur.as_mut().unwrap();
                        c.panics = true;
                        let r = rest["panics".len()..].trim();
                        if !r.is_empty() { c.abort = Some(r.to_string()); }
                    }
                    "panicidx" => cur.as_mut().unwrap().panicidx.extend(w[1..].iter().map(|s| s.to_string())),
                    "split" => cur.as_mut().unwrap().split = Some((w[1].parse().unwrap(), w[2].parse().unwrap())),
                    "cellmut" => cur.as_mut().unwrap().cellmut = true,
                    "attr" => { let c = cur.as_mut().unwrap(); c.attrs.push_str(&w[1..].join(" ")); c.attrs.push('\n'); }
                    "for" => { cur.as_mut().unwrap().fors.insert(w[1].parse().unwrap(), w[2].to_string()); }
                    "celladd" => cur.as_mut().unwrap().celladd.extend(w[1..].iter().map(|s| s.to_string())),
                    "strvars" => cur.as_mut().unwrap().strvars.extend(w[1..].iter().map(|s| s.to_string())),
                    "subst" => {
                        let r = rest["subst".len()..].trim();
                        let (a, b) = r.split_once("=>").expect("subst");
                        cur.as_mut().unwrap().subst.push((a.trim().to_string(), b.trim().to_string()));
                    }
                    "spec" => sink = Sink::Spec,
                    "loop" => {
                        let n: usize = w[1].parse().unwrap();
                        if w.len() == 2 {
                            cur.as_mut().unwrap().loops.entry(n).or_default();
                            sink = Sink::Loop(n);
                        } else {
                            cur.as_mut().unwrap().anchors.push(Anchor { what: format!("loop {} {}", n, w[2]), ..Default::default() });
                            sink = Sink::Anchor;
                        }
                    }
                    "begin" | "end" => {
                        cur.as_mut().unwrap().anchors.push(Anchor { what: w[0].to_string(), ..Default::default() });
                        sink = Sink::Anchor;
                    }
                    "break" | "continue" | "return" => {
                        cur.as_mut().unwrap().anchors.push(Anchor { what: w[0].to_string(), nth: w[1].parse().unwrap(), before: true, ..Default::default() });
                        sink = Sink::Anchor;
                    }
                    // @before `pattern` [n]   @after `pattern` [n]   (a trailing ? makes it optional)
                    "before" | "after" | "before?" | "after?" | "before*" | "after*" => {
                        let r = rest[w[0].len()..].trim();
                        let r = r.strip_prefix('`').expect("pattern");
                        let (pat, n) = r.split_once('`').expect("pattern");
                        cur.as_mut().unwrap().anchors.push(Anchor {
                            what: "stmt".into(),
                            pat: pat.to_string(),
                            // a trailing * means every statement that matches, and is optional
                            nth: if w[0].ends_with('*') { usize::MAX } else { n.trim().parse().unwrap_or(0) },
                            before: w[0].starts_with("before"),
                            optional: w[0].ends_with('?') || w[0].ends_with('*'),
                            text: String::new(),
                        });
                        sink = Sink::Anchor;
                    }
                    other => panic!("{}: unknown directive @{}", path.display(), other),
                }
                continue;
            }
            match sink {
                Sink::None => {}
                Sink::Raw => { self.raw.push_str(line); self.raw.push('\n'); }
                Sink::Spec => { let c = cur.as_mut().unwrap(); c.spec.push_str(line); c.spec.push('\n'); }
                Sink::Loop(n) => { let e = cur.as_mut().unwrap().loops.get_mut(&n).unwrap(); e.push_str(line); e.push('\n'); }
                Sink::Anchor => { let a = cur.as_mut().unwrap().anchors.last_mut().unwrap(); a.text.push_str(line); a.text.push('\n'); }
            }
        }
        if let Some(f) = cur.take() { self.fns.push(f); }
    }
}

/// What the contract's hints were written against: parameter and local names.
#[derive(Default, Clone, Debug)]
pub struct BaseFn {
    pub params: Vec<String>,
    pub locals: Vec<String>,
    pub loops: usize,
    pub hash: u64,
    pub carried: Vec<String>, // variables a loop carries along
    pub hits: usize, // statements that optional hints were attached to
}

#[derive(Default)]
pub struct Baseline {
    pub fns: BTreeMap<String, BaseFn>,
}

impl Baseline {
    pub fn load(p: &Path) -> Baseline {
        let mut b = Baseline::default();
        if let Ok(t) = fs::read_to_string(p) {
            for l in t.lines() {
                let c: Vec<&str> = l.split('|').collect();
                if c.len() >= 5 {
                    b.fns.insert(c[0].to_string(), BaseFn {
                        params: c[1].split_whitespace().map(String::from).collect(),
                        locals: c[2].split_whitespace().map(String::from).collect(),
                        loops: c[3].parse().unwrap_or(0),
                        hash: c[4].parse().unwrap_or(0),
                        carried: c.get(6).map_or(vec![], |x| x.split_whitespace().map(String::from).collect()),
                        hits: c.get(5).map_or(0, |x| x.parse().unwrap_or(0)),
                    });
                }
            }
        }
        b
    }
    pub fn save(&self, p: &Path) {
        let mut s = String::new();
        for (k, f) in &self.fns {
            s.push_str(&format!("{}|{}|{}|{}|{}|{}|{}\n", k, f.params.join(" "), f.locals.join(" "), f.loops, f.hash, f.hits, f.carried.join(" ")));
        }
        fs::write(p, s).unwrap();
    }
}
