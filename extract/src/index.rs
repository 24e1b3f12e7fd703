//! Index of the source tree: types, constants and functions.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;
use std::rc::Rc;

pub struct File {
    pub name: String,
    pub text: String,
    pub line_starts: Vec<usize>,
}

pub struct FnItem {
    pub file: Rc<File>,
    pub key: String,
    pub self_ty: String,
    pub name: String,
    pub sig: syn::Signature,
    pub block: syn::Block,
}

pub enum TypeItem {
    Struct(Rc<File>, syn::ItemStruct),
    Enum(Rc<File>, syn::ItemEnum),
    Alias(Rc<File>, syn::ItemType),
}

pub struct Index {
    pub fns: Vec<FnItem>,
    pub types: BTreeMap<String, TypeItem>,
    pub consts: BTreeMap<String, (Rc<File>, syn::ItemConst)>,
    pub modules: BTreeSet<String>,
    pub generics: BTreeMap<String, String>,
    pub map_fields: BTreeSet<String>, // struct fields whose type is a HashMap
}

fn attr_is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::ToTokens::to_token_stream(a).to_string();
        s.contains("cfg") && s.contains("test")
    })
}

impl Index {
    pub fn load(src: &Path) -> Result<Index, String> {
        let mut idx = Index {
            fns: vec![],
            types: BTreeMap::new(),
            consts: BTreeMap::new(),
            modules: BTreeSet::new(),
            generics: BTreeMap::new(),
            map_fields: BTreeSet::new(),
        };
        let mut files = vec![];
        walk(src, src, &mut files);
        files.sort();
        // the program: what Cargo.toml names
        if let Ok(t) = fs::read_to_string(src.join("../Cargo.toml")) {
            let mut bin = false;
            for l in t.lines() {
                let l = l.trim();
                if l.starts_with('[') { bin = l == "[[bin]]"; }
                if let (true, Some(v)) = (bin, l.strip_prefix("path")) {
                    files.push(format!("../{}", v.trim_matches(|c: char| c == ' ' || c == '=' || c == '"')));
                }
            }
        }
        for rel in files {
            let text = fs::read_to_string(src.join(&rel)).map_err(|e| e.to_string())?;
            let text = text.replace("\r\n", "\n");
            let text = crate::normal::counted_loops(&text);
            let ast = syn::parse_file(&text).map_err(|e| format!("{}: {}", rel, e))?;
            let stem = Path::new(&rel).file_stem().unwrap().to_str().unwrap().to_string();
            if rel.starts_with("..") {
            } else if stem == "mod" {
                if let Some(p) = Path::new(&rel).parent() {
                    idx.modules.insert(p.file_name().unwrap().to_str().unwrap().to_string());
                }
            } else {
                idx.modules.insert(stem);
            }
            let mut line_starts = vec![0];
            for (i, b) in text.bytes().enumerate() {
                if b == b'\n' {
                    line_starts.push(i + 1);
                }
            }
            let file = Rc::new(File { name: rel.clone(), text, line_starts });
            idx.items(&file, &ast.items);
        }
        Ok(idx)
    }

    fn items(&mut self, file: &Rc<File>, items: &[syn::Item]) {
        for it in items {
            match it {
                syn::Item::Fn(f) if !attr_is_test(&f.attrs) => {
                    self.add_fn(file, "", &f.sig, &f.block, "");
                }
                syn::Item::Impl(im) if im.trait_.is_none() => {
                    let ty = type_name(&im.self_ty);
                    let toks = &im.self_ty;
                    self.generics.insert(ty.clone(), quote::quote!(#toks).to_string());
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            self.add_fn(file, &ty, &f.sig, &f.block, "");
                        }
                        if let syn::ImplItem::Const(c) = ii {
                            let _ = c; // associated constants are not used by this crate
                        }
                    }
                }
                syn::Item::Struct(s) => {
                    for f in &s.fields {
                        let t = &f.ty;
                        if let (Some(i), true) = (&f.ident, quote::quote!(#t).to_string().contains("HashMap <")) {
                            self.map_fields.insert(i.to_string());
                        }
                    }
                    self.types.insert(s.ident.to_string(), TypeItem::Struct(file.clone(), s.clone()));
                }
                syn::Item::Enum(s) => {
                    self.types.insert(s.ident.to_string(), TypeItem::Enum(file.clone(), s.clone()));
                }
                syn::Item::Type(s) => {
                    self.types.insert(s.ident.to_string(), TypeItem::Alias(file.clone(), s.clone()));
                }
                syn::Item::Const(c) => {
                    self.consts.insert(c.ident.to_string(), (file.clone(), c.clone()));
                }
                syn::Item::Mod(m) if !attr_is_test(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.modules.insert(m.ident.to_string());
                        self.items(file, items);
                    }
                }
                _ => {}
            }
        }
    }

    fn add_fn(&mut self, file: &Rc<File>, ty: &str, sig: &syn::Signature, block: &syn::Block, prefix: &str) {
        let name = sig.ident.to_string();
        let key = if !prefix.is_empty() {
            format!("{}::{}", prefix, name)
        } else if ty.is_empty() {
            name.clone()
        } else {
            format!("{}::{}", ty, name)
        };
        for st in &block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = st {
                self.add_fn(file, "", &f.sig, &f.block, &key);
            }
            if let syn::Stmt::Item(syn::Item::Const(c)) = st {
                self.consts.insert(c.ident.to_string(), (file.clone(), c.clone()));
            }
        }
        self.fns.push(FnItem {
            file: file.clone(),
            key,
            self_ty: ty.to_string(),
            name,
            sig: sig.clone(),
            block: block.clone(),
        });
    }

    /// By key, in the named file if it is there, else anywhere (code may move).
    pub fn find(&self, file: &str, key: &str) -> Option<&FnItem> {
        self.fns
            .iter()
            .find(|f| f.file.name == file && f.key == key)
            .or_else(|| {
                let v: Vec<_> = self.fns.iter().filter(|f| f.key == key).collect();
                if v.len() == 1 { Some(v[0]) } else { None }
            })
    }

    pub fn impl_header(&self, ty: &str) -> String {
        self.generics.get(ty).cloned().unwrap_or_else(|| ty.to_string())
    }
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => quote::quote!(#t).to_string(),
    }
}

fn walk(root: &Path, dir: &Path, out: &mut Vec<String>) {
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(root, &p, out);
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                out.push(p.strip_prefix(root).unwrap().to_str().unwrap().to_string());
            }
        }
    }
}
