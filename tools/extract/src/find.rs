//! Locating items in the repository's source by name.
use crate::fail;
use quote::ToTokens;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use syn::spanned::Spanned;

pub struct Files {
    repo: String,
    cache: RefCell<HashMap<String, Rc<syn::File>>>,
}

impl Files {
    pub fn new(repo: &str) -> Self {
        Self { repo: repo.to_string(), cache: RefCell::new(HashMap::new()) }
    }
    pub fn get(&self, file: &str) -> Rc<syn::File> {
        if let Some(f) = self.cache.borrow().get(file) {
            return f.clone();
        }
        let p = format!("{}/{}", self.repo, file);
        let t = std::fs::read_to_string(&p).unwrap_or_else(|e| fail(format!("lost anchor: {p}: {e}")));
        let f = Rc::new(syn::parse_file(&t).unwrap_or_else(|e| fail(format!("cannot parse {p}: {e}"))));
        self.cache.borrow_mut().insert(file.to_string(), f.clone());
        f
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

/// All items of a file, descending into inline non-test modules.
fn items(f: &syn::File) -> Vec<syn::Item> {
    fn go(v: &[syn::Item], out: &mut Vec<syn::Item>) {
        for i in v {
            if let syn::Item::Mod(m) = i {
                if !is_test(&m.attrs) {
                    if let Some((_, c)) = &m.content {
                        go(c, out);
                    }
                }
            } else {
                out.push(i.clone());
            }
        }
    }
    let mut out = vec![];
    go(&f.items, &mut out);
    out
}

pub fn find_const(fs: &Files, file: &str, name: &str) -> Option<syn::ItemConst> {
    items(&fs.get(file)).into_iter().find_map(|i| match i {
        syn::Item::Const(c) if c.ident == name => Some(c),
        _ => None,
    })
}
pub fn find_struct(fs: &Files, file: &str, name: &str) -> Option<(syn::ItemStruct, usize)> {
    items(&fs.get(file)).into_iter().find_map(|i| match i {
        syn::Item::Struct(c) if c.ident == name => {
            let l = c.ident.span().start().line;
            Some((c, l))
        }
        _ => None,
    })
}
pub fn find_enum(fs: &Files, file: &str, name: &str) -> Option<(syn::ItemEnum, usize)> {
    items(&fs.get(file)).into_iter().find_map(|i| match i {
        syn::Item::Enum(c) if c.ident == name => {
            let l = c.ident.span().start().line;
            Some((c, l))
        }
        _ => None,
    })
}
pub fn find_fn(fs: &Files, file: &str, name: &str) -> Option<(syn::ItemFn, usize)> {
    items(&fs.get(file)).into_iter().find_map(|i| match i {
        syn::Item::Fn(c) if c.sig.ident == name && !is_test(&c.attrs) => {
            let l = c.sig.ident.span().start().line;
            Some((c, l))
        }
        _ => None,
    })
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => t.to_token_stream().to_string(),
    }
}

/// `head` is `Type`, `Trait for Type` or the same with generic arguments spelled out.
pub fn find_method(fs: &Files, file: &str, head: &str, name: &str) -> Option<(syn::ItemFn, usize, String)> {
    let (tr, ty) = match head.split_once(" for ") {
        Some((a, b)) => (Some(a.trim().to_string()), b.trim().to_string()),
        None => (None, head.trim().to_string()),
    };
    for i in items(&fs.get(file)) {
        let syn::Item::Impl(im) = i else { continue };
        if is_test(&im.attrs) {
            continue;
        }
        let id = last_ident(&im.self_ty);
        let full = norm(&im.self_ty.to_token_stream().to_string());
        let ty_ok = if ty.contains('<') { norm(&ty) == full } else { ty == id };
        if !ty_ok {
            continue;
        }
        match (&tr, &im.trait_) {
            (Some(t), Some((_, p, _))) => {
                let pid = p.segments.last().unwrap().ident.to_string();
                let pfull = norm(&p.segments.last().unwrap().to_token_stream().to_string());
                let ok = if t.contains('<') { norm(t) == pfull } else { *t == pid };
                if !ok {
                    continue;
                }
            }
            (None, None) => {}
            _ => continue,
        }
        for it in &im.items {
            if let syn::ImplItem::Fn(f) = it {
                if f.sig.ident == name && !is_test(&f.attrs) {
                    let line = f.sig.ident.span().start().line;
                    let itemfn = syn::ItemFn {
                        attrs: vec![],
                        vis: syn::Visibility::Inherited,
                        sig: f.sig.clone(),
                        block: Box::new(f.block.clone()),
                    };
                    let _ = f.span();
                    return Some((itemfn, line, id));
                }
            }
        }
    }
    None
}

/// Any method called `name` in an inherent impl of `selfty` (or anywhere when `selfty` is empty).
pub fn find_any_method(fs: &Files, file: &str, selfty: &str, name: &str) -> Option<syn::ItemFn> {
    for i in items(&fs.get(file)) {
        let syn::Item::Impl(im) = i else { continue };
        if im.trait_.is_some() || (!selfty.is_empty() && last_ident(&im.self_ty) != selfty) {
            continue;
        }
        for it in &im.items {
            if let syn::ImplItem::Fn(f) = it {
                if f.sig.ident == name {
                    return Some(syn::ItemFn {
                        attrs: vec![],
                        vis: syn::Visibility::Inherited,
                        sig: f.sig.clone(),
                        block: Box::new(f.block.clone()),
                    });
                }
            }
        }
    }
    None
}
