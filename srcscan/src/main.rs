//! Lists every item of a crate's sources - including those any `cfg` would remove - as JSON:
//! what it is, which type or trait it belongs to, the identifiers it mentions and where it uses
//! the `unsafe` keyword.
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::path::{Path, PathBuf};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Scan {
    out: Vec<String>,
    errors: Vec<String>,
}

fn walk(ts: TokenStream, ids: &mut Vec<String>, un: &mut Vec<usize>, calls: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut dot = false;
    for t in v.iter() {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if s == "unsafe" {
                    un.push(i.span().start().line);
                }
                if dot {
                    if !calls.contains(&s) {
                        calls.push(s);
                    }
                } else if !ids.contains(&s) {
                    ids.push(s);
                }
                dot = false;
            }
            TokenTree::Group(g) => {
                walk(g.stream(), ids, un, calls);
                dot = false;
            }
            TokenTree::Punct(p) => dot = p.as_char() == '.',
            _ => dot = false,
        }
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[cfg(test)]" || s == "#[test]" || s == "#[quickcheck]"
    })
}

impl Scan {
    fn emit(&mut self, file: &Path, module: &str, kind: &str, name: &str, owner: &str, of_trait: &str, toks: TokenStream, span: Span) {
        let (mut ids, mut un, mut calls) = (vec![], vec![], vec![]);
        walk(toks, &mut ids, &mut un, &mut calls);
        let l = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        self.out.push(format!(
            "{{\"file\":{},\"module\":{},\"kind\":{},\"name\":{},\"owner\":{},\"trait\":{},\"line\":{},\"end\":{},\"ids\":[{}],\"methods\":[{}],\"unsafe\":{:?}}}",
            esc(&file.display().to_string()),
            esc(module),
            esc(kind),
            esc(name),
            esc(owner),
            esc(of_trait),
            span.start().line,
            span.end().line,
            l(&ids),
            l(&calls),
            un
        ));
    }
    fn file(&mut self, path: &Path, module: &str) {
        let src = match std::fs::read_to_string(path) {
            Ok(s) => s,
            Err(e) => {
                self.errors.push(format!("{}: {}", path.display(), e));
                return;
            }
        };
        match syn::parse_file(&src) {
            Ok(f) => self.items(&f.items, path, module, path.file_name().map_or(false, |n| n == "lib.rs" || n == "mod.rs")),
            Err(e) => self.errors.push(format!("{}: {}", path.display(), e)),
        }
    }
    fn items(&mut self, items: &[syn::Item], path: &Path, module: &str, dir_is_self: bool) {
        use syn::spanned::Spanned;
        for it in items {
            let sp = it.span();
            match it {
                syn::Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    let name = m.ident.to_string();
                    let sub = format!("{}::{}", module, name);
                    match &m.content {
                        Some((_, its)) => self.items(its, path, &sub, dir_is_self),
                        None => {
                            let mut dir: PathBuf = path.parent().unwrap().into();
                            if !dir_is_self {
                                dir.push(path.file_stem().unwrap());
                            }
                            let attr = m.attrs.iter().find(|a| a.path().is_ident("path")).and_then(|a| match &a.meta {
                                syn::Meta::NameValue(nv) => match &nv.value {
                                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                                    _ => None,
                                },
                                _ => None,
                            });
                            let cands = match attr {
                                Some(p) => vec![path.parent().unwrap().join(p)],
                                None => vec![dir.join(format!("{}.rs", name)), dir.join(&name).join("mod.rs")],
                            };
                            match cands.iter().find(|c| c.exists()) {
                                Some(c) => {
                                    let c = c.clone();
                                    self.file(&c, &sub)
                                }
                                None => self.errors.push(format!("{}: module {} not found", path.display(), name)),
                            }
                        }
                    }
                }
                syn::Item::Impl(i) => {
                    if is_test(&i.attrs) {
                        continue;
                    }
                    let (mut ids, mut un, mut c) = (vec![], vec![], vec![]);
                    walk(i.self_ty.to_token_stream(), &mut ids, &mut un, &mut c);
                    let owner = ids.join(" ");
                    let tr = i.trait_.as_ref().map_or(String::new(), |t| t.1.segments.last().unwrap().ident.to_string());
                    // the header on its own
                    let mut head = i.clone();
                    head.items.clear();
                    head.attrs.clear();
                    self.emit(path, module, "impl", &owner, &owner, &tr, head.to_token_stream(), sp);
                    for x in &i.items {
                        let (name, kind) = match x {
                            syn::ImplItem::Fn(f) => {
                                if is_test(&f.attrs) {
                                    continue;
                                }
                                (f.sig.ident.to_string(), "method")
                            }
                            syn::ImplItem::Const(c) => (c.ident.to_string(), "assoc"),
                            syn::ImplItem::Type(c) => (c.ident.to_string(), "assoc"),
                            syn::ImplItem::Macro(m) => (m.mac.path.to_token_stream().to_string(), "macrouse"),
                            _ => (String::new(), "other"),
                        };
                        self.emit(path, module, kind, &name, &owner, &tr, x.to_token_stream(), x.span());
                    }
                }
                syn::Item::Trait(t) => {
                    self.emit(path, module, "trait", &t.ident.to_string(), "", &t.ident.to_string(), t.to_token_stream(), sp);
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            self.emit(path, module, "traitmethod", &f.sig.ident.to_string(), "", &t.ident.to_string(), x.to_token_stream(), x.span());
                        }
                    }
                }
                syn::Item::Fn(f) => {
                    if !is_test(&f.attrs) {
                        self.emit(path, module, "fn", &f.sig.ident.to_string(), "", "", f.to_token_stream(), sp);
                    }
                }
                syn::Item::Macro(m) => {
                    let name = m.ident.as_ref().map(|i| i.to_string());
                    match name {
                        Some(n) => self.emit(path, module, "macro", &n, "", "", m.mac.tokens.clone(), sp),
                        None => {
                            let n = m.mac.path.segments.last().unwrap().ident.to_string();
                            self.emit(path, module, "macrouse", &n, "", "", m.to_token_stream(), sp)
                        }
                    }
                }
                syn::Item::Struct(s) => self.emit(path, module, "type", &s.ident.to_string(), "", "", s.to_token_stream(), sp),
                syn::Item::Enum(s) => self.emit(path, module, "type", &s.ident.to_string(), "", "", s.to_token_stream(), sp),
                syn::Item::Union(s) => self.emit(path, module, "type", &s.ident.to_string(), "", "", s.to_token_stream(), sp),
                syn::Item::Type(s) => self.emit(path, module, "type", &s.ident.to_string(), "", "", s.to_token_stream(), sp),
                syn::Item::Const(s) => self.emit(path, module, "const", &s.ident.to_string(), "", "", s.to_token_stream(), sp),
                syn::Item::Static(s) => self.emit(path, module, "const", &s.ident.to_string(), "", "", s.to_token_stream(), sp),
                syn::Item::ForeignMod(s) => self.emit(path, module, "foreign", "", "", "", s.to_token_stream(), sp),
                syn::Item::Use(s) => self.emit(path, module, "use", "", "", "", s.to_token_stream(), sp),
                other => self.emit(path, module, "other", "", "", "", other.to_token_stream(), sp),
            }
        }
    }
}

fn main() {
    let p = std::env::args().nth(1).expect("usage: srcscan path/to/lib.rs");
    let mut s = Scan::default();
    s.file(Path::new(&p), "crate");
    let e = s.errors.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",");
    println!("{{\"items\":[\n{}\n],\"errors\":[{}]}}", s.out.join(",\n"), e);
}
