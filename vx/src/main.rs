//! vx: mechanical extraction of the functions of /repo/src into the Verus dialect.
//! usage: vx SRC_DIR CONTRACTS.json  (list of "Type::fn" / "fn" keys that carry a contract)
mod desugar;
mod inline;
mod meta;
mod print;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct FnDef {
  pub key: String,
  pub module: String,
  pub self_ty: Option<String>,
  pub trait_: Option<String>,
  pub sig: Signature,
  pub block: Block,
  pub line: usize,
}

pub struct Env {
  pub fns: HashMap<String, Vec<FnDef>>,
  pub by_method: HashMap<String, Vec<String>>,
  pub contracts: HashSet<String>,
  pub structs: HashMap<String, Vec<String>>,
}

fn has_test_cfg(attrs: &[Attribute]) -> bool {
  attrs.iter().any(|a| {
    a.path().is_ident("test") || (a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
  })
}

/// strips module prefixes from paths: crate::text::Text -> Text
pub struct PathNorm<'a> { pub mods: &'a HashSet<String> }
impl<'a> VisitMut for PathNorm<'a> {
  fn visit_path_mut(&mut self, p: &mut Path) {
    let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
    let mut i = 0;
    while i + 1 < segs.len() {
      let s = segs[i].ident.to_string();
      if s == "crate" || s == "super" || (s == "self" && segs.len() > 1) || self.mods.contains(&s) || s == "xmltree" { i += 1 } else { break }
    }
    if i > 0 {
      p.segments = segs.into_iter().skip(i).collect();
      p.leading_colon = None;
    }
    visit_mut::visit_path_mut(self, p);
  }
  fn visit_macro_mut(&mut self, _m: &mut Macro) {}
}

fn ty_name(t: &Type) -> String {
  if let Type::Path(p) = t { return p.path.segments.last().unwrap().ident.to_string() }
  t.to_token_stream().to_string()
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let src = &a[1];
  let contracts: HashSet<String> = serde_json::from_str::<Vec<String>>(&std::fs::read_to_string(&a[2]).unwrap()).unwrap().into_iter().collect();
  let mut files: Vec<(String, File)> = vec![];
  let mut names: Vec<_> = vec![];
  collect(std::path::Path::new(src), &mut names);
  names.sort();
  let mut errors: Vec<String> = vec![];
  for p in names {
    let m = p.file_stem().unwrap().to_string_lossy().to_string();
    let s = std::fs::read_to_string(&p).unwrap();
    match parse_file(&s) { Ok(f) => files.push((m, f)), Err(e) => errors.push(format!("{}: {}", p.display(), e)) }
  }
  let mut mods: HashSet<String> = files.iter().map(|x| x.0.clone()).collect();
  mods.remove("lib");
  let mut types: Vec<Value> = vec![];
  let mut aliases: Vec<Value> = vec![];
  let mut fns: Vec<FnDef> = vec![];
  let mut others: Vec<Value> = vec![];
  let mut structs = HashMap::new();
  for (m, f) in files.iter_mut() {
    PathNorm { mods: &mods }.visit_file_mut(f);
    let mut items: Vec<Item> = f.items.clone();
    let mut k = 0;
    while k < items.len() {
      match items[k].clone() {
        Item::Mod(md) if !has_test_cfg(&md.attrs) => {
          if let Some((_, c)) = md.content { items.extend(c) }
        }
        Item::Struct(s) if !has_test_cfg(&s.attrs) => {
          let fields: Vec<Value> = s.fields.iter().enumerate().map(|(i, f)| json!({"name": f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), "ty": tt(&f.ty), "pub": matches!(f.vis, Visibility::Public(_))})).collect();
          structs.insert(s.ident.to_string(), s.fields.iter().filter_map(|f| f.ident.as_ref().map(|x| x.to_string())).collect());
          types.push(json!({"kind":"struct","mod":m,"name":s.ident.to_string(),"fields":fields,"tuple":matches!(s.fields, Fields::Unnamed(_)),"generics":tt(&s.generics),"derives":derives(&s.attrs)}));
        }
        Item::Enum(s) if !has_test_cfg(&s.attrs) => {
          let vs: Vec<Value> = s.variants.iter().map(|v| json!({"name": v.ident.to_string(), "named": matches!(v.fields, Fields::Named(_)), "tys": v.fields.iter().map(|f| json!([f.ident.as_ref().map(|x| x.to_string()), tt(&f.ty)])).collect::<Vec<_>>()})).collect();
          types.push(json!({"kind":"enum","mod":m,"name":s.ident.to_string(),"variants":vs,"generics":tt(&s.generics),"derives":derives(&s.attrs)}));
        }
        Item::Type(t) => aliases.push(json!({"mod":m,"name":t.ident.to_string(),"text":tt(&t)})),
        Item::Fn(f) if !has_test_cfg(&f.attrs) => fns.push(FnDef { key: f.sig.ident.to_string(), module: m.clone(), self_ty: None, trait_: None, line: f.sig.fn_token.span.start().line, sig: f.sig, block: *f.block }),
        Item::Impl(im) if !has_test_cfg(&im.attrs) => {
          let ty = ty_name(&im.self_ty);
          let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
          for it in im.items.iter() {
            if let ImplItem::Fn(f) = it {
              fns.push(FnDef { key: format!("{}::{}", ty, f.sig.ident), module: m.clone(), self_ty: Some(ty.clone()), trait_: tr.clone(), line: f.sig.fn_token.span.start().line, sig: f.sig.clone(), block: f.block.clone() });
            }
          }
          if let Some(t) = tr { others.push(json!({"impl": t, "for": ty, "mod": m})) }
        }
        Item::Const(c) => others.push(json!({"const": c.ident.to_string(), "mod": m, "text": tt(&c)})),
        Item::Static(c) => others.push(json!({"const": c.ident.to_string(), "mod": m, "text": tt(&c)})),
        Item::Macro(mc) => others.push(json!({"macro": tt(&mc.mac.path), "mod": m})),
        _ => {}
      }
      k += 1;
    }
  }
  let mut contracts = contracts;
  for f in &fns {
    if matches!(f.trait_.as_deref(), Some("Parser") | Some("ToXmlElement") | Some("ToXmlElementWithName")) { contracts.insert(f.key.clone()); }
  }
  let mut env = Env { fns: HashMap::new(), by_method: HashMap::new(), contracts, structs };
  for f in &fns {
    env.fns.entry(f.key.clone()).or_default().push(f.clone());
    if f.self_ty.is_some() { env.by_method.entry(f.sig.ident.to_string()).or_default().push(f.key.clone()) }
  }
  let mut out: Vec<Value> = vec![];
  for f in &fns {
    let mut notes: Vec<String> = vec![];
    let mut block = f.block.clone();
    let mut inlined: Vec<String> = vec![];
    inline::run(&env, f, &mut block, &mut inlined, &mut notes);
    let mut d = desugar::Desugar::new(f.sig.clone());
    d.run(&mut block);
    notes.extend(d.notes.iter().cloned());
    let md = meta::analyse(&block, &f.sig, f.self_ty.as_deref());
    let params: Vec<Value> = f.sig.inputs.iter().map(|p| match p {
      FnArg::Receiver(r) => json!({"self": tt(r), "mut": r.mutability.is_some(), "ref": r.reference.is_some()}),
      FnArg::Typed(t) => json!({"name": tt(&t.pat), "ty": tt(&t.ty)}),
    }).collect();
    let ret = match &f.sig.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => json!(tt(t)) };
    out.push(json!({
      "key": f.key, "mod": f.module, "self_ty": f.self_ty, "trait": f.trait_, "name": f.sig.ident.to_string(), "line": f.line,
      "params": params, "ret": ret, "generics": tt(&f.sig.generics), "where": f.sig.generics.where_clause.as_ref().map(|w| tt(w)),
      "body": print::block(&block), "meta": md, "notes": notes, "inlined": inlined, "calls": meta::calls(&block),
    }));
  }
  println!("{}", serde_json::to_string(&json!({"types": types, "aliases": aliases, "fns": out, "others": others, "errors": errors})).unwrap());
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
  attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.meta.to_token_stream().to_string()).collect()
}

pub fn tt<T: ToTokens>(t: &T) -> String { print::tokens(t.to_token_stream()) }

fn collect(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
  for e in std::fs::read_dir(p).unwrap() {
    let e = e.unwrap().path();
    if e.is_dir() { if e.file_name().unwrap() != "tests" { collect(&e, out) } }
    else if e.extension().map(|x| x == "rs").unwrap_or(false) && e.file_name().unwrap() != "tests.rs" { out.push(e) }
  }
}
