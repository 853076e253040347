//! inlining of helper functions that carry no contract of their own
use crate::*;
use std::collections::{BTreeMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};

const STD: &[&str] = &["clone", "to_string", "iter", "next", "push", "insert", "get", "len", "as_str", "parse", "map", "unwrap", "is_empty", "first", "last", "push_str", "from", "default", "from_str", "write", "flush", "eq", "fmt", "hash", "contains"];

pub fn run(env: &Env, f: &FnDef, b: &mut Block, inlined: &mut Vec<String>, notes: &mut Vec<String>) {
  for _ in 0..6 {
    if b.to_token_stream().to_string().len() > 120000 { notes.push("unsupported:inline-size".into()); break }
    let mut v = Inl { env, me: f, n: inlined.len(), done: vec![], notes: vec![] };
    v.tail_block(b, is_unit(&f.sig.output));
    v.visit_block_mut(b);
    notes.extend(v.notes.drain(..));
    let d = v.done;
    if d.is_empty() { break }
    inlined.extend(d);
  }
  notes.sort();
  notes.dedup();
}

fn is_unit(r: &ReturnType) -> bool { matches!(r, ReturnType::Default) }

struct Inl<'a> { env: &'a Env, me: &'a FnDef, n: usize, done: Vec<String>, notes: Vec<String> }

struct Ctl { ret_ok: bool, ret: bool, tr: bool }
impl<'ast> Visit<'ast> for Ctl {
  fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
    self.ret = true;
    let is_err = r.expr.as_ref().map(|e| tt(e).starts_with("Err (")).unwrap_or(false);
    if !is_err { self.ret_ok = true }
    visit::visit_expr_return(self, r);
  }
  fn visit_expr_try(&mut self, t: &'ast ExprTry) { self.tr = true; visit::visit_expr_try(self, t) }
  fn visit_expr_closure(&mut self, _c: &'ast ExprClosure) {}
}

struct Bound { names: HashSet<String> }
impl<'ast> Visit<'ast> for Bound {
  fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
    let s = p.ident.to_string();
    if s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) { self.names.insert(s); }
    visit::visit_pat_ident(self, p)
  }
}

struct Ren { map: BTreeMap<String, String>, sub: BTreeMap<String, Expr>, self_ty: Option<String> }
impl VisitMut for Ren {
  fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
    if let Some(n) = self.map.get(&p.ident.to_string()) { p.ident = Ident::new(n, p.ident.span()) }
    visit_mut::visit_pat_ident_mut(self, p)
  }
  fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
    if f.colon_token.is_none() {
      if let Member::Named(_) = f.member { f.colon_token = Some(Default::default()) }
    }
    visit_mut::visit_field_pat_mut(self, f)
  }
  fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
    if f.colon_token.is_none() { f.colon_token = Some(Default::default()) }
    visit_mut::visit_field_value_mut(self, f)
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::Path(p) = e {
      if let Some(id) = p.path.get_ident() {
        let s = id.to_string();
        if let Some(x) = self.sub.get(&s) { *e = x.clone(); return }
        if let Some(n) = self.map.get(&s) { *e = parse_str(n).unwrap(); return }
      }
    }
    visit_mut::visit_expr_mut(self, e)
  }
  fn visit_path_mut(&mut self, p: &mut Path) {
    if let Some(t) = &self.self_ty {
      if p.segments.first().map(|s| s.ident == "Self").unwrap_or(false) {
        let sp = p.segments[0].ident.span();
        p.segments[0].ident = Ident::new(t, sp);
      }
    }
    visit_mut::visit_path_mut(self, p)
  }
  fn visit_macro_mut(&mut self, m: &mut Macro) {
    if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
      for a in args.iter_mut() { self.visit_expr_mut(a) }
      m.tokens = quote::quote!(#args);
    }
  }
}

#[derive(PartialEq, Clone, Copy)]
enum Pos { Plain, Try, Tail }

impl<'a> Inl<'a> {
  fn resolve(&self, e: &Expr) -> Option<(FnDef, Option<Expr>, Vec<Expr>)> {
    match e {
      Expr::Call(c) => {
        if let Expr::Path(p) = &*c.func {
          let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
          let key = match segs.len() {
            1 => segs[0].clone(),
            2 => format!("{}::{}", if segs[0] == "Self" { self.me.self_ty.clone().unwrap_or_default() } else { segs[0].clone() }, segs[1]),
            _ => return None,
          };
          if self.env.contracts.contains(&key) || key == self.me.key { return None }
          let d = self.env.fns.get(&key)?;
          if d.len() != 1 { return None }
          let d = d[0].clone();
          let mut args: Vec<Expr> = c.args.iter().cloned().collect();
          let mut recv = None;
          if let Some(FnArg::Receiver(_)) = d.sig.inputs.first() { if args.is_empty() { return None } recv = Some(args.remove(0)) }
          return Some((d, recv, args));
        }
        None
      }
      Expr::MethodCall(m) => {
        let n = m.method.to_string();
        if STD.contains(&n.as_str()) { return None }
        let ks = self.env.by_method.get(&n)?;
        if ks.iter().any(|k| self.env.contracts.contains(k)) { return None }
        let mut ks = ks.clone();
        if let Expr::Path(p) = &*m.receiver { if p.path.is_ident("self") {
          if let Some(t) = &self.me.self_ty { let k = format!("{}::{}", t, n); if ks.contains(&k) { ks = vec![k] } }
        } }
        if ks.len() != 1 || ks[0] == self.me.key { return None }
        let d = self.env.fns.get(&ks[0])?[0].clone();
        if !matches!(d.sig.inputs.first(), Some(FnArg::Receiver(_))) { return None }
        Some((d, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
      }
      _ => None,
    }
  }

  fn try_inline(&mut self, e: &mut Expr, pos: Pos) -> bool {
    let (d, recv, args) = match self.resolve(e) { Some(x) => x, None => return false };
    let mut c = Ctl { ret_ok: false, ret: false, tr: false };
    c.visit_block(&d.block);
    let ok = match pos { Pos::Tail => true, Pos::Try => !c.ret_ok, Pos::Plain => !c.ret && !c.tr };
    if !ok { if pos == Pos::Plain || pos == Pos::Try { self.notes.push(format!("uninlinable:{}", d.key)) } return false }
    if !d.sig.generics.params.iter().all(|g| matches!(g, GenericParam::Lifetime(_))) && tt(&d.block).contains("<") {
      self.notes.push(format!("generic-helper:{}", d.key));
    }
    self.n += 1;
    let suf = format!("__{}", self.n);
    let mut b = Bound { names: HashSet::new() };
    b.visit_block(&d.block);
    let mut map: BTreeMap<String, String> = b.names.iter().map(|s| (s.clone(), format!("{}{}", s, suf))).collect();
    let mut sub = BTreeMap::new();
    let mut pre: Vec<Stmt> = vec![];
    if let Some(r) = recv {
      sub.insert("self".to_string(), self.simple(&r, &suf, "self", None, &mut pre));
    }
    let typed: Vec<PatType> = d.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t.clone()) } else { None }).collect();
    if typed.len() != args.len() { return false }
    for (t, a) in typed.iter().zip(args.iter()) {
      match &*t.pat {
        Pat::Ident(pi) if pi.subpat.is_none() => {
          let name = pi.ident.to_string();
          map.remove(&name);
          let shadowed = b.names.contains(&name);
          if pi.mutability.is_some() || shadowed {
            let nn = format!("{}{}", name, suf);
            let id = Ident::new(&nn, pi.ident.span());
            let ty = &t.ty;
            pre.push(parse_quote!(let mut #id : #ty = #a;));
            map.insert(name, nn);
          } else {
            let x = self.simple(a, &suf, &name, Some(&t.ty), &mut pre);
            sub.insert(name, x);
          }
        }
        p => { let ty = &t.ty; pre.push(parse_quote!(let #p : #ty = #a;)); }
      }
    }
    let mut blk = d.block.clone();
    Ren { map, sub, self_ty: d.self_ty.clone() }.visit_block_mut(&mut blk);
    let mut stmts = pre;
    stmts.extend(blk.stmts);
    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } });
    self.done.push(d.key.clone());
    true
  }

  /// an argument usable by substitution (place expression, literal), or a let-bound temporary
  fn simple(&self, a: &Expr, suf: &str, name: &str, ty: Option<&Type>, pre: &mut Vec<Stmt>) -> Expr {
    fn place(e: &Expr) -> bool {
      match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
      }
    }
    match a {
      Expr::Lit(_) => return a.clone(),
      Expr::Reference(r) if place(&r.expr) => return Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(a.clone()) }),
      e if place(e) => return a.clone(),
      _ => {}
    }
    let id = Ident::new(&format!("{}{}", name, suf), proc_macro2::Span::call_site());
    let plain = ty.map(|t| { let s = tt(t); !s.contains("impl ") && !s.contains("Self") && !s.contains("'") && !(s.len() <= 3 && s.chars().all(|c| c.is_uppercase() || c == '&' || c == ' ')) }).unwrap_or(false);
    if plain { let ty = ty.unwrap(); pre.push(parse_quote!(let #id : #ty = #a;)) } else { pre.push(parse_quote!(let #id = #a;)) }
    parse_quote!(#id)
  }

  /// positions where the value of the expression is the value of the function
  fn tail_block(&mut self, b: &mut Block, unit: bool) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.tail_expr(e, unit) }
  }
  fn tail_expr(&mut self, e: &mut Expr, unit: bool) {
    match e {
      Expr::If(i) => { self.tail_block(&mut i.then_branch, unit); if let Some((_, x)) = &mut i.else_branch { self.tail_expr(x, unit) } }
      Expr::Match(m) => for a in m.arms.iter_mut() { self.tail_expr(&mut a.body, unit) },
      Expr::Block(b) => self.tail_block(&mut b.block, unit),
      Expr::Call(_) | Expr::MethodCall(_) => { self.try_inline(e, Pos::Tail); }
      _ => {}
    }
  }
}

impl<'a> VisitMut for Inl<'a> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    match e {
      Expr::Try(t) => {
        // children of the inner call first, then the call itself in `?` position
        match &mut *t.expr {
          Expr::Call(c) => { for a in c.args.iter_mut() { self.visit_expr_mut(a) } }
          Expr::MethodCall(m) => { self.visit_expr_mut(&mut m.receiver); for a in m.args.iter_mut() { self.visit_expr_mut(a) } }
          x => { self.visit_expr_mut(x); }
        }
        if matches!(&*t.expr, Expr::Call(_) | Expr::MethodCall(_)) { self.try_inline(&mut t.expr, Pos::Try); }
        return;
      }
      Expr::Return(r) => {
        if let Some(x) = &mut r.expr {
          let mut y = (**x).clone();
          if self.try_inline(&mut y, Pos::Tail) { **x = y; return }
        }
      }
      _ => {}
    }
    visit_mut::visit_expr_mut(self, e);
    if matches!(e, Expr::Call(_) | Expr::MethodCall(_)) { self.try_inline(e, Pos::Plain); }
  }
}
