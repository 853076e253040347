//! what each loop reads and writes, for the placement of invariants
use crate::tt;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::*;

pub fn calls(b: &Block) -> Vec<String> {
  struct C(Vec<String>);
  impl<'a> Visit<'a> for C {
    fn visit_expr_call(&mut self, c: &'a ExprCall) { self.0.push(tt(&c.func).replace(' ', "")); visit::visit_expr_call(self, c) }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) { self.0.push(format!(".{}", c.method)); visit::visit_expr_method_call(self, c) }
  }
  let mut c = C(vec![]);
  c.visit_block(b);
  c.0.sort();
  c.0.dedup();
  c.0
}

fn base(e: &Expr) -> String {
  match e {
    Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(),
    Expr::Field(f) => base(&f.base),
    Expr::MethodCall(m) => base(&m.receiver),
    Expr::Reference(r) => base(&r.expr),
    Expr::Paren(p) => base(&p.expr),
    Expr::Unary(u) => base(&u.expr),
    Expr::Try(t) => base(&t.expr),
    Expr::Index(t) => base(&t.expr),
    Expr::Match(m) => base(&m.expr),
    Expr::Call(c) if tt(&c.func) == "Some" || tt(&c.func) == "Ok" => c.args.first().map(base).unwrap_or_default(),
    _ => String::new(),
  }
}
fn path(e: &Expr) -> String {
  match e {
    Expr::Reference(r) => path(&r.expr),
    Expr::Paren(p) => path(&p.expr),
    Expr::Unary(u) => path(&u.expr),
    e => tt(e).replace(' ', ""),
  }
}

#[derive(Default)]
struct M {
  tags: Vec<String>,
  pats: Vec<String>,
  loops: Vec<usize>,
  events: Vec<Value>,
  loopinfo: BTreeMap<usize, Map<String, Value>>,
  locals: Map<String, Value>,
  alias: Map<String, Value>,
  results: Vec<Value>,
  
}

struct Lits(Vec<String>);
impl<'a> Visit<'a> for Lits {
  fn visit_expr_call(&mut self, c: &'a ExprCall) {
    if tt(&c.func) == "vx_eq" { for a in c.args.iter() { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = a { self.0.push(s.value()) } } }
    visit::visit_expr_call(self, c)
  }
  fn visit_expr_unary(&mut self, u: &'a ExprUnary) { if !matches!(u.op, UnOp::Not(_)) { visit::visit_expr_unary(self, u) } }
}
fn lits(e: &Expr) -> Vec<String> { let mut l = Lits(vec![]); l.visit_expr(e); l.0 }

impl M {
  fn ev(&mut self, target: String, how: &str, val: &Expr) {
    let b = target.split('.').next().unwrap_or("").to_string();
    self.events.push(json!({"target": target, "base": b, "how": how, "val": tt(val), "valbase": base(val), "tags": self.tags, "pats": self.pats, "loops": self.loops}));
  }
}

impl<'a> Visit<'a> for M {
  fn visit_local(&mut self, l: &'a Local) {
    let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
    if let (Pat::Ident(p), Some(i)) = (p, &l.init) {
      let n = p.ident.to_string();
      self.locals.insert(n.clone(), json!({"init": tt(&i.expr), "mut": p.mutability.is_some(), "loops": self.loops}));
      let b = base(&i.expr);
      if !b.is_empty() && p.mutability.is_none() { self.alias.insert(n, json!(b)); }
    }
    visit::visit_local(self, l)
  }
  fn visit_block(&mut self, b: &'a Block) {
    visit::visit_block(self, b)
  }
  fn visit_expr_if(&mut self, i: &'a ExprIf) {
    let l = lits(&i.cond);
    let n = self.tags.len();
    let np = self.pats.len();
    if let Expr::Let(x) = &*i.cond {
      self.pats.push(tt(&x.pat));
      if let Pat::TupleStruct(t) = &*x.pat { if let Some(Pat::Ident(p)) = t.elems.first() { let b = base(&x.expr); if !b.is_empty() { self.alias.insert(p.ident.to_string(), json!(b)); } } }
    }
    self.visit_expr(&i.cond);
    if l.len() >= 1 { self.tags.push(l.join("|")) }
    self.visit_block(&i.then_branch);
    self.tags.truncate(n);
    self.pats.truncate(np);
    if let Some((_, e)) = &i.else_branch { self.visit_expr(e) }
  }
  fn visit_expr_match(&mut self, m: &'a ExprMatch) {
    self.visit_expr(&m.expr);
    for a in m.arms.iter() {
      let (n, np) = (self.tags.len(), self.pats.len());
      if let Some((_, g)) = &a.guard { let l = lits(g); if !l.is_empty() { self.tags.push(l.join("|")) } }
      self.pats.push(tt(&a.pat));
      if let Pat::TupleStruct(t) = &a.pat { if let Some(Pat::Ident(p)) = t.elems.first() { let b = base(&m.expr); if !b.is_empty() { self.alias.insert(p.ident.to_string(), json!(b)); } } }
      self.visit_expr(&a.body);
      self.tags.truncate(n);
      self.pats.truncate(np);
    }
  }
  fn visit_expr_while(&mut self, w: &'a ExprWhile) {
    let k = inv_k(&w.body);
    if let Some(k) = k {
      let mut mm = Map::new();
      mm.insert("kind".into(), json!("while"));
      mm.insert("cond".into(), json!(tt(&w.cond)));
      mm.insert("parents".into(), json!(self.loops));
      mm.insert("tags".into(), json!(self.tags));
      mm.insert("pats".into(), json!(self.pats));
      if let Some(Stmt::Local(l)) = w.body.stmts.get(1) { mm.insert("pat".into(), json!(tt(&l.pat))); mm.insert("patinit".into(), json!(l.init.as_ref().map(|i| tt(&i.expr)))); }
      self.loopinfo.insert(k, mm);
      self.loops.push(k);
      self.visit_block(&w.body);
      self.loops.pop();
    } else { visit::visit_expr_while(self, w) }
  }
  fn visit_expr_loop(&mut self, w: &'a ExprLoop) {
    if let Some(k) = inv_k(&w.body) {
      let mut mm = Map::new();
      mm.insert("kind".into(), json!("loop"));
      mm.insert("parents".into(), json!(self.loops));
      mm.insert("tags".into(), json!(self.tags));
      mm.insert("pats".into(), json!(self.pats));
      self.loopinfo.insert(k, mm);
      self.loops.push(k);
      self.visit_block(&w.body);
      self.loops.pop();
    }
  }
  fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
    let p = path(&a.left);
    self.ev(p, "assign", &a.right);
    visit::visit_expr_assign(self, a)
  }
  fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
    let n = m.method.to_string();
    if ["push", "vx_push_str", "vx_push_any", "vx_push_char", "insert", "vx_append", "vx_extend", "next", "take", "push_back", "clear", "pop"].contains(&n.as_str()) {
      let p = path(&m.receiver);
      let unit: Expr = parse_quote!(());
      let v = m.args.last().cloned().unwrap_or(unit);
      self.ev(p, &n, &v);
    }
    for x in m.args.iter() { if let Expr::Reference(r) = x { if r.mutability.is_some() { self.ev(path(x), "mutref", x) } } }
    visit::visit_expr_method_call(self, m)
  }
  fn visit_expr_call(&mut self, c: &'a ExprCall) {
    for x in c.args.iter() { if let Expr::Reference(r) = x { if r.mutability.is_some() { self.ev(path(x), "mutref", x) } } }
    visit::visit_expr_call(self, c)
  }
  fn visit_expr_struct(&mut self, s: &'a ExprStruct) {
    let fs: Map<String, Value> = s.fields.iter().map(|f| (tt(&f.member), json!({"text": tt(&f.expr), "base": base(&f.expr)}))).collect();
    self.results.push(json!({"ty": tt(&s.path), "fields": fs, "loops": self.loops}));
    visit::visit_expr_struct(self, s)
  }
}

fn inv_k(b: &Block) -> Option<usize> {
  if let Some(Stmt::Macro(m)) = b.stmts.first() { if m.mac.path.is_ident("vx_inv") { return m.mac.tokens.to_string().parse().ok() } }
  None
}

pub fn analyse(b: &Block, _sig: &Signature, _self_ty: Option<&str>) -> Value {
  let mut m = M::default();
  m.visit_block(b);
  let li: Map<String, Value> = m.loopinfo.into_iter().map(|(k, v)| (k.to_string(), Value::Object(v))).collect();
  json!({"loops": li, "events": m.events, "locals": m.locals, "alias": m.alias, "results": m.results})
}
