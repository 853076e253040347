//! rewriting of one function body into the fragment the verifier accepts
use crate::tt;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar { pub notes: Vec<String>, pub n: usize, pub loops: usize, pub iters: Vec<String>, mut_subst: Vec<(String, Ident)>, sig: Signature }

struct Chain { src: Expr, owned: bool, kind: SrcKind, stages: Vec<(String, ExprClosure)>, term: Option<(String, Vec<Expr>, Option<String>)> }
#[derive(PartialEq, Clone, Copy)]
enum SrcKind { Slice, Range, Chars, Mut }

fn lit_str(e: &Expr) -> bool { matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) }
fn stringish(e: &Expr) -> bool {
  match e {
    Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
    Expr::MethodCall(m) => ["as_str", "to_string", "vx_to_string", "num_str"].contains(&m.method.to_string().as_str()),
    Expr::Field(f) => matches!(&f.member, Member::Named(i) if i == "name"),
    Expr::Reference(r) => stringish(&r.expr),
    Expr::Paren(p) => stringish(&p.expr),
    _ => false,
  }
}
fn is_call(e: &Expr) -> bool { match e { Expr::MethodCall(_) | Expr::Call(_) => true, Expr::Paren(p) => is_call(&p.expr), _ => false } }
fn closure(e: &Expr) -> Option<ExprClosure> { if let Expr::Closure(c) = e { Some(c.clone()) } else { None } }
fn has_flow(e: &Expr) -> bool { let t = tt(e); ["continue", "break", "return", "?"].iter().any(|x| t.contains(x)) }
/// the variable of an in-place update stands for the local copy
struct Subst { id: String, w: Ident }
impl VisitMut for Subst {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::Unary(u) = e { if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) { if p.path.is_ident(&self.id) { let w = &self.w; *e = parse_quote!(#w); return } } }
    if let Expr::Path(p) = e { if p.path.is_ident(&self.id) { let w = &self.w; *e = parse_quote!(#w); return } }
    visit_mut::visit_expr_mut(self, e)
  }
}
fn has_return(e: &Expr) -> bool { let s = tt(e); s.contains("return") || s.contains('?') }

impl Desugar {
  pub fn new(sig: Signature) -> Self { Desugar { notes: vec![], n: 0, loops: 0, iters: vec![], mut_subst: vec![], sig } }
  pub fn run(&mut self, b: &mut Block) {
    self.visit_block_mut(b);
    let s = crate::print::block(b);
    for bad in ["unsafe", "async", "await", "vx_unsupported"] { if s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == bad) { self.notes.push(format!("unsupported:{bad}")) } }
    struct C(bool);
    impl<'a> visit::Visit<'a> for C { fn visit_expr_closure(&mut self, _: &'a ExprClosure) { self.0 = true } }
    let mut c = C(false);
    visit::Visit::visit_block(&mut c, b);
    if c.0 { self.notes.push("unsupported:closure".into()) }
  }
  fn id(&mut self, p: &str) -> Ident { self.n += 1; Ident::new(&format!("__{}{}", p, self.n), proc_macro2::Span::call_site()) }

  /// `let it = SRC.split(c).map(f);` used once later: the adaptors (which are lazy) move to the use
  fn lazy_locals(&mut self, b: &mut Block) {
    let mut i = 0;
    while i < b.stmts.len() {
      let mut found: Option<(Ident, Expr, Expr)> = None;
      if let Stmt::Local(l) = &b.stmts[i] {
        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
          if init.diverge.is_none() {
            if let Some(c) = self.chain(&init.expr, false) {
              if c.term.is_none() && !c.stages.is_empty() && c.kind == SrcKind::Slice {
                // split the method chain at its source
                let mut e: Expr = (*init.expr).clone();
                let id = p.ident.clone();
                fn peel(e: &mut Expr, id: &Ident) -> Option<Expr> {
                  if let Expr::MethodCall(m) = e {
                    if ["map", "filter", "filter_map", "enumerate", "cloned", "copied", "inspect"].contains(&m.method.to_string().as_str()) { return peel(&mut m.receiver, id) }
                    let src = e.clone();
                    *e = parse_quote!(#id);
                    return Some(src);
                  }
                  None
                }
                if let Some(src) = peel(&mut e, &id) { found = Some((id, src, e)) }
              }
            }
          }
        }
      }
      if let Some((id, src, adapted)) = found {
        struct Sub { id: String, by: Expr, n: usize, go: bool }
        impl VisitMut for Sub {
          fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e { if p.path.get_ident().map(|x| x == &self.id).unwrap_or(false) { self.n += 1; if self.go { *e = self.by.clone() } return } }
            visit_mut::visit_expr_mut(self, e)
          }
          fn visit_block_mut(&mut self, b: &mut Block) {
            for s in b.stmts.iter_mut() {
              self.visit_stmt_mut(s);
              if let Stmt::Local(l) = s { if let Pat::Ident(p) = &l.pat { if p.ident == self.id { break } } }
            }
          }
        }
        let mut v = Sub { id: id.to_string(), by: adapted, n: 0, go: false };
        for s in b.stmts[i + 1..].iter_mut() { v.visit_stmt_mut(s) }
        if v.n == 1 {
          v.go = true;
          for s in b.stmts[i + 1..].iter_mut() { v.visit_stmt_mut(s) }
          b.stmts[i] = parse_quote!(let mut #id = #src;);
          self.iters.push(id.to_string());
        }
      }
      i += 1;
    }
  }

  fn is_iter_local(&self, e: &Expr) -> bool { if let Expr::Path(p) = e { p.path.get_ident().map(|i| self.iters.contains(&i.to_string())).unwrap_or(false) } else { false } }

  /// a source of iteration: X.iter(), &X, X.into_iter(), a..b, s.chars(), a local iterator
  fn source(&self, e: &Expr) -> Option<(Expr, bool, SrcKind)> {
    match e {
      Expr::Paren(p) => self.source(&p.expr),
      Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
        "iter" => Some(((*m.receiver).clone(), false, SrcKind::Slice)),
        "iter_mut" => Some(((*m.receiver).clone(), false, SrcKind::Mut)),
        "into_iter" | "drain" => if self.is_iter_local(&m.receiver) { Some(((*m.receiver).clone(), false, SrcKind::Slice)) } else if let Expr::Reference(r) = &*m.receiver { Some(((*r.expr).clone(), false, SrcKind::Slice)) } else { Some(((*m.receiver).clone(), true, SrcKind::Slice)) },
        "by_ref" | "peekable" | "copied_iter" => self.source(&m.receiver),
        "chars" => Some(((*m.receiver).clone(), true, SrcKind::Chars)),
        "lines" => Some((e.clone(), false, SrcKind::Slice)),
        _ => None,
      },
      Expr::MethodCall(m) if m.method == "split" && m.args.len() == 1 => Some((e.clone(), false, SrcKind::Slice)),
      Expr::Reference(r) if r.mutability.is_none() => Some(((*r.expr).clone(), false, SrcKind::Slice)),
      Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Path(_)) => Some(((*r.expr).clone(), false, SrcKind::Mut)),
      Expr::Path(_) if self.is_iter_local(e) => Some((e.clone(), false, SrcKind::Slice)),
      Expr::Range(r) if r.start.is_some() && r.end.is_some() => Some((e.clone(), true, SrcKind::Range)),
      _ => None,
    }
  }

  fn chain(&self, e: &Expr, top: bool) -> Option<Chain> {
    if let Expr::MethodCall(m) = e {
      let n = m.method.to_string();
      if ["iter", "iter_mut", "into_iter", "chars", "by_ref", "peekable", "split", "lines"].contains(&n.as_str()) {
        if top { return None }
        let (src, owned, kind) = self.source(e)?;
        return Some(Chain { src, owned, kind, stages: vec![], term: None });
      }
      if ["map", "filter", "filter_map", "enumerate", "cloned", "copied", "inspect", "flat_map"].contains(&n.as_str()) {
        let mut c = self.chain(&m.receiver, false)?;
        if c.term.is_some() { return None }
        let cl = if let Some(a) = m.args.first() {
          match closure(a) { Some(c) => c, None => { if let Expr::Path(_) = a { parse_quote!(|__x| #a(__x)) } else { return None } } }
        } else { parse_quote!(|__x| __x) };
        c.stages.push((n, cl));
        return Some(c);
      }
      if top && ["collect", "for_each", "any", "all", "fold", "count", "sum"].contains(&n.as_str()) {
        let mut c = self.chain(&m.receiver, false)?;
        if c.term.is_some() { return None }
        c.term = Some((n, m.args.iter().cloned().collect(), m.turbofish.as_ref().map(|t| tt(t))));
        return Some(c);
      }
      return None;
    }
    if top { return None }
    let (src, owned, kind) = self.source(e)?;
    if let Expr::Reference(_) = e { return None }
    Some(Chain { src, owned, kind, stages: vec![], term: None })
  }

  /// builds the while loop for a chain; `body` consumes the final item expression
  fn build(&mut self, c: Chain, pat: Option<Pat>, label: Option<Label>, body: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
    let k = self.loops;
    self.loops += 1;
    let kl = proc_macro2::Literal::usize_unsuffixed(k);
    let it = Ident::new(&format!("__it{}", k), proc_macro2::Span::call_site());
    let mut enumerated = None;
    let kind = c.kind;
    let mut item: Expr;
    let mut pre: Vec<Stmt> = vec![];
    let mut src = c.src;
    if c.kind == SrcKind::Slice && !c.owned && is_call(&src) {
      let t = Ident::new(&format!("__src{}", k), proc_macro2::Span::call_site());
      pre.push(parse_quote!(let #t = #src;));
      src = parse_quote!(#t);
    }
    let (init, cond, first): (Stmt, Expr, Vec<Stmt>);
    let mut post: Vec<Stmt> = vec![];
    match c.kind {
      SrcKind::Mut => {
        let im = Ident::new(&format!("__im{}", k), proc_macro2::Span::call_site());
        let w = Ident::new(&format!("__w{}", k), proc_macro2::Span::call_site());
        if !matches!(&src, Expr::Path(_)) { self.notes.push("unsupported:iter_mut source".into()) }
        init = parse_quote!(let mut #im: usize = 0;);
        cond = parse_quote!(#im < #src.len());
        first = vec![parse_quote!(let mut #w = #src[#im].vx_clone();)];
        item = parse_quote!(#w);
        post = vec![parse_quote!(#src.set(#im, #w);), parse_quote!(#im = #im + 1;)];
      }
      SrcKind::Slice | SrcKind::Chars => {
        init = if c.kind == SrcKind::Chars { parse_quote!(let mut #it = #src.vx_chars();) } else if c.owned { parse_quote!(let mut #it = #src.vx_into();) } else { parse_quote!(let mut #it = #src.vx_iter();) };
        cond = parse_quote!(#it.has_next());
        first = vec![];
        item = parse_quote!(#it.take());
      }
      SrcKind::Range => {
        let r = if let Expr::Range(r) = src { r } else { unreachable!() };
        let (a, b) = (r.start.unwrap(), r.end.unwrap());
        let end = Ident::new(&format!("__end{}", k), proc_macro2::Span::call_site());
        pre.push(parse_quote!(let #end = #b;));
        init = parse_quote!(let mut #it = #a;);
        cond = if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!(#it <= #end) } else { parse_quote!(#it < #end) };
        let cur = self.id("cur");
        first = vec![parse_quote!(let #cur = #it;), parse_quote!(#it = #it + 1;)];
        item = parse_quote!(#cur);
      }
    }
    // stages
    enum W { Let(Pat, Expr), If(Expr), IfLet(Pat, Expr) }
    let mut ws: Vec<W> = vec![];
    let mut stages: std::collections::VecDeque<(String, ExprClosure)> = c.stages.into();
    let mut pat = pat;
    let mut nested: Option<Chain> = None;
    if c.kind == SrcKind::Mut {
      // the element is updated in place: its variable stands for the local copy written back afterwards
      let w = Ident::new(&format!("__w{}", k), proc_macro2::Span::call_site());
      let first_pat = match stages.front() { Some((n, cl)) if n == "map" => cl.inputs.first().cloned(), Some(_) => None, None => pat.clone() };
      match first_pat {
        Some(Pat::Ident(pi)) if pi.subpat.is_none() => {
          let mut s = Subst { id: pi.ident.to_string(), w };
          let mut bad = false;
          if let Some((_, cl)) = stages.front_mut() { s.visit_expr_mut(&mut cl.body); bad |= has_flow(&cl.body); cl.inputs = std::iter::once::<Pat>(parse_quote!(_)).collect(); item = parse_quote!(()); }
          else {
            pat = None;
            let w2 = s.w.clone();
            // for loop: the body is handed over by the callback
            let id = pi.ident.clone();
            self.mut_subst.push((id.to_string(), w2));
          }
          if bad { self.notes.push("unsupported:control flow in iter_mut".into()) }
        }
        _ => self.notes.push("unsupported:iter_mut pattern".into()),
      }
    }
    while let Some((n, cl)) = stages.pop_front() {
      let p = cl.inputs.first().cloned();
      let p = match p { Some(Pat::Type(t)) => Some(*t.pat), x => x };
      if n == "flat_map" {
        let mut b = (*cl.body).clone();
        while let Expr::Block(x) = &b { if let [Stmt::Expr(e, None)] = x.block.stmts.as_slice() { b = e.clone() } else { break } }
        ws.push(W::Let(p.unwrap(), item.clone()));
        let mut ch = match self.chain(&b, false) { Some(c) if c.term.is_none() => c, _ => Chain { src: b.clone(), owned: true, kind: SrcKind::Slice, stages: vec![], term: None } };
        ch.stages.extend(stages.drain(..));
        nested = Some(ch);
        break;
      }
      match n.as_str() {
        "map" => {
          if has_return(&cl.body) { self.notes.push("unsupported:return-in-closure".into()) }
          ws.push(W::Let(p.unwrap(), item.clone()));
          item = (*cl.body).clone();
        }
        "filter" | "inspect" => {
          let x = self.id("x");
          ws.push(W::Let(parse_quote!(#x), item.clone()));
          let (p, b) = (p.unwrap(), &cl.body);
          if n == "filter" { ws.push(W::If(parse_quote!({ let #p = &#x; #b }))) }
          item = parse_quote!(#x);
        }
        "filter_map" => {
          if has_return(&cl.body) { self.notes.push("unsupported:return-in-closure".into()) }
          let x = self.id("x");
          ws.push(W::Let(p.unwrap(), item.clone()));
          ws.push(W::IfLet(parse_quote!(Some(#x)), (*cl.body).clone()));
          item = parse_quote!(#x);
        }
        "enumerate" => {
          let i = Ident::new(&format!("__ix{}", k), proc_macro2::Span::call_site());
          enumerated = Some(i.clone());
          let j = self.id("j");
          let x = self.id("x");
          ws.push(W::Let(parse_quote!(#x), item.clone()));
          ws.push(W::Let(parse_quote!(#j), parse_quote!(#i)));
          ws.push(W::Let(parse_quote!(_), parse_quote!({ #i = #i + 1; })));
          item = parse_quote!((#j, #x));
        }
        "cloned" | "copied" => item = parse_quote!((#item).vx_clone()),
        _ => { self.notes.push(format!("unsupported:iterator {n}")); }
      }
    }
    let mut stmts = if let Some(ch) = nested { self.build(ch, pat, None, body) } else {
      if let Some(p) = pat { ws.push(W::Let(p.clone(), item.clone())); item = parse_quote!(()); }
      body(self, item)
    };
    if kind == SrcKind::Mut {
      if let Some((id, w)) = self.mut_subst.pop() {
        let mut s = Subst { id, w };
        for st in stmts.iter_mut() { s.visit_stmt_mut(st); let t = tt(st); if ["continue", "break", "return", "?"].iter().any(|x| t.contains(x)) { self.notes.push("unsupported:control flow in iter_mut".into()) } }
      }
    }
    for w in ws.into_iter().rev() {
      match w {
        W::Let(p, e) => stmts.insert(0, parse_quote!(let #p = #e;)),
        W::If(c) => stmts = vec![parse_quote!(if #c { #(#stmts)* })],
        W::IfLet(p, e) => stmts = vec![parse_quote!(if let #p = #e { #(#stmts)* })],
      }
    }
    let mut out = pre;
    out.push(init);
    if let Some(i) = enumerated { out.push(parse_quote!(let mut #i: usize = 0;)) }
    out.push(parse_quote!(vx_pre!(#kl);));
    let l = label.map(|l| l.name);
    let w: Expr = match l {
      Some(l) => parse_quote!(#l: while #cond { vx_inv!(#kl); #(#first)* #(#stmts)* #(#post)* }),
      None => parse_quote!(while #cond { vx_inv!(#kl); #(#first)* #(#stmts)* #(#post)* }),
    };
    out.push(Stmt::Expr(w, None));
    out
  }

  fn terminal(&mut self, mut c: Chain, tried: bool) -> Expr {
    let (t, args, turbo) = c.term.take().unwrap();
    let k = self.loops;
    let acc = Ident::new(&format!("__acc{}", k), proc_macro2::Span::call_site());
    match t.as_str() {
      "collect" => {
        let ts = turbo.unwrap_or_default();
        let out_ty = ts.clone();
        if ts.contains("String") && !ts.contains("Vec") {
          let st = self.build(c, None, None, &mut |_s, x| vec![parse_quote!(#acc.vx_push_any(#x);)]);
          return parse_quote!({ let mut #acc = vx_string_new(); #(#st)* #acc });
        }
        if out_ty.contains("Result") && !tried { self.notes.push("unsupported:collect Result".into()); }
        let res = tried;
        let st = self.build(c, None, None, &mut |_s, x| if res { vec![parse_quote!(let __pv = #x?;), parse_quote!(#acc.push(__pv);)] } else { vec![parse_quote!(let __pv = #x;), parse_quote!(#acc.push(__pv);)] });
        parse_quote!({ let mut #acc = Vec::new(); #(#st)* #acc })
      }
      "for_each" => {
        let cl = match args.first().and_then(closure) { Some(c) => c, None => { self.notes.push("unsupported:for_each".into()); return parse_quote!(vx_unsupported()) } };
        if tt(&cl.body).contains("return") { self.notes.push("unsupported:return-in-closure".into()) }
        let p = cl.inputs.first().cloned().unwrap();
        let b = cl.body;
        let st = self.build(c, Some(p), None, &mut |_s, _x| vec![Stmt::Expr((*b).clone(), Some(Default::default()))]);
        parse_quote!({ #(#st)* })
      }
      "fold" => {
        let (init, cl) = match (args.first(), args.get(1).and_then(closure)) { (Some(a), Some(c)) => (a.clone(), c), _ => { self.notes.push("unsupported:fold".into()); return parse_quote!(vx_unsupported()) } };
        let mut ins = cl.inputs.iter().cloned();
        let (pa, px) = (ins.next().unwrap(), ins.next().unwrap());
        let pa_id: Ident = match &pa { Pat::Ident(p) => p.ident.clone(), _ => { self.notes.push("unsupported:fold".into()); return parse_quote!(vx_unsupported()) } };
        let b = cl.body;
        let st = self.build(c, Some(px), None, &mut |_s, _x| vec![parse_quote!(#pa_id = #b;)]);
        parse_quote!({ let mut #pa_id = #init; #(#st)* #pa_id })
      }
      "any" | "all" => {
        let cl = match args.first().and_then(closure) { Some(c) => c, None => { self.notes.push("unsupported:any".into()); return parse_quote!(vx_unsupported()) } };
        let p = cl.inputs.first().cloned().unwrap();
        let b = cl.body;
        let any = t == "any";
        let st = self.build(c, Some(p), None, &mut |_s, _x| if any { vec![parse_quote!(if #b { #acc = true; break; })] } else { vec![parse_quote!(if !(#b) { #acc = false; break; })] });
        if any { parse_quote!({ let mut #acc = false; #(#st)* #acc }) } else { parse_quote!({ let mut #acc = true; #(#st)* #acc }) }
      }
      _ => { self.notes.push(format!("unsupported:iterator {t}")); parse_quote!(vx_unsupported()) }
    }
  }

  fn lits(&mut self, p: &mut Pat, g: &mut Vec<Expr>) {
    match p {
      Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) => {
        let s = self.id("s");
        let l = tt(p);
        let l: Expr = parse_str(&l).unwrap();
        g.push(parse_quote!(vx_eq(&#s, #l)));
        *p = parse_quote!(#s);
      }
      Pat::Or(o) if o.cases.iter().all(|c| matches!(c, Pat::Lit(ExprLit { lit: Lit::Str(_), .. }))) => {
        let s = self.id("s");
        let mut e: Option<Expr> = None;
        for c in o.cases.iter() {
          let l: Expr = parse_str(&tt(c)).unwrap();
          let x: Expr = parse_quote!(vx_eq(&#s, #l));
          e = Some(match e { None => x, Some(y) => parse_quote!(#y || #x) });
        }
        let e = e.unwrap();
        g.push(parse_quote!((#e)));
        *p = parse_quote!(#s);
      }
      Pat::TupleStruct(t) => for x in t.elems.iter_mut() { self.lits(x, g) },
      Pat::Tuple(t) => for x in t.elems.iter_mut() { self.lits(x, g) },
      Pat::Paren(t) => self.lits(&mut t.pat, g),
      Pat::Reference(t) => self.lits(&mut t.pat, g),
      Pat::Ident(i) => if let Some((_, s)) = &mut i.subpat { let mut q = (**s).clone(); let b = tt(&q); self.lits(&mut q, g); if tt(&q) != b { self.notes.push("unsupported:@ literal".into()) } },
      _ => {}
    }
  }

  fn match_lits(&mut self, m: &mut ExprMatch) {
    let mut arms: Vec<Arm> = vec![];
    for a in m.arms.drain(..) {
      let alts: Vec<Pat> = match &a.pat {
        Pat::Or(o) if tt(&a.pat).contains('"') && !o.cases.iter().all(|c| matches!(c, Pat::Lit(_))) => o.cases.iter().cloned().collect(),
        p => vec![p.clone()],
      };
      for p in alts {
        let mut a2 = a.clone();
        a2.pat = p;
        let mut g = vec![];
        self.lits(&mut a2.pat, &mut g);
        if !g.is_empty() {
          let mut e: Expr = g.remove(0);
          for x in g { e = parse_quote!(#e && #x) }
          if let Some((_, old)) = &a2.guard { e = parse_quote!(#e && (#old)) }
          a2.guard = Some((Default::default(), Box::new(e)));
        }
        arms.push(a2);
      }
    }
    m.arms = arms;
  }

  fn option_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
    let n = m.method.to_string();
    let r = &m.receiver;
    let arg = m.args.first();
    let is_res = {
      let mut x: &Expr = r;
      while let Expr::Paren(p) = x { x = &p.expr }
      match x {
        Expr::Call(c) => { let f = tt(&c.func); f.ends_with("parser") || f.ends_with("from_element") || f.ends_with("from_num_str") || f.ends_with("parse_article_number") || f.contains("get_attribute") || f.ends_with("Ok") || f.ends_with("Err") }
        Expr::MethodCall(c) => ["vx_parse", "ok_or", "map_err"].contains(&c.method.to_string().as_str()),
        Expr::Match(mm) => tt(&mm.arms[0].body).starts_with("Ok") || tt(&mm.arms[0].body).starts_with("Err"),
        _ => false,
      }
    };
    let apply = |s: &mut Self, a: &Expr, v: Expr| -> Expr {
      match a {
        Expr::Closure(c) => {
          let t = tt(&c.body);
          if t.contains("return") || t.contains('?') { s.notes.push("unsupported:return-in-closure".into()) }
          match c.inputs.first() {
            None => (*c.body).clone(),
            Some(p) => { let p = if let Pat::Type(t) = p { &*t.pat } else { p }; let b = &c.body; parse_quote!({ let #p = #v; #b }) }
          }
        }
        f => parse_quote!(#f(#v)),
      }
    };
    let some = |s: &Self| -> Ident { let _ = s; Ident::new("__v", proc_macro2::Span::call_site()) };
    let v = some(self);
    Some(match (n.as_str(), arg) {
      ("map", Some(a)) => { let b = apply(self, a, parse_quote!(#v)); if is_res { parse_quote!((match #r { Ok(#v) => Ok(#b), Err(__e) => Err(__e) })) } else { parse_quote!((match #r { Some(#v) => Some(#b), None => None })) } }
      ("map_err", Some(a)) => { let b = apply(self, a, parse_quote!(#v)); parse_quote!((match #r { Ok(__o) => Ok(__o), Err(#v) => Err(#b) })) }
      ("and_then", Some(a)) => { let b = apply(self, a, parse_quote!(#v)); if is_res { parse_quote!((match #r { Ok(#v) => #b, Err(__e) => Err(__e) })) } else { parse_quote!((match #r { Some(#v) => #b, None => None })) } }
      ("filter", Some(a)) => { let b = apply(self, a, parse_quote!(&#v)); parse_quote!((match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None })) }
      ("ok_or", Some(a)) => parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#a) })),
      ("ok_or_else", Some(a)) => { let b = apply(self, a, parse_quote!(())); parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#b) })) }
      ("unwrap_or_else", Some(a)) => { let b = apply(self, a, parse_quote!(__e)); if is_res { parse_quote!((match #r { Ok(#v) => #v, Err(__e) => #b })) } else { parse_quote!((match #r { Some(#v) => #v, None => #b })) } }
      ("unwrap_or", Some(a)) if is_res => parse_quote!((match #r { Ok(#v) => #v, Err(_) => #a })),
      ("unwrap_or", Some(a)) => parse_quote!((match #r { Some(#v) => #v, None => #a })),
      ("map_or", Some(a)) => { let f = m.args.iter().nth(1)?.clone(); let b = apply(self, &f, parse_quote!(#v)); parse_quote!((match #r { Some(#v) => #b, None => #a })) }
      ("is_some_and", Some(a)) => { let b = apply(self, a, parse_quote!(#v)); parse_quote!((match #r { Some(#v) => #b, None => false })) }
      ("then", Some(a)) => { let b = apply(self, a, parse_quote!(())); parse_quote!((if #r { Some(#b) } else { None })) }
      ("then_some", Some(a)) => parse_quote!((if #r { Some(#a) } else { None })),
      ("ok", None) => parse_quote!((match #r { Ok(#v) => Some(#v), Err(_) => None })),
      ("cloned", None) | ("copied", None) => parse_quote!((match #r { Some(#v) => Some(#v.vx_clone()), None => None })),
      ("as_deref", None) => parse_quote!((match &#r { Some(#v) => Some(#v.as_str()), None => None })),
      ("or_else", Some(a)) => { let b = apply(self, a, parse_quote!(())); parse_quote!((match #r { Some(#v) => Some(#v), None => #b })) }
      ("or", Some(a)) => parse_quote!((match #r { Some(#v) => Some(#v), None => #a })),
      _ => return None,
    })
  }

  /// the pieces of a format!: (expression, is a literal)
  fn format_parts(&mut self, m: &Macro) -> Option<Vec<(Expr, bool)>> {
    let a = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let f = if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = a.first() { s.value() } else { return None };
    let mut rest = a.iter().skip(1);
    let mut out: Vec<(Expr, bool)> = vec![];
    let mut cur = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
      if c == '{' && it.peek() == Some(&'{') { it.next(); cur.push('{'); continue }
      if c == '}' { if it.peek() == Some(&'}') { it.next(); } cur.push('}'); continue }
      if c == '{' {
        let mut name = String::new();
        for d in it.by_ref() { if d == '}' { break } name.push(d) }
        if name.contains(':') { self.notes.push("unsupported:format spec".into()) }
        if !cur.is_empty() { let l = cur.clone(); out.push((parse_quote!(#l), true)); cur.clear() }
        out.push((if name.is_empty() { rest.next()?.clone() } else { parse_str(&name).ok()? }, false));
        continue;
      }
      cur.push(c);
    }
    if !cur.is_empty() { out.push((parse_quote!(#cur), true)) }
    Some(out)
  }
  /// `x.push_str(&format!(..))` appends the pieces one by one, where they do not speak of x
  fn pushed_format(&mut self, e: &Expr) -> Option<Expr> {
    let m = if let Expr::MethodCall(m) = e { m } else { return None };
    if m.method != "push_str" || m.args.len() != 1 { return None }
    let x = if let Expr::Path(p) = &*m.receiver { p.path.get_ident()?.to_string() } else { return None };
    let r = if let Expr::Reference(r) = &m.args[0] { &*r.expr } else { return None };
    let mc = if let Expr::Macro(mc) = r { if mc.mac.path.is_ident("format") { mc.mac.clone() } else { return None } } else { return None };
    let parts = self.format_parts(&mc)?;
    if parts.iter().any(|(p, _)| { let t = tt(p); has_return(p) || t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == x) }) { return None }
    let l = &m.receiver;
    let st: Vec<Stmt> = parts.into_iter().map(|(p, lit)| if lit { parse_quote!(#l.push_str(#p);) } else { parse_quote!(#l.push_str(&(#p).to_string());) }).collect();
    Some(parse_quote!({ #(#st)* }))
  }

  fn mac(&mut self, m: &Macro) -> Option<Expr> {
    let n = m.path.segments.last()?.ident.to_string();
    let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
    match n.as_str() {
      "println" | "print" | "eprintln" | "dbg" | "debug_assert" | "debug_assert_eq" => Some(parse_quote!(())),
      "format" => {
        let parts = self.format_parts(m)?;
        let mut e: Expr = parse_quote!(vx_string_new());
        for (p, lit) in parts { e = if lit { parse_quote!(vx_cat(#e, #p)) } else { parse_quote!(vx_cat(#e, &(#p).vx_to_string())) } }
        Some(e)
      }
      "vec" => {
        let a = args()?;
        if a.is_empty() { return Some(parse_quote!(Vec::new())) }
        let v = self.id("vec");
        let ps: Vec<Stmt> = a.iter().map(|x| parse_quote!(#v.push(#x);)).collect();
        Some(parse_quote!({ let mut #v = Vec::new(); #(#ps)* #v }))
      }
      "unreachable" | "panic" | "unimplemented" | "todo" => Some(parse_quote!(vx_panic())),
      "matches" => {
        let s = m.tokens.clone();
        let (e, p, g) = (|i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
          let e: Expr = i.parse()?;
          i.parse::<Token![,]>()?;
          let p = Pat::parse_multi_with_leading_vert(i)?;
          let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
          let _ = i.parse::<Option<Token![,]>>();
          Ok((e, p, g))
        }).parse2_(s)?;
        Some(match g { Some(g) => parse_quote!((match #e { #p if #g => true, _ => false })), None => parse_quote!((match #e { #p => true, _ => false })) })
      }
      "vx_inv" | "vx_pre" => None,
      _ => { self.notes.push(format!("unsupported:macro {n}")); None }
    }
  }
}

trait Parse2 { type O; fn parse2_(self, t: proc_macro2::TokenStream) -> Option<Self::O>; }
impl<F: FnOnce(parse::ParseStream) -> Result<T>, T> Parse2 for F {
  type O = T;
  fn parse2_(self, t: proc_macro2::TokenStream) -> Option<T> { parse::Parser::parse2(self, t).ok() }
}

impl VisitMut for Desugar {
  fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }
  fn visit_block_mut(&mut self, b: &mut Block) {
    b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
    self.lazy_locals(b);
    visit_mut::visit_block_mut(self, b);
    // flatten: a loop block used as a statement keeps its own scope
  }
  fn visit_stmt_mut(&mut self, s: &mut Stmt) {
    if let Stmt::Macro(m) = s {
      if let Some(e) = self.mac(&m.mac) {
        let semi = m.semi_token;
        let is_unit = tt(&e) == "()";
        *s = if is_unit { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, semi) };
      }
    }
    // `let mut it = X.iter();` declares a local iterator
    if let Stmt::Local(l) = s {
      if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
        if let Expr::MethodCall(_) = &*init.expr {
          if let Some((src, false, SrcKind::Slice)) = self.source(&init.expr) {
            let id = p.ident.clone();
            self.iters.push(id.to_string());
            *s = parse_quote!(let mut #id = #src.vx_iter(););
          }
        }
      }
    }
    // let-else
    if let Stmt::Local(l) = s {
      if let Some(init) = &l.init { if let Some((_, els)) = &init.diverge {
        let mut names: Vec<Ident> = vec![];
        struct B<'a>(&'a mut Vec<Ident>);
        impl<'a, 'b> visit::Visit<'b> for B<'a> { fn visit_pat_ident(&mut self, p: &'b PatIdent) { self.0.push(p.ident.clone()) } }
        visit::Visit::visit_pat(&mut B(&mut names), &l.pat);
        let (p, e) = (&l.pat, &init.expr);
        let names = names.iter().filter(|n| n.to_string() != "None").collect::<Vec<_>>();
        if names.len() == 1 { let n = names[0]; *s = parse_quote!(let #n = match #e { #p => #n, _ => #els };) }
        else { *s = parse_quote!(let (#(#names),*) = match #e { #p => (#(#names),*), _ => #els };) }
      } }
    }
    visit_mut::visit_stmt_mut(self, s)
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    // ---- before the children
    match e {
      Expr::Macro(m) => { if let Some(x) = self.mac(&m.mac) { *e = x; self.visit_expr_mut(e) } return }
      Expr::Try(t) => {
        if let Some(c) = self.chain(&t.expr, true) { if matches!(&c.term, Some((n, _, _)) if n == "collect") { let mut x = self.terminal(c, true); self.visit_expr_mut(&mut x); *e = x; return } }
      }
      Expr::MethodCall(m) if m.method == "extend" && m.args.len() == 1 && matches!(&*m.receiver, Expr::Path(_)) && self.chain(&m.args[0], false).map(|c| c.term.is_none() && !c.stages.is_empty()).unwrap_or(false) => {
        let (r, c) = (m.receiver.clone(), self.chain(&m.args[0], false).unwrap());
        let st = self.build(c, None, None, &mut |_s, x| vec![parse_quote!(let __pv = #x;), parse_quote!(#r.push(__pv);)]);
        let mut x: Expr = parse_quote!({ #(#st)* });
        self.visit_expr_mut(&mut x);
        *e = x;
        return;
      }
      Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && (matches!(&*b.right, Expr::Reference(_)) || lit_str(&b.right) || matches!(&*b.right, Expr::MethodCall(m) if m.method == "as_str")) => {
        let (l, r) = (&b.left, &b.right);
        *e = parse_quote!(#l.push_str(#r));
        if let Some(x) = self.pushed_format(e) { *e = x }
      }
      Expr::MethodCall(m) if m.method == "push_str" && self.pushed_format(&Expr::MethodCall(m.clone())).is_some() => { *e = self.pushed_format(e).unwrap(); }
      Expr::MethodCall(_) => {
        if let Some(c) = self.chain(e, true) { if c.term.is_some() { let mut x = self.terminal(c, false); self.visit_expr_mut(&mut x); *e = x; return } }
      }
      Expr::ForLoop(f) => {
        let mut c = match self.chain(&f.expr, false) { Some(c) => c, None => match self.source(&f.expr) {
          Some((src, owned, kind)) => Chain { src, owned, kind, stages: vec![], term: None },
          None => Chain { src: (*f.expr).clone(), owned: true, kind: SrcKind::Slice, stages: vec![], term: None },
        } };
        c.term = None;
        let body = f.body.clone();
        let st = self.build(c, Some((*f.pat).clone()), f.label.clone(), &mut |_s, _x| body.stmts.clone());
        let mut x: Expr = parse_quote!({ #(#st)* });
        // the last statement of the body must be a statement
        self.visit_expr_mut(&mut x);
        *e = x;
        return;
      }
      Expr::While(w) if !tt(&w.body).starts_with("{\n vx_inv") && !tt(&w.body).contains("vx_inv ! (") => {
        let k = proc_macro2::Literal::usize_unsuffixed(self.loops);
        self.loops += 1;
        let b = w.body.stmts.clone();
        let lab = w.label.clone().map(|l| l.name);
        let mut x: Option<Expr> = None;
        if let Expr::Let(l) = &*w.cond {
          if let Expr::MethodCall(m) = &*l.expr { if m.method == "next" && m.args.is_empty() {
            if let Pat::TupleStruct(t) = &*l.pat { if tt(&t.path) == "Some" {
              let (p, r) = (&t.elems[0], &m.receiver);
              if let Pat::Ident(_) = p { x = Some(parse_quote!(while #r.has_next() { vx_inv!(#k); let #p = #r.take(); #(#b)* })) }
            } }
          } }
          if x.is_none() { let (p, ex) = (&l.pat, &l.expr); x = Some(parse_quote!(loop { vx_inv!(#k); match #ex { #p => { #(#b)* } _ => break } })) }
        } else {
          let c = &w.cond;
          x = Some(parse_quote!(while #c { vx_inv!(#k); #(#b)* }));
        }
        let mut x = x.unwrap();
        if let Some(l) = lab { if let Expr::While(w) = &mut x { w.label = Some(Label { name: l, colon_token: Default::default() }) } else if let Expr::Loop(w) = &mut x { w.label = Some(Label { name: l, colon_token: Default::default() }) } }
        let mut x2: Expr = parse_quote!({ vx_pre!(#k); #x });
        visit_mut::visit_expr_mut(self, &mut x2);
        *e = x2;
        return;
      }
      Expr::Loop(w) if !tt(&w.body).contains("vx_inv ! (") => {
        let k = proc_macro2::Literal::usize_unsuffixed(self.loops);
        self.loops += 1;
        w.body.stmts.insert(0, parse_quote!(vx_inv!(#k);));
        let x = e.clone();
        let mut x2: Expr = parse_quote!({ vx_pre!(#k); #x });
        visit_mut::visit_expr_mut(self, &mut x2);
        *e = x2;
        return;
      }
      Expr::Match(m) => self.match_lits(m),
      Expr::If(i) => {
        if let Expr::Let(l) = &*i.cond {
          if tt(&l.pat).contains('"') {
            let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
            let el: Expr = match &i.else_branch { Some((_, b)) => (**b).clone(), None => parse_quote!({}) };
            let mut m: ExprMatch = parse_quote!(match #x { #p => #t, _ => #el });
            self.match_lits(&mut m);
            *e = Expr::Match(m);
          }
        }
      }
      _ => {}
    }
    visit_mut::visit_expr_mut(self, e);
    // ---- after the children
    match e {
      Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (stringish(&b.left) || stringish(&b.right)) => {
        let (l, r) = (&b.left, &b.right);
        let l2: Expr = if lit_str(l) { parse_quote!(#l) } else { parse_quote!(&#l) };
        let r2: Expr = if lit_str(r) { parse_quote!(#r) } else { parse_quote!(&#r) };
        *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vx_eq(#l2, #r2)) } else { parse_quote!((!vx_eq(#l2, #r2))) };
      }
      Expr::MethodCall(m) => {
        let n = m.method.to_string();
        let new = match n.as_str() {
          "push" if matches!(m.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))) => Some("vx_push_char"),
          "to_string" | "to_owned" | "into_string" if m.args.is_empty() => Some("vx_to_string"),
          "clone" => Some("vx_clone"),
          "parse" => Some("vx_parse"),
          "unwrap_or_default" => Some("vx_unwrap_or_default"),
          "first" => Some("vx_first"),
          "last" => Some("vx_last"),
          "push_str" => Some("vx_push_str"),
          "is_empty" => Some("vx_is_empty"),
          "split" => Some("vx_split"),
          "lines" if m.args.is_empty() => Some("vx_lines"),
          "starts_with" => Some("vx_starts_with"),
          "ends_with" => Some("vx_ends_with"),
          "contains" => Some("vx_contains"),
          "append" => Some("vx_append"),
          "join" if m.args.len() == 1 => Some("vx_join"),
          "concat" if m.args.is_empty() => Some("vx_concat"),
          "extend" => Some("vx_extend"),
          _ => None,
        };
        if let Some(x) = new { m.method = Ident::new(x, m.method.span()); return }
        if n == "iter" && m.args.is_empty() { m.method = Ident::new("vx_iter", m.method.span()); return }
        if (n == "peekable" || n == "by_ref") && m.args.is_empty() { *e = (*m.receiver).clone(); return }
        if let Some(x) = self.option_method(&m.clone()) { *e = x }
      }
      Expr::Call(c) => {
        let f = tt(&c.func);
        if f == "String::new" || f == "String::default" { c.func = parse_quote!(vx_string_new) }
        if f.replace(' ', "").ends_with("mem::take") && c.args.len() == 1 { c.func = parse_quote!(vx_mem_take) }
        if f == "String::from" { let a = &c.args[0]; *e = parse_quote!((#a).vx_to_string()) }
      }
      _ => {}
    }
    let _ = &self.sig;
  }
}
