"""Generates the Verus crate: ghost mirrors, specifications (dec_X: what reading
must yield, enc_X: what writing must emit), contracts and loop invariants on the
functions extracted from /repo by vx, and the round-trip lemmas."""
import re, json, sys, os
sys.path.insert(0, os.path.dirname(__file__))
from schema import TYPES, UNIONS, ENUMS, A, C

HERE = os.path.dirname(os.path.abspath(__file__))

def th(t):
  h = 1
  for c in t: h = h * 131 + ord(c)
  return h

LITS = {}
def lit(s):
  LITS.setdefault(s, "lit_%d" % len(LITS))
  return '"%s"@' % s

# ------------------------------------------------------------------ types
TEXTUNION = [("Ruby", "Ruby", "Ruby"), ("Line", "Line", "Line"), ("Sup", "Sup", "Sup"), ("Sub", "Sub", "Sub"), ("Text", "#text", None)]
HAND = ["Text", "TextElement", "Ruby", "Sup", "Sub", "SentenceOrColumnOrTable", "ArticleNumber"]
NAMED = {"Text", "Caption", "TextWithWritingMode", "Contents"}   # written with an explicit tag name
PSEUDO = {}   # wrapper elements: name -> (acc elem type, union?)

def G(ty):
  if ty == "String": return "Seq<char>"
  if ty.startswith("Box<"): return "G" + ty[4:-1]
  return "G" + ty
def V(ty, e):
  if ty == "String": return "%s@" % e
  if ty.startswith("Box<"): return "v_%s(*%s)" % (ty[4:-1], e)
  return "v_%s(%s)" % (ty, e)
def base(ty): return ty[4:-1] if ty.startswith("Box<") else ty

def variants(u):
  if u == "TextElement": return TEXTUNION
  return UNIONS[u]["variants"]

def is_union(t): return t in UNIONS or t == "TextElement"

# ---- attribute kinds
def enum_parts(kind):
  _, e, how = kind.split(":")
  return e, how
def attr_gty(a):
  k = a.kind
  if k == "str": return "Seq<char>"
  if k == "ostr": return "Option<Seq<char>>"
  if k == "usize": return "usize"
  if k in ("usize?", "usize?empty"): return "Option<usize>"
  if k == "bool?": return "Option<bool>"
  if k in ("bool=false", "bool!"): return "bool"
  if k == "num": return "GArticleNumber"
  if k in ("num?", "num?empty", "numlenient"): return "Option<GArticleNumber>"
  if k.startswith("enum"):
    e, how = enum_parts(k)
    return e if how == "req" or how.startswith("def") else "Option<%s>" % e
  raise Exception(k)
def attr_view(a, x):
  k = a.kind
  if k == "str": return x + "@"
  if k == "ostr": return "vo_String(%s)" % x
  if k == "num": return "v_ArticleNumber(%s)" % x
  if k in ("num?", "num?empty", "numlenient"): return "vo_ArticleNumber(%s)" % x
  return x
def enum_chain(e, s, somef, other):
  r = ""
  for v, t in ENUMS[e][1]:
    r += "if %s == %s { %s } else " % (s, lit(t), somef("%s::%s" % (e, v)))
  return r + "{ %s }" % other
def attr_ok(a):
  k, n = a.kind, lit(a.xml)
  if k == "str": return "m.contains_key(%s)" % n
  if k in ("ostr",): return "true"
  if k == "usize": return "m.contains_key(%s) && parse_usize(m[%s]) is Some" % (n, n)
  if k == "usize?": return "(m.contains_key(%s) ==> parse_usize(m[%s]) is Some)" % (n, n)
  if k == "usize?empty": return "(m.contains_key(%s) && m[%s].len() > 0 ==> parse_usize(m[%s]) is Some)" % (n, n, n)
  if k in ("bool?", "bool=false", "bool!"): return "(m.contains_key(%s) ==> parse_bool(m[%s]) is Some)" % (n, n)
  if k == "num": return "m.contains_key(%s) && parse_num(m[%s]) is Some" % (n, n)
  if k == "num?": return "(m.contains_key(%s) ==> parse_num(m[%s]) is Some)" % (n, n)
  if k == "num?empty": return "(m.contains_key(%s) && m[%s].len() > 0 ==> parse_num(m[%s]) is Some)" % (n, n, n)
  if k == "numlenient": return "m.contains_key(%s)" % n
  e, how = enum_parts(k)
  if how == "req": return "m.contains_key(%s) && ep_%s(m[%s]) is Some" % (n, e, n)
  if how == "opt": return "(m.contains_key(%s) ==> ep_%s(m[%s]) is Some)" % (n, e, n)
  return "true"
def attr_val(a):
  k, n = a.kind, lit(a.xml)
  opt = lambda x: "if m.contains_key(%s) { %s } else { None }" % (n, x)
  if k == "str": return "m[%s]" % n
  if k == "ostr": return opt("Some(m[%s])" % n)
  if k == "usize": return "parse_usize(m[%s]).unwrap()" % n
  if k == "usize?": return opt("parse_usize(m[%s])" % n)
  if k == "usize?empty": return "if m.contains_key(%s) && m[%s].len() > 0 { parse_usize(m[%s]) } else { None }" % (n, n, n)
  if k == "bool?": return opt("parse_bool(m[%s])" % n)
  if k in ("bool=false", "bool!"): return "if m.contains_key(%s) { parse_bool(m[%s]).unwrap() } else { false }" % (n, n)
  if k == "num": return "parse_num(m[%s]).unwrap()" % n
  if k == "num?": return opt("parse_num(m[%s])" % n)
  if k == "num?empty": return "if m.contains_key(%s) && m[%s].len() > 0 { parse_num(m[%s]) } else { None }" % (n, n, n)
  if k == "numlenient": return "parse_num(m[%s])" % n
  e, how = enum_parts(k)
  if how == "req": return "ep_%s(m[%s]).unwrap()" % (e, n)
  if how in ("opt", "lenient"): return opt("ep_%s(m[%s])" % (e, n))
  d = how.split("=")[1]
  return "if m.contains_key(%s) && ep_%s(m[%s]) is Some { ep_%s(m[%s]).unwrap() } else { %s::%s }" % (n, e, n, e, n, e, d)
def attr_enc(a, m, x):
  k, n = a.kind, lit(a.xml)
  ins = lambda v: "%s.insert(%s, %s)" % (m, n, v)
  opt = lambda v: "match %s { Some(v) => %s, None => %s }" % (x, ins(v), m)
  if k == "str": return ins(x)
  if k == "ostr": return opt("v")
  if k == "usize": return ins("show_usize(%s)" % x)
  if k in ("usize?", "usize?empty"): return opt("show_usize(v)")
  if k == "bool?": return opt("show_bool(v)")
  if k == "bool=false": return "if %s { %s } else { %s }" % (x, ins(lit("true")), m)
  if k == "bool!": return ins("show_bool(%s)" % x)
  if k == "num": return ins("show_num(%s)" % x)
  if k in ("num?", "num?empty"): return opt("show_num(v)")
  if k == "numlenient": return "match %s { Some(v) => %s, None => %s }" % (x, ins("show_num(v)"), ins("Seq::<char>::empty()"))
  e, how = enum_parts(k)
  if how == "req" or how.startswith("deff"): return ins("es_%s(%s)" % (e, x))
  if how in ("opt", "lenient"): return opt("es_%s(v)" % e)
  d = how.split("=")[1]
  return "if %s != %s::%s { %s } else { %s }" % (x, e, d, ins("es_%s(%s)" % (e, x)), m)
def attr_lits(a):
  r = [a.xml]
  if a.kind.startswith("enum"): r += [t for _, t in ENUMS[enum_parts(a.kind)[0]][1]]
  if "bool" in a.kind: r += ["true", "false"]
  return r

# ---- children groups
SEQ = ("vec", "uni", "wrapvec", "unieach", "pre", "post", "firstwrap")
def wrapname(X, g): return "W" + X + "_" + g.field
def acc_ty(X, g):
  if g.card in ("one", "opt", "optwrap1"): return "Option<%s>" % G(g.ty)
  if g.card in SEQ: return "Seq<%s>" % G(g.ty)
  if g.card in ("dflt", "dfltomit"): return "GText"
  return None
def field_gty(g):
  if g.card in ("one", "first", "whole", "second"): return G(g.ty)
  if g.card in ("opt", "optwrap1"): return "Option<%s>" % G(g.ty)
  if g.card in SEQ: return "Seq<%s>" % G(g.ty)
  if g.card in ("dflt", "dfltomit", "text"): return "GText"
  if g.card == "textc": return "Seq<GTextElement>"
  if g.card == "firsttext": return "Seq<char>"
  raise Exception(g.card)
def field_view(g, x):
  if g.card in ("one", "first", "whole", "second"): return V(g.ty, x)
  if g.card in ("opt", "optwrap1"): return "vo_%s(%s)" % (g.ty, x)
  if g.card in SEQ: return "vs_%s(%s@)" % (g.ty, x)
  if g.card in ("dflt", "dfltomit", "text"): return "v_Text(%s)" % x
  if g.card == "textc": return "vs_TextElement(%s@)" % x
  if g.card == "firsttext": return x + "@"
def acc_init(g):
  if g.card in ("one", "opt", "optwrap1"): return "None"
  if g.card in SEQ: return "Seq::empty()"
  if g.card in ("dflt", "dfltomit"): return "GText { contents: Seq::empty() }"

def realname(t):
  """Text, Caption, ...: dec takes the element; the tag is checked by the caller"""
  return t

def dec_call(ty, c):
  """expression of type Option<G(ty)> decoding element c"""
  if ty == "Text": return None
  return "dec_%s(%s)" % (base(ty), c)

def enc_nd(ty, tag, v):
  t = base(ty)
  if t == "SentenceOrColumnOrTable": return "Nd::E(enc_SentenceOrColumnOrTable(%s, %s))" % (v, lit(tag))
  if t in NAMED: return "Nd::E(enc_%s(%s, %s))" % (t, v, lit(tag))
  if t == "String": return "Nd::T(%s)" % v
  if t == "Struct": return "nd_Struct(%s)" % v
  return "Nd::E(enc_%s(%s))" % (t, v)

class Out:
  def __init__(s): s.l = []
  def __call__(s, x): s.l.append(x)
  def text(s): return "\n".join(s.l)

def enc_union_match(u, v):
  """match producing the Nd of a union value"""
  r = "match %s { " % v
  for var, tag, ty in variants_n(u):
    if ty is None: r += "G%s::%s(w) => Nd::T(w), " % (u, var)
    else: r += "G%s::%s(w) => %s, " % (u, var, enc_nd(ty, tag, "w"))
  return r + "}"

def variants_n(u):
  """normalised: (variant, tag, type or None for text)"""
  r = []
  for v in variants(u):
    var, a, b = v
    if u == "TextElement": r.append((var, a, b))
    elif a == "#text": r.append((var, "#text", None))
    elif b is None: r.append((var, a, None))
    else: r.append((var, a, b))
  return r

def seg_name(X, g):
  """segment function for the vector group g"""
  if g.ty == "Text" or g.ty in NAMED: return "sg_%s" % g.ty
  return "sg_%s" % g.ty

def seg_call(basee, ty, s, n, tag=None):
  if ty in NAMED: return "sg_%s(%s, %s, %s, %s)" % (ty, basee, s, n, lit(tag))
  return "sg_%s(%s, %s, %s)" % (ty, basee, s, n)

def lits_of_type(X):
  t = TYPES[X]
  r = [t["tag"]]
  for a in t["attrs"]: r += attr_lits(a)
  for g in t["body"]:
    if g.tag: r.append(g.tag)
    if is_union(g.ty): r += [tag for _, tag, ty in variants_n(g.ty) if ty]
    elif g.ty not in ("Text", "String") and g.ty in TYPES: r.append(TYPES[g.ty]["tag"])
    if g.ty == "SentenceOrColumnOrTable": r += ["Sentence", "Column", "Table"]
  r += ["Rt", "Ruby", "Line", "Sup", "Sub"] if X in ("Ruby",) else []
  out = []
  for x in r:
    if x not in out and x not in ("?", "#text", None): out.append(x)
  return out

def lits_block(names):
  for n in names: lit(n)
  return " ".join("lits::%s();" % LITS[n] for n in names)

# ------------------------------------------------------------------ spec of a struct type
def gen_union(o, u):
  vs = variants_n(u)
  o("pub ghost enum G%s { %s }" % (u, ", ".join("%s(%s)" % (v, G(ty) if ty else "Seq<char>") for v, tag, ty in vs)))
  o("pub open spec fn v_%s(x: %s) -> G%s decreases x { match x { %s } }" % (u, u, u,
    ", ".join("%s::%s(v) => G%s::%s(%s)" % (u, v, u, v, V(ty, "v") if ty else "v@") for v, tag, ty in vs)))
  gen_containers(o, u, extra=None if u in OPEN_SEG else "sz_sg_" + u)
  put_seg(o, "sg_" + u, "G" + u, lambda x: enc_union_match(u, x))
  o("pub open spec fn nd_%s(x: G%s) -> Nd decreases x { %s }" % (u, u, enc_union_match(u, "x")))
  gen_seg_lemma(o, u, "#[trigger] nd_%s(s[k])" % u)
  o("pub open spec fn wf_%s(x: G%s) -> bool decreases x { match x { %s } }" % (u, u,
    ", ".join("G%s::%s(v) => %s" % (u, v, wf_call(ty, "v") if ty else "true") for v, tag, ty in vs)))

OPEN_SEG = {"TextElement", "Sentence", "Column", "Text"}
def put_seg(o, f, gty, nd, named=False):
  """segment function: b followed by the nodes of s[0..n]; opaque, with step and base lemmas"""
  np, na = (", name: Seq<char>", ", name") if named else ("", "")
  op = f[3:] not in OPEN_SEG
  o(("#[verifier::opaque]\n" if op else "") + "pub open spec fn %s(b: Seq<Nd>, s: Seq<%s>, n: int%s) -> Seq<Nd> decreases s, n { if n <= 0 { b } else if n > s.len() { b } else { %s(b, s, n - 1%s).push(%s) } }" % (f, gty, np, f, na, nd("s[n - 1]")))
  if op:
    o("pub proof fn ss_%s(b: Seq<Nd>, s: Seq<%s>, n: int%s) requires 0 <= n < s.len() ensures %s(b, s, n + 1%s) == %s(b, s, n%s).push(%s) { reveal(%s); }" % (f, gty, np, f, na, f, na, nd("s[n]"), f))
    o("pub broadcast proof fn sz_%s(b: Seq<Nd>, s: Seq<%s>, n: int%s) requires n <= 0 ensures #[trigger] %s(b, s, n%s) == b { reveal(%s); }" % (f, gty, np, f, na, f))
def seg_step(fn, k, T, b, view, it, tag=None):
  fn.head[k] = fn.head.get(k, "") + " vs_%s_index(%s.v@, %s.pos as int);" % (T, it, it)
  if T in OPEN_SEG: return
  c = seg_call(b, T, view, "%s.pos as int" % it, tag)
  fn.head[k] = fn.head.get(k, "") + " ss_%s;" % c

def gen_seg_lemma(o, T, ndk, named=False):
  nm = ", name: Seq<char>" if named else ""
  na = ", name" if named else ""
  o("""pub proof fn lsg_%s(b: Seq<Nd>, s: Seq<G%s>, n: int%s)
  requires 0 <= n <= s.len()
  ensures ({ let r = sg_%s(b, s, n%s);
    &&& r.len() == b.len() + n
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] r[i] == b[i]
    &&& forall|k: int| 0 <= k < n ==> r[b.len() + k] == %s })
  decreases n
{ reveal(sg_%s); if n > 0 { lsg_%s(b, s, n - 1%s); } }""" % (T, T, nm, T, na, ndk, T, T, na))

def gen_containers(o, T, extra=None):
  g = G(T)
  o("pub open spec fn vo_%s(o: Option<%s>) -> Option<%s> decreases o { match o { None => None, Some(x) => Some(%s) } }" % (T, T, g, V(T, "x")))
  o("#[verifier::opaque]\npub open spec fn vs_%s(o: Seq<%s>) -> Seq<%s> decreases o { Seq::new(o.len(), |i: int| if 0 <= i < o.len() { %s } else { arbitrary() }) }" % (T, T, g, V(T, "o[i]")))
  vx, gt = V(T, "x"), g
  o(f"pub broadcast proof fn vs_{T}_push(s: Seq<{T}>, x: {T}) ensures #[trigger] vs_{T}(s.push(x)) == vs_{T}(s).push({vx}) {{ reveal(vs_{T}); assert(vs_{T}(s.push(x)) =~= vs_{T}(s).push({vx})); }}")
  o(f"pub broadcast proof fn vs_{T}_empty(s: Seq<{T}>) requires s.len() == 0 ensures #[trigger] vs_{T}(s) == Seq::<{gt}>::empty() {{ reveal(vs_{T}); assert(vs_{T}(s) =~= Seq::empty()); }}")
  o(f"pub broadcast proof fn vs_{T}_len(s: Seq<{T}>) ensures #[trigger] vs_{T}(s).len() == s.len() {{ reveal(vs_{T}); }}")
  vi = V(T, "s[i]")
  o(f"pub broadcast proof fn vs_{T}_index(s: Seq<{T}>, i: int) requires 0 <= i < s.len() ensures #[trigger] vs_{T}(s)[i] == {vi} {{ reveal(vs_{T}); }}")
  o("pub broadcast proof fn vo_%s_def(o: Option<%s>) ensures #[trigger] vo_%s(o) == (match o { None => None, Some(x) => Some(%s) }) {}" % (T, T, T, V(T, "x")))
  o("pub broadcast group bg_%s { vs_%s_push, vs_%s_empty, vs_%s_len, vs_%s_index, vo_%s_def%s }" % (T, T, T, T, T, T, ", " + extra if extra else ""))
  ex = [x for x in (extra or "").split(", ") if x and x != "lemma_dec_Text"]
  o("pub broadcast group bgw_%s { %s }" % (T, ", ".join(["vo_%s_def" % T, "vs_%s_len" % T] + ex)))

def wf_call(ty, v):
  if ty == "String" or ty is None: return "true"
  return "wf_%s(%s)" % (base(ty), v)

def wf_group(g, x):
  if g.card in ("one", "first", "whole", "second"): return wf_call(g.ty, x)
  if g.card in ("opt", "optwrap1"): return "(match %s { Some(v) => %s, None => true })" % (x, wf_call(g.ty, "v"))
  if g.card in SEQ: return "(forall|i: int| 0 <= i < %s.len() ==> %s)" % (x, wf_call(g.ty, "#[trigger] " + x + "[i]") if is_union(g.ty) or g.ty == "Text" else "#[trigger] " + wf_call(g.ty, x + "[i]"))
  if g.card in ("dflt", "dfltomit", "text"): return "wf_Text(%s)" % x
  if g.card == "textc": return "(forall|i: int| 0 <= i < %s.len() ==> wf_TextElement(#[trigger] %s[i]))" % (x, x)
  return "true"

def fold_cases(X, t):
  """list of (condition on c.name, body) for element child c of fold_X"""
  f = "fold_%s" % X
  nxt = lambda upd: "%s(A%s { %s, ..a }, e, i + 1)" % (f, X, upd)
  hasheads = any(g.kw.get("head") for g in t["body"])
  cases = []
  for g in t["body"]:
    st = ""
    if hasheads and not g.kw.get("head"): st = ", body: true"
    def emit(cond, val, mk, g=g, st=st):
      # val: Option expression or None -> mk is total
      cases.append((g, cond, val, mk, st))
    cn = "c.name == %s"
    if g.card in ("one", "opt"):
      if g.ty == "Text": emit(cn % lit(g.tag), None, "%s: Some(dec_Text(c))" % g.field)
      else: emit(cn % lit(g.tag), dec_call(g.ty, "c"), "%s: Some(v)" % g.field)
    elif g.card == "vec":
      if g.ty == "Text": emit(cn % lit(g.tag), None, "%s: a.%s.push(dec_Text(c))" % (g.field, g.field))
      elif t.get("anychild"): emit("true", dec_call(g.ty, "c"), "%s: a.%s.push(v)" % (g.field, g.field))
      else: emit(cn % lit(g.tag), dec_call(g.ty, "c"), "%s: a.%s.push(v)" % (g.field, g.field))
    elif g.card == "uni":
      for var, tag, ty in variants_n(g.ty):
        if ty is None: continue
        if ty == "Text": emit(cn % lit(tag), None, "%s: a.%s.push(G%s::%s(dec_Text(c)))" % (g.field, g.field, g.ty, var))
        else: emit(cn % lit(tag), dec_call(ty, "c"), "%s: a.%s.push(G%s::%s(v))" % (g.field, g.field, g.ty, var))
    elif g.card in ("dflt", "dfltomit"):
      emit(cn % lit(g.tag), None, "%s: dec_Text(c)" % g.field)
    elif g.card in ("wrapvec", "unieach"):
      emit(cn % lit(g.tag), "fold_%s(a.%s, c, 0)" % (wrapname(X, g), g.field), "%s: v" % g.field)
    elif g.card == "optwrap1":
      emit(cn % lit(g.tag), "dec1_%s(c)" % wrapname(X, g), "%s: Some(v)" % g.field)
    elif g.card == "pre":
      post = g.kw["post"]
      cases.append((g, cn % lit(g.tag), "REM", (g.field, g.kw["sep"], post), st))
    elif g.card == "post": pass
    else: raise Exception(g.card)
  return cases, hasheads

def gen_fold(o, X, t):
  cases, hasheads = fold_cases(X, t)
  accf = [(g.field, acc_ty(X, g), acc_init(g)) for g in t["body"]]
  o("pub ghost struct A%s { %s }" % (X, ", ".join(["pub %s: %s" % (f, ty) for f, ty, _ in accf] + (["pub body: bool"] if hasheads else []))))
  o("pub open spec fn init_%s() -> A%s { A%s { %s } }" % (X, X, X, ", ".join(["%s: %s" % (f, i) for f, _, i in accf] + (["body: false"] if hasheads else []))))
  fold = "fold_%s" % X
  def chain(cs, other):
    r = ""
    for g, cond, val, mk, st in cs:
      if val == "REM":
        pre, sep, post = mk
        body = "match dec_Remarks(c) { None => %s(a, e, i + 1), Some(v) => if a.%s is None { %s(A%s { %s: a.%s.push(v), ..a }, e, i + 1) } else { %s(A%s { %s: a.%s.push(v), ..a }, e, i + 1) } }" % (fold, sep, fold, X, pre, pre, fold, X, post, post)
      elif val is None: body = "%s(A%s { %s%s, ..a }, e, i + 1)" % (fold, X, mk, st)
      else: body = "match %s { None => None, Some(v) => %s(A%s { %s%s, ..a }, e, i + 1) }" % (val, fold, X, mk, st)
      r += "if %s { %s } else " % (cond, body)
    return r + "{ %s }" % other
  other = "%s(a, e, i + 1)" % fold if t.get("unknown") == "ignore" else "None"
  if hasheads:
    hs = [c for c in cases if c[0].kw.get("head")]; bs = [c for c in cases if not c[0].kw.get("head")]
    inner = "if a.body { %s } else { %s }" % (chain(bs, other), chain(hs, chain(bs, other)))
  else: inner = chain(cases, other)
  texts = [(g, var) for g in t["body"] if g.card == "uni" for var, tag, ty in variants_n(g.ty) if ty is None]
  tcase = ""
  if texts:
    g, var = texts[0]
    tcase = "Nd::T(s) => %s(A%s { %s: a.%s.push(G%s::%s(s)), ..a }, e, i + 1), " % (fold, X, g.field, g.field, g.ty, var)
  put_fold(o, X, fold, "A" + X, "A%s { body: true, ..a }" % X if hasheads else "a", inner, tcase, opaque=not hasheads)

OPAQUE_FOLDS = set()
def put_fold(o, X, fold, A, end, inner, tcase="", opaque=True):
  """fold over the children of e from position i; opaque, with its one-step unfolding as a lemma"""
  b = "if i < 0 || i >= e.ch.len() { Some(%s) } else { match e.ch[i] { Nd::E(c) => %s, %s_ => %s(a, e, i + 1) } }" % (end, inner, tcase, fold)
  o(("#[verifier::opaque]\n" if opaque else "") + "pub open spec fn %s(a: %s, e: El, i: int) -> Option<%s> decreases e, e.ch.len() - i {\n  %s\n}" % (fold, A, A, b))
  if not opaque: return
  OPAQUE_FOLDS.add(fold)
  o("proof fn st_%s(a: %s, e: El, i: int) ensures %s(a, e, i) == (%s) { reveal(%s); %s}" % (fold[5:], A, fold, b, fold, "".join("reveal(%s); " % w for w in sorted(set(re.findall(r"fold_W\w+", b)) - {fold}))))
  o("broadcast proof fn se_%s(a: %s, e: El, i: int) requires i >= e.ch.len() ensures #[trigger] %s(a, e, i) == Some(%s) { reveal(%s); }" % (fold[5:], A, fold, end, fold))

def gen_wrapper(o, X, g):
  """wrapper element whose element children are decoded one by one into a sequence"""
  W = wrapname(X, g)
  f = "fold_" + W
  T = g.ty
  if is_union(T):
    r = ""
    for var, tag, ty in variants_n(T):
      if ty == "Text": r += "if c.name == %s { %s(a.push(G%s::%s(dec_Text(c))), e, i + 1) } else " % (lit(tag), f, T, var)
      else: r += "if c.name == %s { match %s { None => None, Some(v) => %s(a.push(G%s::%s(v)), e, i + 1) } } else " % (lit(tag), dec_call(ty, "c"), f, T, var)
    inner = r + "{ None }"
  else:
    inner = "match %s { None => None, Some(v) => %s(a.push(v), e, i + 1) }" % (dec_call(T, "c"), f)
  put_fold(o, X, f, "Seq<%s>" % G(T), "a", inner)

def attrs_fields(t): return [(a.field, attr_gty(a)) for a in t["attrs"]]

def gen_struct(o, X):
  t = TYPES[X]
  body = t["body"]
  fields = [(g.field, field_gty(g)) for g in body] + attrs_fields(t)
  o("pub ghost struct G%s { %s }" % (X, ", ".join("pub %s: %s" % f for f in fields)))
  o("pub open spec fn v_%s(x: %s) -> G%s decreases x { G%s { %s } }" % (X, X, X, X,
    ", ".join(["%s: %s" % (g.field, field_view(g, "x." + g.field)) for g in body] + ["%s: %s" % (a.field, attr_view(a, "x." + a.field)) for a in t["attrs"]])))
  # attributes
  o("pub open spec fn aok_%s(m: Map<Seq<char>, Seq<char>>) -> bool { %s }" % (X, " && ".join(["true"] + [attr_ok(a) for a in t["attrs"]])))
  for a in t["attrs"]:
    o("pub open spec fn av_%s_%s(m: Map<Seq<char>, Seq<char>>) -> %s { %s }" % (X, a.field, attr_gty(a), attr_val(a)))
  m = "Map::<Seq<char>, Seq<char>>::empty()"
  o("pub open spec fn att_%s_0(x: G%s) -> Map<Seq<char>, Seq<char>> { %s }" % (X, X, m))
  for k, a in enumerate(t["attrs"]):
    o("pub open spec fn att_%s_%d(x: G%s) -> Map<Seq<char>, Seq<char>> { let m = att_%s_%d(x); %s }" % (X, k + 1, X, X, k, attr_enc(a, "m", "x." + a.field)))
  att = "att_%s_%d(x)" % (X, len(t["attrs"]))
  avs = ", ".join("%s: av_%s_%s(e.attrs)" % (a.field, X, a.field) for a in t["attrs"])
  sep = ", " if avs else ""
  tagchk = [] if (t.get("anytag") or t["tag"] == "?") else ["e.name != %s" % lit(t["tag"])]
  bad = " || ".join(tagchk + (["!aok_%s(e.attrs)" % X] if t["attrs"] else []))
  pre = ("if %s { None } else " % bad) if bad else ""
  # wrappers
  for g in body:
    if g.card in ("wrapvec", "unieach", "firstwrap"): gen_wrapper(o, X, g)
    if g.card == "optwrap1":
      o("pub open spec fn dec1_%s(c: El) -> Option<%s> decreases c, c.ch.len() + 1 { if c.ch.len() == 0 { None } else { match c.ch[0] { Nd::E(d) => %s, _ => None } } }" % (wrapname(X, g), G(g.ty), dec_call(g.ty, "d")))
  kinds = [g.card for g in body]
  name_param = X in NAMED
  ename = "name" if name_param else lit(t["tag"])
  nparm = ", name: Seq<char>" if name_param else ""
  narg = ", name" if name_param else ""
  if "whole" in kinds:
    g = body[0]
    o("pub open spec fn dec_%s(e: El) -> Option<G%s> decreases e, e.ch.len() + 2 { %s{ match dec_%s(e) { None => None, Some(v) => Some(G%s { %s: v%s%s }) } } }" % (X, X, pre, g.ty, X, g.field, sep, avs))
    o("pub open spec fn enc_%s(x: G%s) -> El decreases x, 1000int { El { attrs: %s, ..enc_%s(x.%s, %s) } }" % (X, X, att, g.ty, g.field, ename))
  elif "text" in kinds or "textc" in kinds:
    g = body[0]
    val = "dec_Text(e)" if g.card == "text" else "dec_Text(e).contents"
    o("pub open spec fn dec_%s(e: El) -> Option<G%s> decreases e, e.ch.len() + 2 { %s{ Some(G%s { %s: %s%s%s }) } }" % (X, X, pre, X, g.field, val, sep, avs))
    src = "x.%s.contents" % g.field if g.card == "text" else "x." + g.field
    o("pub open spec fn enc_%s(x: G%s%s) -> El decreases x, 1000int { El { name: %s, attrs: %s, ch: sg_TextElement(Seq::empty(), %s, %s.len() as int) } }" % (X, X, nparm, ename, att, src, src))
  elif not body:
    o("pub open spec fn dec_%s(e: El) -> Option<G%s> { %s{ Some(G%s { %s }) } }" % (X, X, pre, X, avs))
    o("pub open spec fn enc_%s(x: G%s) -> El { El { name: %s, attrs: %s, ch: Seq::empty() } }" % (X, X, ename, att))
  elif X == "Law":
    o("""pub open spec fn dec_Law(e: El) -> Option<GLaw> decreases e, e.ch.len() + 1 { %s{
  if e.ch.len() < 2 { None } else { match e.ch[0] { Nd::E(c) => if c.name != %s { None } else { match e.ch[1] { Nd::E(d) => match dec_LawBody(d) { None => None,
    Some(v) => Some(GLaw { law_num: cat_text(c.ch, c.ch.len() as int), law_body: v%s%s }) }, _ => None } }, _ => None } } } }""" % (pre, lit("LawNum"), sep, avs))
    o("pub open spec fn enc_Law(x: GLaw) -> El decreases x, 1000int { El { name: %s, attrs: %s, ch: Seq::empty().push(Nd::E(El { name: %s, attrs: Map::empty(), ch: Seq::empty().push(Nd::T(x.law_num)) })).push(Nd::E(enc_LawBody(x.law_body))) } }" % (lit("Law"), att, lit("LawNum")))
  elif kinds[0] in ("firstwrap", "first"):
    g = body[0]
    rest = body[1] if len(body) > 1 else None
    o("pub ghost struct A%s { %s }" % (X, "pub %s: %s" % (rest.field, acc_ty(X, rest)) if rest else ""))
    if rest:
      gen_rest_fold(o, X, t, rest)
    dec1 = "fold_%s(Seq::empty(), c, 0)" % wrapname(X, g) if g.card == "firstwrap" else "Some(dec_Text(c))"
    fin = "Some(G%s { %s: v%s%s%s })" % (X, g.field, (", %s: r" % rest.field) if rest else "", sep, avs)
    if rest: fin = "match fold_%s(Seq::empty(), e, 1) { None => None, Some(r) => %s }" % (X, fin)
    o("""pub open spec fn dec_%s(e: El) -> Option<G%s> decreases e, e.ch.len() + 1 { %s{
  if e.ch.len() < 1 { None } else { match e.ch[0] { Nd::E(c) => if c.name != %s { None } else { match %s { None => None, Some(v) => %s } }, _ => None } } } }""" % (X, X, pre, lit(g.tag), dec1, fin))
    gen_enc_groups(o, X, t, att)
  else:
    gen_fold(o, X, t)
    fin = []
    req = [g for g in body if g.card == "one"]
    for g in body:
      fin.append("%s: %s" % (g.field, "a.%s.unwrap()" % g.field if g.card == "one" else "a." + g.field))
    chk = " || ".join("a.%s is None" % g.field for g in req)
    some = "Some(G%s { %s%s%s })" % (X, ", ".join(fin), sep, avs)
    if chk: some = "if %s { None } else { %s }" % (chk, some)
    o("pub open spec fn dec_%s(e: El) -> Option<G%s> decreases e, e.ch.len() + 1 { %s{ match fold_%s(init_%s(), e, 0) { None => None, Some(a) => %s } } }" % (X, X, pre, X, X, some))
    gen_enc_groups(o, X, t, att)
  gen_unfold(o, X, t)
  # well-formedness
  o("pub open spec fn wf_%s(x: G%s) -> bool decreases x { %s }" % (X, X, " && ".join(["true"] + [wf_group(g, "x." + g.field) for g in body])))
  gen_containers(o, X, extra=", ".join((["enc_Contents_top"] if X == "Contents" else []) + ([] if X in OPEN_SEG else ["sz_sg_" + X])))
  if X == "Contents": o("pub broadcast proof fn enc_Contents_top(x: GContents, name: Seq<char>) ensures (#[trigger] enc_Contents(x, name)).attrs == Map::<Seq<char>, Seq<char>>::empty(), enc_Contents(x, name).name == name {}")
  nm = X in NAMED
  put_seg(o, "sg_" + X, "G" + X, lambda x: "Nd::E(enc_%s(%s%s))" % (X, x, narg), named=nm)
  gen_seg_lemma(o, X, "Nd::E(#[trigger] enc_%s(s[k]%s))" % (X, narg), named=nm)

def gen_rest_fold(o, X, t, g):
  f = "fold_" + X
  if g.card == "vec":
    inner = "match %s { None => None, Some(v) => %s(a.push(v), e, i + 1) }" % (dec_call(g.ty, "c"), f)
    if t["mod"] == "article": inner = "if c.name == %s { %s } else { None }" % (lit(g.tag), inner)
  else:
    r = ""
    for var, tag, ty in variants_n(g.ty):
      r += "if c.name == %s { match %s { None => None, Some(v) => %s(a.push(G%s::%s(v)), e, i + 1) } } else " % (lit(tag), dec_call(ty, "c"), f, g.ty, var)
    inner = r + "{ None }"
  put_fold(o, X, f, "Seq<%s>" % G(g.ty), "a", inner)

def group_enc(X, g, b, x):
  f = "%s.%s" % (x, g.field)
  if g.card in ("one", "dflt", "first"):
    return "%s.push(%s)" % (b, enc_nd(g.ty, g.tag, f))
  if g.card == "opt": return "match %s { None => %s, Some(v) => %s.push(%s) }" % (f, b, b, enc_nd(g.ty, g.tag, "v"))
  if g.card == "dfltomit": return "if %s.contents.len() == 0 { %s } else { %s.push(%s) }" % (f, b, b, enc_nd(g.ty, g.tag, f))
  if g.card in ("vec", "uni", "pre", "post"): return seg_call(b, g.ty, f, f + ".len() as int", g.tag)
  if g.card in ("wrapvec", "firstwrap"): return "%s.push(Nd::E(El { ch: %s, ..mkEl(%s) }))" % (b, seg_call("Seq::empty()", g.ty, f, f + ".len() as int", g.tag), lit(g.tag))
  if g.card == "optwrap1": return "match %s { None => %s, Some(v) => %s.push(Nd::E(El { ch: Seq::empty().push(%s), ..mkEl(%s) })) }" % (f, b, b, enc_nd(g.ty, g.tag, "v"), lit(g.tag))
  if g.card == "unieach": return "sge_%s_%s(%s, %s, %s.len() as int)" % (X, g.field, b, f, f)
  raise Exception(g.card)

def gen_enc_groups(o, X, t, att):
  for g in t["body"]:
    if g.card == "unieach":
      put_seg(o, "sge_%s_%s" % (X, g.field), G(g.ty), lambda x: "Nd::E(El { ch: Seq::empty().push(%s), ..mkEl(%s) })" % (enc_union_match(g.ty, x), lit(g.tag)))
  o("pub open spec fn p_%s_0(x: G%s) -> Seq<Nd> { Seq::empty() }" % (X, X))
  for j, g in enumerate(t["body"]):
    o("pub open spec fn p_%s_%d(x: G%s) -> Seq<Nd> decreases x, %dint { let b = p_%s_%d(x); %s }" % (X, j + 1, X, j + 1, X, j, group_enc(X, g, "b", "x")))
  nm = X in NAMED
  o("pub open spec fn enc_%s(x: G%s%s) -> El decreases x, 1000int { El { name: %s, attrs: %s, ch: p_%s_%d(x) } }" % (X, X, ", name: Seq<char>" if nm else "", "name" if nm else lit(t["tag"]), att, X, len(t["body"])))

def has_prefixes(X):
  t = TYPES[X]
  k = [g.card for g in t["body"]]
  return bool(k) and X != "Law" and not ({"whole", "text", "textc"} & set(k))

def gen_unfold(o, X, t):
  """one-step unfoldings of the view and of the written children"""
  ens = ["v_%s(x) == (G%s { %s })" % (X, X, ", ".join(["%s: %s" % (g.field, field_view(g, "x." + g.field)) for g in t["body"]] + ["%s: %s" % (a.field, attr_view(a, "x." + a.field)) for a in t["attrs"]]))]
  if has_prefixes(X):
    ens.append("p_%s_0(v_%s(x)) == Seq::<Nd>::empty()" % (X, X))
    for j, g in enumerate(t["body"]):
      ens.append("p_%s_%d(v_%s(x)) == ({ let b = p_%s_%d(v_%s(x)); let y = v_%s(x); %s })" % (X, j + 1, X, X, j, X, X, group_enc(X, g, "b", "y")))
  o("proof fn lw_%s(x: %s) ensures\n  %s\n{ %s }" % (X, X, ",\n  ".join(ens), " ".join("reveal(sge_%s_%s);" % (X, g.field) for g in t["body"] if g.card == "unieach")))

def gen_enum(o, e):
  vs = ENUMS[e][1]
  o("pub open spec fn ep_%s(s: Seq<char>) -> Option<%s> { %s }" % (e, e, enum_chain(e, "s", lambda v: "Some(%s)" % v, "None")))
  o("pub open spec fn es_%s(x: %s) -> Seq<char> { match x { %s } }" % (e, e, ", ".join("%s::%s => %s" % (e, v, lit(t)) for v, t in vs)))
