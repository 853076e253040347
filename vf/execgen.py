"""Turns the functions extracted by vx into Verus functions with contracts and
loop invariants.  mode: 'full' (exact: C08/C09), 'rt' (round trip: C01-C07),
'safe' (no panic, termination: C10)."""
import re
from gen import *

HINTS = True
class Lost(Exception): pass

EXTRA_CONTRACTS = ["get_attribute", "get_attribute_with_parse", "get_attribute_opt_with_parse", "Text::from_children", "Text::to_children",
  "ArticleNumber::from_num_str", "ArticleNumber::num_str", "ArticleNumber::from_str", "Error::missing_required_tag", "Error::wrong_tag_name",
  "Error::unexpected_tag", "SentenceOrColumnOrTable::from_element"]

SELFTY = {}
def ty_text(t):
  return t.replace(" ", "").replace("&mut", "&mut ").replace("Option<", "Option<").replace("dyn", "dyn ")

def decl_pos(body, name):
  m = re.search(r"let (?:mut )?%s\b" % re.escape(name), body)
  return m.start() if m else -1
def loop_pos(body, k): return body.index("vx_pre ! (%d);" % k)

class Fn:
  def __init__(s, f):
    s.f, s.body, s.meta = f, f["body"], f["meta"]
    s.key = f["key"]
    s.pre, s.inv, s.dec = {}, {}, {}
    s.start = ""
    s.head = {}
    s.loops = sorted(int(k) for k in s.meta["loops"])
  def nested(s, k):
    """inside another loop of the function"""
    return any(j != k and "vx_inv ! (%d);" % k in loop_region(s.body, j) for j in s.loops)
  def iter_of(s, k):
    """name of the iterator local of loop k"""
    if s.meta["loops"][str(k)]["kind"] == "while":
      m = re.search(r"let mut (__it\d+) = [^;]*;\s*vx_pre ! \(%d\);" % k, s.body)
      if m: return m.group(1)
    for e in s.meta["events"]:
      if e["how"] in ("next", "take") and e["loops"] and k == e["loops"][-1]: return e["base"]
    raise Lost("loop %d of %s has no iterator" % (k, s.key))
  def init_of(s, it):
    """initialiser of the iterator, following `let mut children = X.vx_iter()` chains; returns X"""
    seen = set()
    while True:
      l = s.meta["locals"].get(it)
      if not l: raise Lost("iterator %s of %s" % (it, s.key))
      t = l["init"].strip()
      m = re.match(r"^(.*?)\.vx_(?:iter|into) \(\)$", t, re.S)
      if not m: raise Lost("iterator %s of %s: %s" % (it, s.key, t[:60]))
      src = m.group(1).strip()
      if src in s.meta["locals"] and src not in seen:
        i2 = s.meta["locals"][src]["init"].strip()
        if i2.endswith((".vx_iter ()", ".vx_into ()")): seen.add(src); it = src; continue
        mm = re.match(r"^\(?&\s*(?:mut )?([\w.]+)\)?$", i2)
        if mm: return mm.group(1)
      mm = re.match(r"^\(?&\s*([\w.]+)\)?$", src)
      return mm.group(1) if mm else src
  def local_of(s, name):
    """follow aliases to the mutable local that collects the value"""
    seen = set()
    while name not in seen:
      seen.add(name)
      l = s.meta["locals"].get(name)
      if l and l["mut"]: return name
      if name in s.meta["alias"]: name = s.meta["alias"][name]; continue
      if l and re.match(r"^\w+$", l["init"].strip()): name = l["init"].strip(); continue
      break
    return None

def result_fields(fn, X):
  for r in fn.meta["results"]:
    if r["ty"] in (X, "Self"): return r["fields"]
  return None

def field_local(fn, X, g):
  rf = result_fields(fn, X)
  if rf and g.field in rf:
    t = rf[g.field]
    b = t["base"]
    if b:
      l = fn.local_of(b)
      if l: return l
  for e in fn.meta["events"]:
    if e["how"] in ("push", "assign") and e["tags"] and e["tags"][-1] == g.tag and e["base"] in fn.meta["locals"] and fn.meta["locals"][e["base"]]["mut"]: return e["base"]
  return None

def acc_view(g, L):
  if g.card in ("one", "opt", "optwrap1"): return "vo_%s(%s)" % (g.ty, L)
  if g.card in SEQ: return "vs_%s(%s@)" % (g.ty, L)
  return "%s.vdt()" % L

def guarded(mode, a, b):
  """equality of two Option-valued folds"""
  if mode == "rt": return "(%s) is Some ==> (%s) == (%s)" % (a, a, b)
  return "(%s) == (%s)" % (a, b)

def reader(X, f, mode):
  t = TYPES[X]
  fn = Fn(f)
  body = fn.body
  param = f["params"][0]["name"]
  e = "vE(*%s)" % param
  hasheads = any(g.kw.get("head") for g in t["body"])
  kinds = [g.card for g in t["body"]]
  fn.start = lits_block(lits_of_type(X)) + " lemma_child(*%s, 0); lemma_child(*%s, 1);" % (param, param)
  for k in fn.loops:
    it = fn.iter_of(k)
    src = fn.init_of(it)
    inv = ["%s.wf()" % it]
    dec = "%s.v@.len() - %s.pos" % (it, it)
    mm = re.match(r"^(\w+)\.children$", src)
    if mm: fn.head[k] = "lemma_child(*%s, %s.pos as int);" % (mm.group(1), it)
    if mm and "optwrap1" in kinds: fn.head[k] += " if %s.v@[%s.pos as int] is Element { lemma_grand(*%s, %s.pos as int); }" % (it, it, mm.group(1), it)
    if src == param + ".children" and not fn.nested(k):
      inv.append("%s.v@ == %s.children@" % (it, param))
      if mode != "safe": inv += main_inv(X, t, fn, k, it, e, mode, hasheads)
    else:
      m = re.match(r"^(\w+)\.children$", src)
      if not m: raise Lost("loop %d of %s over %s" % (k, fn.key, src))
      c = m.group(1)
      inv.append("%s.v@ == %s.children@" % (it, c))
      if mode != "safe": inv += nested_inv(X, t, fn, k, it, c, mode)
    fn.inv[k] = inv
    fn.dec[k] = dec
  if mode == "full": ens = "match r { Ok(x) => dec_%s(%s) == Some(v_%s(x)), Err(_) => dec_%s(%s) is None }" % (X, e, X, X, e)
  elif mode == "rt": ens = "dec_%s(%s) is Some ==> (r is Ok && dec_%s(%s) == Some(v_%s(r->Ok_0)))" % (X, e, X, e, X)
  else: ens = None
  return fn, dict(ensures=[ens] if ens else [], decreases=e + (", 1int" if "whole" in [g.card for g in t["body"]] else ", 0int"))

def main_inv(X, t, fn, k, it, e, mode, hasheads):
  kinds = [g.card for g in t["body"]]
  body = fn.body
  if X == "Law" or "whole" in kinds: raise Lost("loop over the children of %s" % X)
  if kinds and kinds[0] in ("firstwrap", "first"):
    if len(t["body"]) < 2: raise Lost("loop in %s" % X)
    g = t["body"][1]
    L = field_local(fn, X, g)
    if not L: raise Lost("no local for %s.%s" % (X, g.field))
    if decl_pos(body, L) > loop_pos(body, k): raise Lost("loop %d of %s before its accumulator" % (k, X))
    cur = "(vs_%s(%s@), %s, %s.pos as int)" % (g.ty, L, e, it)
    step(fn, k, X, cur)
    return ["%s.pos >= 1" % it, guarded(mode, "fold_%s(Seq::empty(), %s, 1)" % (X, e), "fold_%s%s" % (X, cur))]
  fs = []
  for g in t["body"]:
    L = field_local(fn, X, g)
    if L and decl_pos(body, L) < loop_pos(body, k): fs.append("%s: %s" % (g.field, acc_view(g, L)))
    elif L or g.card in SEQ: 
      if not L: raise Lost("no local for %s.%s" % (X, g.field))
      fs.append("%s: %s" % (g.field, acc_init(g)))
    else: raise Lost("no local for %s.%s" % (X, g.field))
  if hasheads:
    htags = [g.tag for g in t["body"] if g.kw.get("head")]
    inhead = any(e2["tags"] and e2["tags"][-1] in htags and k in e2["loops"] for e2 in fn.meta["events"])
    fs.append("body: %s" % ("false" if inhead else "true"))
  cur = "(A%s { %s }, %s, %s.pos as int)" % (X, ", ".join(fs), e, it)
  step(fn, k, X, cur)
  return [guarded(mode, "fold_%s(init_%s(), %s, 0)" % (X, X, e), "fold_%s%s" % (X, cur))]

def step(fn, k, X, cur):
  """one-step unfolding of an opaque fold at the head of loop k"""
  if "fold_" + X in OPAQUE_FOLDS: fn.head[k] = fn.head.get(k, "") + " st_%s%s;" % (X, cur)

def nested_inv(X, t, fn, k, it, c, mode):
  evs = [e for e in fn.meta["events"] if e["loops"] and e["loops"][-1] == k]
  pushes = [e for e in evs if e["how"] in ("push", "append", "extend")]
  # concatenation of text nodes
  m = re.search(r"let mut (__acc\d+) = vx_string_new \(\);\s*let mut %s\b" % re.escape(it), fn.body)
  if m: return ["%s@ == cat_text(vNs(%s.v@), %s.pos as int)" % (m.group(1), it, it)]
  tags = fn.meta["loops"][str(k)]["tags"]
  for g in t["body"]:
    if g.card in ("wrapvec", "unieach", "firstwrap") and g.tag in tags[-1:]:
      W = wrapname(X, g)
      if not pushes: raise Lost("loop %d of %s collects nothing" % (k, X))
      L = pushes[0]["base"]
      fn.pre[k] = "let ghost g%d = vs_%s(%s@);" % (k, g.ty, L)
      cur = "(vs_%s(%s@), vE(*%s), %s.pos as int)" % (g.ty, L, c, it)
      step(fn, k, W, cur)
      return [guarded(mode, "fold_%s(g%d, vE(*%s), 0)" % (W, k, c), "fold_%s%s" % (W, cur))]
  raise Lost("nested loop %d of %s" % (k, X))

def writer(X, f, mode, named):
  t = TYPES[X]
  fn = Fn(f)
  fn.start = lits_block(lits_of_type(X)) + " lits::lit_empty(); lw_%s(*self);" % X
  for k in fn.loops:
    fn.inv[k], fn.dec[k] = writer_inv(X, fn, k, mode)
  nm = ""
  req = None
  if named:
    nm = ", %s.s()" % [p for p in f["params"] if "name" in p][0]["name"]
    nm = nm.replace(".s()", "@")
  ens = []
  if mode != "safe":
    rhs = "enc_%s(v_%s(*self)%s)" % (X, X, nm)
    ens = ["vE(r).name == %s.name" % rhs, "vE(r).attrs =~= %s.attrs" % rhs, "vE(r).ch == %s.ch" % rhs, "vE(r) == %s" % rhs]
  return fn, dict(ensures=ens, decreases="*self")

def vec_field_of(X, fn, src):
  """group of X iterated by a writer loop"""
  m = re.match(r"^self\.(\w+)$", src)
  if m:
    for g in TYPES[X]["body"]:
      if g.field == m.group(1): return g, src
    if X in TYPES:
      for g in TYPES[X]["body"]:
        if g.card == "text" and src == "self.%s.contents" % g.field: return g, src
  m = re.match(r"^self\.(\w+)\.contents$", src)
  if m:
    for g in TYPES[X]["body"]:
      if g.field == m.group(1): return g, src
  raise Lost("loop over %s in the writer of %s" % (src, X))

def writer_inv(X, fn, k, mode):
  it = fn.iter_of(k)
  src = fn.init_of(it)
  g, _ = vec_field_of(X, fn, src)
  def cut(tgt, where):
    if HINTS and has_prefixes(X) and not fn.nested(k):
      j = TYPES[X]["body"].index(g)
      return " proof { assert(vE(%s).ch == p_%s_%d(v_%s(*self))); }" % (tgt, X, j, X)
    return ""
  if g.card == "optwrap1":   # iteration over an Option
    inv = ["%s.wf()" % it]
    dec = "1 - %s.pos" % it
    if mode == "safe": return inv, dec
    tgt = push_target(fn, k)
    fn.pre[k] = "let ghost g%d = vE(%s); let ghost i%d = %s.v;" % (k, tgt, k, it)
    nd = "Nd::E(El { ch: Seq::empty().push(%s), ..mkEl(%s) })" % (enc_nd(g.ty, g.tag, V(g.ty, "(*%s.v.unwrap())" % it)), lit(g.tag))
    inv += ["%s.v == i%d" % (it, k), "vE(%s) == (if %s.pos == 0 || %s.v is None { g%d } else { El { ch: g%d.ch.push(%s), ..g%d } })" % (tgt, it, it, k, k, nd, k)]
    return inv, dec
  inv = ["%s.wf()" % it, "%s.v@ == %s@" % (it, src)]
  dec = "%s.v@.len() - %s.pos" % (it, it)
  if mode == "safe": return inv, dec
  ety = "TextElement" if g.card in ("text", "textc") else g.ty
  view = "vs_%s(%s.v@)" % (ety, it)
  m = re.search(r"let mut (__acc\d+) = Vec :: new \(\);\s*let mut %s\b" % re.escape(it), fn.body)
  if g.card == "unieach":
    tgt = push_target(fn, k)
    fn.pre[k] = "let ghost g%d = vE(%s);" % (k, tgt)
    inv.append("vE(%s) == (El { ch: sge_%s_%s(g%d.ch, %s, %s.pos as int), ..g%d })" % (tgt, X, g.field, k, view, it, k))
    fn.head[k] = fn.head.get(k, "") + " vs_%s_index(%s.v@, %s.pos as int); ss_sge_%s_%s(g%d.ch, %s, %s.pos as int);" % (g.ty, it, it, X, g.field, k, view, it)
    fn.pre[k] += " proof { sz_sge_%s_%s(g%d.ch, %s, 0); }" % (X, g.field, k, view)
    return inv, dec
  if m:
    inv.append("vNs(%s@) == %s" % (m.group(1), seg_call("Seq::empty()", ety, view, "%s.pos as int" % it, g.tag)))
    seg_step(fn, k, ety, "Seq::empty()", view, it, g.tag)
  else:
    tgt = push_target(fn, k)
    fn.pre[k] = "let ghost g%d = vE(%s);" % (k, tgt) + cut(tgt, k)
    inv.append("vE(%s) == (El { ch: %s, ..g%d })" % (tgt, seg_call("g%d.ch" % k, ety, view, "%s.pos as int" % it, g.tag), k))
    seg_step(fn, k, ety, "g%d.ch" % k, view, it, g.tag)
  return inv, dec

def loop_region(body, k):
  m = re.search(r"vx_inv ! \(%d\);" % k, body)
  if not m: raise Lost("loop %d" % k)
  i, d, st = m.end(), 1, None
  while i < len(body) and d > 0:
    c = body[i]
    if c == '"':
      i += 1
      while body[i] != '"': i += 2 if body[i] == "\\" else 1
    elif c == "'" and (q := re.match(r"'(?:[^'\\]|\\u\{\w+\}|\\.)'", body[i:])): i += q.end() - 1
    elif c == "{": d += 1
    elif c == "}": d -= 1
    i += 1
  return body[m.end():i]

def push_target(fn, k):
  reg = loop_region(fn.body, k)
  decl_in = lambda b: bool(re.search(r"let (?:mut )?%s\b" % re.escape(b), reg))
  for e in fn.meta["events"]:
    if e["how"] == "push" and k in e["loops"] and e["target"].endswith(".children") and not decl_in(e["base"]): return e["target"][:-9]
  raise Lost("writer loop %d of %s pushes nothing" % (k, fn.key))

# ------------------------------------------------------------------ printing
def fix_body(b):
  b = b.replace("String :: new ()", "vx_string_new ()")
  b = b.replace("std :: str :: FromStr", "VFromStr")
  return b

def body_lits(b):
  out = []
  for x in re.findall(r'"((?:[^"\\]|\\.)*)"', b):
    if x and "\\" not in x and "{" not in x and x not in out: out.append(x)
  return out

def print_fn(fn, con, name=None, external=False):
  f = fn.f
  ps = []
  for p in f["params"]:
    if "self" in p: ps.append(p["self"])
    else: ps.append("%s: %s" % (p["name"], p["ty"]))
  ret = f["ret"]
  if ret: ret = ret.replace("Self :: Err", "Error")
  gen = f["generics"] or ""
  whr = (f["where"] or "").replace("std :: str :: FromStr", "VFromStr").rstrip().rstrip(",")
  gen = gen.replace("std :: str :: FromStr", "VFromStr").replace("ToString", "VxToString")
  out = []
  if external: out.append("#[verifier::external_body]")
  else:
    out.append("#[verifier::loop_isolation(false)]")
    if con.get("rlimit"): out.append("#[verifier::rlimit(%d)]" % con["rlimit"])
  out.append("pub fn %s%s(%s)%s" % (name or f["name"], gen, ", ".join(ps), " -> (r: %s)" % ret if ret else ""))
  if whr: out.append("  " + whr + ",")
  if con.get("requires"): out.append("  requires " + ",\n    ".join(con["requires"]))
  if con.get("ensures"): out.append("  ensures\n    " + ",\n    ".join(con["ensures"]))
  if con.get("decreases") and not external: out.append("  decreases " + con["decreases"])
  if external:
    out.append("{ unimplemented!() }")
    return "\n".join(out)
  b = fix_body(fn.body)
  for k in fn.loops:
    pre = fn.pre.get(k, "")
    b = b.replace("vx_pre ! (%d);" % k, pre)
    inv = fn.inv.get(k, [])
    dec = fn.dec.get(k)
    m = re.search(r"let mut (__ix\d+) : usize = 0\s*;\s*%s" % re.escape(pre), b) if pre else None
    if m and inv:   # enumerate: the counter follows the iterator
      ix, it = m.group(1), fn.iter_of(k)
      cond = re.search(r"\b%s\.take \(\).*?\b%s = %s \+ 1" % (it, ix, ix), b, re.S)
      b = b.replace(m.group(0), m.group(0) + " let ghost __p%d = %s.pos;" % (k, it))
      inv = inv + ["__p%d <= %s.pos" % (k, it), "%s %s %s.pos - __p%d" % (ix, "<=" if not cond or re.search(r"\bif\b", cond.group(0)) else "==", it, k)]
    clause = ""
    if inv: clause += "\n invariant\n  " + ",\n  ".join(inv) + ","
    if dec: clause += "\n decreases " + dec + ","
    if k in getattr(fn, "iso", ()):
      m = re.search(r"\{\s*vx_inv ! \(%d\);" % k, b)
      w = b.rindex("while ", 0, m.start())
      b = b[:w] + "#[verifier::loop_isolation(true)] " + b[w:]
    nb = re.sub(r"\{\s*vx_inv ! \(%d\);" % k, lambda m: clause + "\n {" + (" proof { %s }" % fn.head[k] if k in fn.head else ""), b, count=1)
    if nb == b: raise Lost("loop %d of %s not found" % (k, fn.key))
    b = nb
  i = b.index("{")
  start = fn.start + " " + lits_block([x for x in body_lits(fn.body) if x not in LITS or "lits::%s();" % LITS[x] not in fn.start])
  if "vx_" in start or start.strip(): start = " proof { %s }" % start
  b = b[:i + 1] + start + b[i + 1:]
  out.append(b)
  return "\n".join(out)
