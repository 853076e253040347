"""Round-trip lemmas: for every type X, wf_X(x) ==> dec_X(enc_X(x)) == Some(x).
Together with the readers' and writers' contracts they give the round-trip properties."""
from gen import *
import execgen

def child(ty, v, tag):
  """call establishing dec(enc(v)) == Some(v) and the name of enc(v)"""
  t = base(ty)
  if t == "String": return ""
  if t in NAMED or t == "SentenceOrColumnOrTable": return "lem_%s(%s, %s);" % (t, v, lit(tag))
  return "lem_%s(%s);" % (t, v)
def child_any(ty, v, tag):
  if not is_union(ty): return child(ty, v, tag)
  return "match %s { %s }" % (v, " ".join("G%s::%s(w) => { %s }" % (ty, var, child(t, "w", tg) if t else "") for var, tg, t in variants_n(ty)))
def fuel(ty): return ""
def nd_of(ty, tag, v):
  return "nd_%s(%s)" % (ty, v) if is_union(ty) else enc_nd(ty, tag, v)
def lsg_call(b, ty, s, n, tag):
  return "lsg_%s(%s, %s, %s%s);" % (ty, b, s, n, ", " + lit(tag) if ty in NAMED else "")

def attr_lemma(o, X):
  t = TYPES[X]
  n = len(t["attrs"])
  if not n: return ""
  m = "att_%s_%d(x)" % (X, n)
  calls, names = [], []
  for a in t["attrs"]:
    names += attr_lits(a)
    x = "x." + a.field
    k = a.kind
    some = lambda c: "if let Some(v) = %s { %s }" % (x, c)
    if k == "usize": calls.append("lemma_usize_text(%s);" % x)
    if k in ("usize?", "usize?empty"): calls.append(some("lemma_usize_text(v);"))
    if k == "num": calls.append("lemma_num_text(%s);" % x)
    if k in ("num?", "num?empty", "numlenient"): calls.append(some("lemma_num_text(v);"))
    if k == "numlenient": calls.append("lemma_num_empty();")
    if k.startswith("enum"):
      e, how = enum_parts(k)
      calls.append("lep_%s(%s);" % (e, x) if how == "req" or how.startswith("def") else some("lep_%s(v);" % e))
  names = list(dict.fromkeys(names))
  o("proof fn lat_%s(x: G%s) ensures aok_%s(%s), %s { %s %s }" % (X, X, X, m, ", ".join("av_%s_%s(%s) == x.%s" % (X, a.field, m, a.field) for a in t["attrs"]), lits_block(names), " ".join(calls)))
  return "lat_%s(x);" % X

def enum_lemma(o, e):
  o("pub proof fn lep_%s(v: %s) ensures ep_%s(es_%s(v)) == Some(v) { %s }" % (e, e, e, e, lits_block([t for _, t in ENUMS[e][1]])))

def text_lemmas(o):
  L = lits_block(["Ruby", "Line", "Sup", "Sub"])
  o("""pub proof fn lv_text(x: Seq<GTextElement>, s: Seq<Nd>, k: int)
  requires 0 <= k <= x.len(), s == sg_TextElement(Seq::empty(), x, x.len() as int), forall|i: int| 0 <= i < x.len() ==> wf_TextElement(#[trigger] x[i])
  ensures fold_text(x.take(k), s, k) == x
  decreases x, 1int, x.len() - k
{ %s lsg_TextElement(Seq::empty(), x, x.len() as int);
  if k < x.len() { assert(s[k] == nd_TextElement(x[k])); assert(wf_TextElement(x[k])); match x[k] { GTextElement::Ruby(w) => { lem_Ruby(w); } GTextElement::Line(w) => { lem_Line(w); } GTextElement::Sup(w) => { lem_Sup(w); } GTextElement::Sub(w) => { lem_Sub(w); } GTextElement::Text(w) => {} }
    assert(x.take(k).push(x[k]) =~= x.take(k + 1)); lv_text(x, s, k + 1); }
  else { assert(x.take(k) =~= x); } }""" % L)
  o("""pub proof fn lem_text_e(x: Seq<GTextElement>, e: El)
  requires e.ch == sg_TextElement(Seq::empty(), x, x.len() as int), forall|i: int| 0 <= i < x.len() ==> wf_TextElement(#[trigger] x[i])
  ensures dec_Text(e) == (GText { contents: x }) decreases x, 2int
{ lv_text(x, e.ch, 0); assert(x.take(0) =~= Seq::empty()); }""")
  o("""pub proof fn lem_Text(x: GText, name: Seq<char>) requires wf_Text(x) ensures dec_Text(enc_Text(x, name)) == x, enc_Text(x, name).name == name decreases x, 3int
{ lem_text_e(x.contents, enc_Text(x, name)); }""")
  o("""proof fn lv_Ruby(x: GRuby, e: El, k: int)
  requires wf_Ruby(x), e == enc_Ruby(x), 0 <= k <= x.text.contents.len()
  ensures fold_Ruby(x.text.contents.take(k), None, e, k) == (x.text.contents, Some(x.ruby)) decreases x.text.contents.len() - k
{ %s let s = x.text.contents; let p = sg_TextElement(Seq::empty(), s, s.len() as int);
  lsg_TextElement(Seq::empty(), s, s.len() as int);
  if k < s.len() { assert(e.ch[k] == p[k]); assert(p[k] == nd_TextElement(s[k])); assert(s[k] is Text); assert(s.take(k).push(s[k]) =~= s.take(k + 1)); lv_Ruby(x, e, k + 1); }
  else { assert(s.take(k) =~= s); assert(e.ch.len() == k + 1); let c = e.ch[k]->E_0; lem_cat1(x.ruby); assert(fold_Ruby(s, Some(x.ruby), e, k + 1) == (s, Some(x.ruby))); } }""" % lits_block(["Rt", "Ruby"]))
  o("pub proof fn lem_cat1(t: Seq<char>) ensures cat_text(Seq::empty().push(Nd::T(t)), 1) == t { let s = Seq::empty().push(Nd::T(t)); assert(cat_text(s, 0) == Seq::<char>::empty()); assert(Seq::<char>::empty() + t =~= t); }")
  o("""pub proof fn lem_Ruby(x: GRuby) requires wf_Ruby(x) ensures dec_Ruby(enc_Ruby(x)) == Some(x), enc_Ruby(x).name == %s
{ lv_Ruby(x, enc_Ruby(x), 0); assert(x.text.contents.take(0) =~= Seq::empty()); }""" % lit("Ruby"))
  for n in ("Sup", "Sub"):
    o("pub proof fn lem_%s(x: G%s) ensures dec_%s(enc_%s(x)) == Some(x), enc_%s(x).name == %s { let e = enc_%s(x); assert(e.ch.len() == 1); }" % (n, n, n, n, n, lit(n), n))

def socot_lemmas(o):
  X = "SentenceOrColumnOrTable"
  for T, f, V in (("Sentence", "s", "Sentence"), ("Column", "c", "Column")):
    o("""proof fn lvs_%s(s: Seq<G%s>, e: El, k: int)
  requires 0 <= k <= s.len(), e.ch == sg_%s(Seq::empty(), s, s.len() as int), forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_%s(s[i])
  ensures fold_%s(A%s { %s: s.take(k), ..init_%s() }, e, k) == Some(A%s { %s: s, ..init_%s() })
  decreases s, 1int, s.len() - k
{ %s lsg_%s(Seq::empty(), s, s.len() as int);
  if k < s.len() { assert(wf_%s(s[k])); lem_%s(s[k]); assert(e.ch[k] == Nd::E(enc_%s(s[k]))); assert(s.take(k).push(s[k]) =~= s.take(k + 1)); lvs_%s(s, e, k + 1); }
  else { assert(s.take(k) =~= s); } }""" % (T, T, T, T, X, X, f, X, X, f, X, lits_block(["Sentence", "Column", "Table"]), T, T, T, T, T))
  o("""pub proof fn lem_%s(x: G%s, name: Seq<char>) requires wf_%s(x) ensures dec_%s(enc_%s(x, name)) == Some(x), enc_%s(x, name).name == name decreases x, 2int
{ %s let e = enc_%s(x, name); match x {
  G%s::Sentence(s) => { lvs_Sentence(s, e, 0); assert(s.take(0) =~= Seq::empty()); }
  G%s::Column(s) => { lvs_Column(s, e, 0); assert(s.take(0) =~= Seq::empty()); }
  G%s::Table(t) => { lem_Table(t); assert(e.ch.len() == 1); assert(e.ch[0] == Nd::E(enc_Table(t))); let a = A%s { t: Some(x), ..init_%s() }; assert(fold_%s(a, e, 1) == Some(a)); } } }""" % (X, X, X, X, X, X, lits_block(["Sentence", "Column", "Table"]), X, X, X, X, X, X, X))

def sge_lemma(o, X, g):
  f = "sge_%s_%s" % (X, g.field)
  nd = "Nd::E(El { ch: Seq::empty().push(nd_%s(s[k])), ..mkEl(%s) })" % (g.ty, lit(g.tag))
  o("""pub proof fn l%s(b: Seq<Nd>, s: Seq<G%s>, n: int) requires 0 <= n <= s.len()
  ensures ({ let r = %s(b, s, n); &&& r.len() == b.len() + n &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] r[i] == b[i]
    &&& forall|k: int| 0 <= k < n ==> r[b.len() + k] == Nd::E(El { ch: Seq::empty().push(#[trigger] nd_%s(s[k])), ..mkEl(%s) }) }) decreases n
{ reveal(%s); if n > 0 { l%s(b, s, n - 1); } }""" % (f, g.ty, f, g.ty, lit(g.tag), f, f))

def seg_fact(X, j, g):
  """call giving the shape of p_X_{j+1} over p_X_j"""
  f = "x." + g.field
  if g.card in ("vec", "uni", "pre", "post"): return lsg_call("p_%s_%d(x)" % (X, j), g.ty, f, f + ".len() as int", g.tag)
  if g.card == "unieach": return "reveal(sge_%s_%s); lsge_%s_%s(p_%s_%d(x), %s, %s.len() as int);" % (X, g.field, X, g.field, X, j, f, f)
  return ""
def size(g):
  f = "x." + g.field
  if g.card in ("vec", "uni", "pre", "post", "unieach"): return f + ".len()"
  if g.card in ("opt", "optwrap1"): return "(if %s is Some { 1int } else { 0int })" % f
  if g.card == "dfltomit": return "(if %s.contents.len() > 0 { 1int } else { 0int })" % f
  return "1int"
def node(X, g, k="k"):
  """the node of the group at offset k"""
  f = "x." + g.field
  if g.card in ("vec", "uni", "pre", "post"): return nd_of(g.ty, g.tag, "%s[%s]" % (f, k))
  if g.card == "unieach": return "Nd::E(El { ch: Seq::empty().push(nd_%s(%s[%s])), ..mkEl(%s) })" % (g.ty, f, k, lit(g.tag))
  if g.card in ("one", "dflt", "first", "dfltomit"): return enc_nd(g.ty, g.tag, f)
  if g.card == "opt": return enc_nd(g.ty, g.tag, f + "->Some_0")
  if g.card == "optwrap1": return "Nd::E(El { ch: Seq::empty().push(%s), ..mkEl(%s) })" % (enc_nd(g.ty, g.tag, f + "->Some_0"), lit(g.tag))
  if g.card in ("wrapvec", "firstwrap"): return "Nd::E(El { ch: %s, ..mkEl(%s) })" % (seg_call("Seq::empty()", g.ty, f, f + ".len() as int", g.tag), lit(g.tag))
  raise Exception(g.card)

def final(g):
  f = "x." + g.field
  return "Some(%s)" % f if g.card == "one" else f

def positions(o, X):
  t = TYPES[X]; body = t["body"]; n = len(body)
  for j in range(n, 0, -1):
    nxt = ""
    if j < n: nxt = "%s kp_%s_%d(x, i);" % (seg_fact(X, j, body[j]), X, j + 1)
    o("proof fn kp_%s_%d(x: G%s, i: int) requires 0 <= i < p_%s_%d(x).len() ensures i < p_%s_%d(x).len(), p_%s_%d(x)[i] == p_%s_%d(x)[i] { %s }" % (X, j, X, X, j, X, n, X, n, X, j, nxt))
  for j, g in enumerate(body):
    o("""proof fn el_%s_%d(x: G%s, k: int)
  ensures p_%s_%d(x).len() == p_%s_%d(x).len() + %s, 0 <= k < %s ==> p_%s_%d(x).len() + k < p_%s_%d(x).len() && p_%s_%d(x)[p_%s_%d(x).len() + k] == %s
{ %s if 0 <= k < %s { kp_%s_%d(x, p_%s_%d(x).len() + k); } }""" % (X, j, X, X, j + 1, X, j, size(g), size(g), X, j, X, n, X, n, X, j, node(X, g), seg_fact(X, j, g), size(g), X, j + 1, X, j))

def wrap_lemma(o, X, j, g):
  """element children of the wrapper of group g decode back"""
  W = wrapname(X, g); f = "x." + g.field
  if g.card in ("wrapvec", "firstwrap"):
    tags = [tag for _, tag, ty in variants_n(g.ty) if ty] if is_union(g.ty) else []
    o("""proof fn lwv_%s_%d(x: G%s, c: El, k: int)
  requires wf_%s(x), 0 <= k <= %s.len(), c.ch == %s
  ensures fold_%s(%s.take(k), c, k) == Some(%s) decreases x, 0int, %s.len() - k
{ %s %s
  if k < %s.len() { assert(c.ch[k] == %s); %s assert(wf_%s(%s[k])); %s st_%s(%s.take(k), c, k); assert(%s.take(k).push(%s[k]) =~= %s.take(k + 1)); lwv_%s_%d(x, c, k + 1); }
  else { assert(%s.take(k) =~= %s); se_%s(%s, c, k); } }""" % (X, j, X, X, f, seg_call("Seq::empty()", g.ty, f, f + ".len() as int", g.tag), W, f, f, f,
      lits_block(tags), lsg_call("Seq::empty()", g.ty, f, f + ".len() as int", g.tag),
      f, nd_of(g.ty, g.tag, f + "[k]"), fuel(g.ty), g.ty, f, child_any(g.ty, f + "[k]", g.tag), W, f, f, f, f, X, j, f, f, W, f))

def rt_standard(o, X):
  t = TYPES[X]; body = t["body"]; n = len(body)
  head = any(g.kw.get("head") for g in body)
  lits_ = lits_block(lits_of_type(X))
  positions(o, X)
  ename = ", name: Seq<char>" if X in NAMED else ""
  earg = ", name" if X in NAMED else ""
  def acc(j, cur=None, bodyf=None):
    fs = []
    for i, g in enumerate(body):
      fs.append("%s: %s" % (g.field, cur if (i == j and cur is not None) else final(g) if i < j else acc_init(g)))
    if head: fs.append("body: " + (bodyf or "false"))
    return "A%s { %s }" % (X, ", ".join(fs))
  def bodyf(j, k=None):
    """value of the body flag before element k of group j"""
    if not head: return None
    r = []
    for i, g in enumerate(body):
      if g.kw.get("head"): continue
      if i < j: r.append("(%s > 0)" % size(g))
      if i == j and k is not None: r.append("(%s > 0)" % k)
    return " || ".join(r) if r else "false"
  st = lambda a, e, i: "" if head else "st_%s(%s, %s, %s);" % (X, a, e, i)
  E = "El { name: nm, attrs: at, ch: p_%s_%d(x) }" % (X, n)
  for j, g in enumerate(body):
    f = "x." + g.field
    P = "p_%s_%d(x).len()" % (X, j)
    if g.card in ("wrapvec",): wrap_lemma(o, X, j, g)
    if g.card == "unieach": sge = sge_lemma(o, X, g)
  # sge lemmas are needed by positions: they are proof fns, order does not matter
  for j, g in enumerate(body):
    f = "x." + g.field
    P, Q = "p_%s_%d(x).len() as int" % (X, j), "p_%s_%d(x).len() as int" % (X, j + 1)
    A0 = acc(j, None, bodyf(j)); A1 = acc(j + 1, None, bodyf(j + 1))
    sig = "proof fn lg_%s_%d(x: G%s, e: El%%s) requires wf_%s(x), e.ch == p_%s_%d(x)%%s ensures fold_%s(%%s, e, %%s) == fold_%s(%s, e, %s) decreases x, %%s" % (X, j, X, X, X, n, X, X, A1, Q)
    if g.card in ("vec", "uni", "pre", "post", "unieach"):
      Ak = acc(j, f + ".take(k)", bodyf(j, "k"))
      lets = ""
      ch = child_any(g.ty, f + "[k]", g.tag)
      if g.card == "unieach":
        W = wrapname(X, g)
        lets = "let c = e.ch[%s + k]->E_0; assert(c.ch.len() == 1); st_%s(%s.take(k), c, 0); se_%s(%s.take(k).push(%s[k]), c, 1);" % (P, W, f, W, f, f)
      o((sig % (", k: int", ", 0 <= k <= %s.len()" % f, Ak, P + " + k", "1int, %s.len() - k" % f)) + """
{ %s el_%s_%d(x, k);
  if k < %s.len() { %s assert(wf_%s(%s[k])); %s %s assert(%s.take(k).push(%s[k]) =~= %s.take(k + 1)); %s lg_%s_%d(x, e, k + 1); }
  else { assert(%s.take(k) =~= %s); } }""" % (lits_, X, j, f, fuel(g.ty), base(g.ty), f, ch, lets, f, f, f, st(Ak, "e", P + " + k"), X, j, f, f))
      continue
    inner = ""
    if g.card in ("one",): inner = "%s %s" % (child(g.ty, f, g.tag), st(A0, "e", P))
    elif g.card == "dflt": inner = "%s %s" % (child(g.ty, f, g.tag), st(A0, "e", P))
    elif g.card == "opt": inner = "if let Some(v) = %s { %s %s }" % (f, child(g.ty, "v", g.tag), st(A0, "e", P))
    elif g.card == "dfltomit": inner = "if %s.contents.len() > 0 { %s %s } else { assert(%s.contents =~= Seq::empty()); }" % (f, child(g.ty, f, g.tag), st(A0, "e", P), f)
    elif g.card == "wrapvec": inner = "let c = e.ch[%s]->E_0; lwv_%s_%d(x, c, 0); assert(%s.take(0) =~= Seq::empty()); %s" % (P, X, j, f, st(A0, "e", P))
    elif g.card == "optwrap1": inner = "if let Some(v) = %s { %s let c = e.ch[%s]->E_0; assert(c.ch.len() == 1); %s }" % (f, child(g.ty, "v", g.tag), P, st(A0, "e", P))
    else: raise Exception(g.card)
    o((sig % ("", "", A0, P, "1int, 0int")) + "\n{ %s el_%s_%d(x, 0); %s }" % (lits_, X, j, inner))
  # whole
  calls = ""
  for j, g in enumerate(body):
    f = "x." + g.field
    if g.card in ("vec", "uni", "pre", "post", "unieach"): calls += " assert(%s.take(0) =~= Seq::empty()); lg_%s_%d(x, e, 0);" % (f, X, j)
    else: calls += " lg_%s_%d(x, e);" % (X, j)
  endf = acc(n, None, bodyf(n))
  se = "" if head else "se_%s(%s, e, p_%s_%d(x).len() as int);" % (X, endf, X, n)
  if X == "Contents":
    o("pub proof fn lem_Contents_e(x: GContents, e: El) requires wf_Contents(x), e.ch == p_Contents_1(x) ensures dec_Contents(e) == Some(x) decreases x, 2int\n{ %s %s }" % (calls, se))
    o("pub proof fn lem_Contents(x: GContents, name: Seq<char>) requires wf_Contents(x) ensures dec_Contents(enc_Contents(x, name)) == Some(x), enc_Contents(x, name).name == name, enc_Contents(x, name).ch == p_Contents_1(x) decreases x, 3int\n{ lem_Contents_e(x, enc_Contents(x, name)); }")
    o("pub proof fn lem_Contents_any(x: GContents, name: Seq<char>, e: El) requires wf_Contents(x), e.ch == enc_Contents(x, name).ch ensures dec_Contents(e) == Some(x) decreases x, 3int { lem_Contents_e(x, e); }")
    return
  lat = attr_lemma(o, X)
  o("pub proof fn lem_%s(x: G%s%s) requires wf_%s(x) ensures dec_%s(enc_%s(x%s)) == Some(x), enc_%s(x%s).name == %s decreases x, 2int\n{ let e = enc_%s(x%s); %s %s %s }" % (X, X, ename, X, X, X, earg, X, earg, "name" if X in NAMED else lit(TYPES[X]["tag"]), X, earg, lat, calls, se))

def rt_first(o, X):
  """types whose first child is special"""
  t = TYPES[X]; body = t["body"]; g = body[0]
  positions(o, X)
  n = len(body)
  lits_ = lits_block(lits_of_type(X))
  lat = attr_lemma(o, X)
  inner = ""
  if g.card == "firstwrap":
    wrap_lemma(o, X, 0, g)
    inner = "let c = e.ch[0]->E_0; lwv_%s_0(x, c, 0); assert(x.%s.take(0) =~= Seq::empty());" % (X, g.field)
  else: inner = child(g.ty, "x." + g.field, g.tag)
  rest = ""
  if n > 1:
    r = body[1]; f = "x." + r.field
    o("""proof fn lr_%s(x: G%s, e: El, k: int) requires wf_%s(x), e.ch == p_%s_2(x), 0 <= k <= %s.len() ensures fold_%s(%s.take(k), e, 1 + k) == Some(%s) decreases x, 1int, %s.len() - k
{ %s el_%s_0(x, 0); el_%s_1(x, k);
  if k < %s.len() { %s assert(wf_%s(%s[k])); %s st_%s(%s.take(k), e, 1 + k); assert(%s.take(k).push(%s[k]) =~= %s.take(k + 1)); lr_%s(x, e, k + 1); }
  else { assert(%s.take(k) =~= %s); se_%s(%s, e, 1 + k); } }""" % (X, X, X, X, f, X, f, f, f, lits_, X, X, f, fuel(r.ty), base(r.ty), f, child_any(r.ty, f + "[k]", r.tag), X, f, f, f, f, X, f, f, X, f))
    rest = "lr_%s(x, e, 0); assert(%s.take(0) =~= Seq::empty());" % (X, f)
  o("pub proof fn lem_%s(x: G%s) requires wf_%s(x) ensures dec_%s(enc_%s(x)) == Some(x), enc_%s(x).name == %s decreases x, 2int\n{ let e = enc_%s(x); %s el_%s_0(x, 0); %s %s %s }" % (X, X, X, X, X, X, lit(t["tag"]), X, lits_, X, lat, inner, rest))

def rt_exec(o, X):
  """the property itself, as a client of the two contracts"""
  r, w = X + "::parser", X
  call = "x.to_xml_element_with_name(name)" if X in NAMED else "x.to_xml_element()"
  o("// FN %s::roundtrip\npub fn rt_%s(x: &%s%s) -> (r: Result<%s>) requires wf_%s(v_%s(*x)) ensures r is Ok, v_%s(r->Ok_0) == v_%s(*x)\n{ let e = %s; proof { lem_%s(v_%s(*x)%s); } %s::parser(&e) }\n// ENDFN" % (X, X, X, ", name: &str" if X in NAMED else "", X, X, X, X, X, call, X, X, ", name@" if X in NAMED else "", X))

def lemmas(o, X):
  t = TYPES[X]; kinds = [g.card for g in t["body"]]
  tag = lit(t["tag"])
  if X == "Law":
    lat = attr_lemma(o, X)
    o("pub proof fn lem_Law(x: GLaw) requires wf_Law(x) ensures dec_Law(enc_Law(x)) == Some(x), enc_Law(x).name == %s { let e = enc_Law(x); %s lem_LawBody(x.law_body); lem_cat1(x.law_num); assert(e.ch.len() == 2); }" % (tag, lat))
  elif "whole" in kinds:
    g = t["body"][0]; lat = attr_lemma(o, X)
    o("pub proof fn lem_%s(x: G%s) requires wf_%s(x) ensures dec_%s(enc_%s(x)) == Some(x), enc_%s(x).name == %s decreases x, 2int { let e = enc_%s(x); %s lem_Contents(x.%s, %s); lem_Contents_any(x.%s, %s, e); }" % (X, X, X, X, X, X, tag, X, lat, g.field, tag, g.field, tag))
  elif "text" in kinds or "textc" in kinds:
    g = t["body"][0]; lat = attr_lemma(o, X)
    nm = X in NAMED
    src = "x.%s.contents" % g.field if g.card == "text" else "x." + g.field
    o("pub proof fn lem_%s(x: G%s%s) requires wf_%s(x) ensures dec_%s(enc_%s(x%s)) == Some(x), enc_%s(x%s).name == %s decreases x, 2int { let e = enc_%s(x%s); %s lem_text_e(%s, e); }" % (X, X, ", name: Seq<char>" if nm else "", X, X, X, ", name" if nm else "", X, ", name" if nm else "", "name" if nm else tag, X, ", name" if nm else "", lat, src))
  elif not t["body"]:
    lat = attr_lemma(o, X)
    o("pub proof fn lem_%s(x: G%s) requires wf_%s(x) ensures dec_%s(enc_%s(x)) == Some(x), enc_%s(x).name == %s { let e = enc_%s(x); %s }" % (X, X, X, X, X, X, tag, X, lat))
  elif kinds[0] in ("firstwrap", "first"): rt_first(o, X)
  else: rt_standard(o, X)
