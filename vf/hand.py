"""Hand-written specifications: inline text, numbers, the sentence/column/table
choice, and the attribute helpers."""
from gen import *
from execgen import *

def spec_text(o):
  # TextElement union, Text, Ruby, Sup, Sub
  gen_union(o, "TextElement")
  o("pub ghost struct GText { pub contents: Seq<GTextElement> }")
  o("pub open spec fn v_Text(x: Text) -> GText decreases x { GText { contents: vs_TextElement(x.contents@) } }")
  gen_containers(o, "Text", extra="lemma_v_Text, lemma_dec_Text")
  o("pub broadcast proof fn lemma_v_Text(x: Text) ensures #[trigger] v_Text(x) == (GText { contents: vs_TextElement(x.contents@) }) { reveal(vs_TextElement); }")
  o("pub open spec fn wf_Text(x: GText) -> bool decreases x { forall|i: int| 0 <= i < x.contents.len() ==> wf_TextElement(#[trigger] x.contents[i]) }")
  r = ""
  for var, tag, ty in TEXTUNION:
    if ty: r += "if c.name == %s { match dec_%s(c) { None => fold_text(a, s, i + 1), Some(v) => fold_text(a.push(GTextElement::%s(v)), s, i + 1) } } else " % (lit(tag), ty, var)
  o("""pub open spec fn fold_text(a: Seq<GTextElement>, s: Seq<Nd>, i: int) -> Seq<GTextElement> decreases s, s.len() - i {
  if i < 0 || i >= s.len() { a } else { match s[i] { Nd::E(c) => %s{ fold_text(a, s, i + 1) }, Nd::T(t) => fold_text(a.push(GTextElement::Text(t)), s, i + 1), _ => fold_text(a, s, i + 1) } }
}""" % r)
  o("pub open spec fn dec_Text(e: El) -> GText decreases e, e.ch.len() + 1 { GText { contents: fold_text(Seq::empty(), e.ch, 0) } }")
  o("pub open spec fn enc_Text(x: GText, name: Seq<char>) -> El decreases x, 1000int { El { name: name, attrs: Map::empty(), ch: sg_TextElement(Seq::empty(), x.contents, x.contents.len() as int) } }")
  o("pub open spec fn sg_Text(b: Seq<Nd>, s: Seq<GText>, n: int, name: Seq<char>) -> Seq<Nd> decreases s, n { if n <= 0 { b } else if n > s.len() { b } else { sg_Text(b, s, n - 1, name).push(Nd::E(enc_Text(s[n - 1], name))) } }")
  gen_seg_lemma(o, "Text", "Nd::E(#[trigger] enc_Text(s[k], name))", named=True)
  o("pub open spec fn cat_text(s: Seq<Nd>, n: int) -> Seq<char> decreases n { if n <= 0 || n > s.len() { Seq::empty() } else { match s[n - 1] { Nd::T(t) => cat_text(s, n - 1) + t, _ => cat_text(s, n - 1) + Seq::<char>::empty() } } }")
  o("pub broadcast proof fn lemma_dec_Text(e: Element) ensures dec_Text(#[trigger] vE(e)) == (GText { contents: fold_text(Seq::empty(), vNs(e.children@), 0) }) { lemma_vE(e); }")
  o("pub trait VText { spec fn vdt(&self) -> GText; }")
  o("impl VText for Text { open spec fn vdt(&self) -> GText { v_Text(*self) } }")
  o("impl VText for Option<Text> { open spec fn vdt(&self) -> GText { match self { Some(t) => v_Text(*t), None => GText { contents: Seq::empty() } } } }")
  # Ruby
  o("pub ghost struct GRuby { pub text: GText, pub ruby: Seq<char> }")
  o("pub open spec fn v_Ruby(x: Ruby) -> GRuby decreases x { GRuby { text: v_Text(x.text), ruby: x.ruby@ } }")
  o("""pub open spec fn fold_Ruby(t: Seq<GTextElement>, r: Option<Seq<char>>, e: El, i: int) -> (Seq<GTextElement>, Option<Seq<char>>) decreases e, e.ch.len() - i {
  if i < 0 || i >= e.ch.len() { (t, r) } else { match e.ch[i] { Nd::E(c) => if c.name == %s { fold_Ruby(t, Some(cat_text(c.ch, c.ch.len() as int)), e, i + 1) } else { fold_Ruby(t, r, e, i + 1) },
    Nd::T(s) => fold_Ruby(t.push(GTextElement::Text(s)), r, e, i + 1), _ => fold_Ruby(t, r, e, i + 1) } }
}""" % lit("Rt"))
  o("pub open spec fn dec_Ruby(e: El) -> Option<GRuby> decreases e, e.ch.len() + 1 { if e.name != %s { None } else { let p = fold_Ruby(Seq::empty(), None, e, 0); Some(GRuby { text: GText { contents: p.0 }, ruby: match p.1 { Some(s) => s, None => Seq::empty() } }) } }" % lit("Ruby"))
  o("pub open spec fn enc_Ruby(x: GRuby) -> El decreases x, 1000int { El { name: %s, attrs: Map::empty(), ch: sg_TextElement(Seq::empty(), x.text.contents, x.text.contents.len() as int).push(Nd::E(El { ch: Seq::empty().push(Nd::T(x.ruby)), ..mkEl(%s) })) } }" % (lit("Ruby"), lit("Rt")))
  o("pub open spec fn wf_Ruby(x: GRuby) -> bool decreases x { forall|i: int| 0 <= i < x.text.contents.len() ==> (#[trigger] x.text.contents[i]) is Text }")
  gen_containers(o, "Ruby")
  for n in ("Sup", "Sub"):
    o("pub ghost struct G%s { pub text: Seq<char> }" % n)
    o("pub open spec fn v_%s(x: %s) -> G%s decreases x { G%s { text: x.text@ } }" % (n, n, n, n))
    o("pub open spec fn dec_%s(e: El) -> Option<G%s> { if e.name != %s { None } else { Some(G%s { text: if e.ch.len() > 0 && e.ch[0] is T { e.ch[0]->T_0 } else { Seq::empty() } }) } }" % (n, n, lit(n), n))
    o("pub open spec fn enc_%s(x: G%s) -> El { El { name: %s, attrs: Map::empty(), ch: Seq::empty().push(Nd::T(x.text)) } }" % (n, n, lit(n)))
    o("pub open spec fn wf_%s(x: G%s) -> bool { true }" % (n, n))
    gen_containers(o, n)

def spec_socot(o):
  X = "SentenceOrColumnOrTable"
  o("pub ghost enum G%s { Sentence(Seq<GSentence>), Column(Seq<GColumn>), Table(GTable) }" % X)
  o("pub open spec fn v_%s(x: %s) -> G%s decreases x { match x { %s::Sentence(v) => G%s::Sentence(vs_Sentence(v@)), %s::Column(v) => G%s::Column(vs_Column(v@)), %s::Table(v) => G%s::Table(v_Table(v)) } }" % ((X,) * 9))
  o("pub ghost struct A%s { pub s: Seq<GSentence>, pub c: Seq<GColumn>, pub t: Option<G%s> }" % (X, X))
  o("pub open spec fn init_%s() -> A%s { A%s { s: Seq::empty(), c: Seq::empty(), t: None } }" % (X, X, X))
  o("""pub open spec fn fold_%s(a: A%s, e: El, i: int) -> Option<A%s> decreases e, e.ch.len() - i {
  if i < 0 || i >= e.ch.len() { Some(a) } else { match e.ch[i] { Nd::E(c) =>
    if c.name == %s { match dec_Sentence(c) { None => None, Some(v) => fold_%s(A%s { s: a.s.push(v), ..a }, e, i + 1) } }
    else if c.name == %s { match dec_Column(c) { None => None, Some(v) => fold_%s(A%s { c: a.c.push(v), ..a }, e, i + 1) } }
    else if c.name == %s { match dec_Table(c) { None => None, Some(v) => fold_%s(A%s { t: Some(G%s::Table(v)), ..a }, e, i + 1) } }
    else { None }, _ => fold_%s(a, e, i + 1) } }
}""" % (X, X, X, lit("Sentence"), X, X, lit("Column"), X, X, lit("Table"), X, X, X, X))
  o("pub open spec fn dec_%s(e: El) -> Option<G%s> decreases e, e.ch.len() + 1 { match fold_%s(init_%s(), e, 0) { None => None, Some(a) => if a.c.len() > 0 { Some(G%s::Column(a.c)) } else if a.s.len() > 0 { Some(G%s::Sentence(a.s)) } else { a.t } } }" % ((X,) * 6))
  o("""pub open spec fn enc_%s(x: G%s, name: Seq<char>) -> El decreases x, 1000int { El { name: name, attrs: Map::empty(), ch: match x {
    G%s::Sentence(s) => sg_Sentence(Seq::empty(), s, s.len() as int), G%s::Column(s) => sg_Column(Seq::empty(), s, s.len() as int), G%s::Table(t) => Seq::empty().push(Nd::E(enc_Table(t))) } } }""" % ((X,) * 5))
  o("""pub open spec fn wf_%s(x: G%s) -> bool decreases x { match x {
    G%s::Sentence(s) => s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_Sentence(s[i])), G%s::Column(s) => s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_Column(s[i])), G%s::Table(t) => wf_Table(t) } }""" % ((X,) * 5))
  o("pub open spec fn vo_%s(o: Option<%s>) -> Option<G%s> decreases o { match o { None => None, Some(x) => Some(v_%s(x)) } }" % ((X,) * 4))

def spec_num(o):
  o("pub ghost struct GArticleNumber { pub base_number: usize, pub eda_numbers: Seq<usize>, pub range_end_numbers: Seq<usize> }")
  o("pub open spec fn v_ArticleNumber(x: ArticleNumber) -> GArticleNumber { GArticleNumber { base_number: x.base_number, eda_numbers: x.eda_numbers@, range_end_numbers: x.range_end_numbers@ } }")
  o("pub open spec fn vo_ArticleNumber(o: Option<ArticleNumber>) -> Option<GArticleNumber> { match o { None => None, Some(x) => Some(v_ArticleNumber(x)) } }")
  o("pub open spec fn vo_String(o: Option<String>) -> Option<Seq<char>> { match o { None => None, Some(x) => Some(x@) } }")
  o("""pub closed spec fn app_num(s: Seq<char>, l: Seq<usize>, lo: int, hi: int) -> Seq<char> decreases hi { if hi <= lo || hi <= 0 { s } else { app_num(s, l, lo, hi - 1).push('_') + show_usize(l[hi - 1]) } }
pub closed spec fn show_num(n: GArticleNumber) -> Seq<char> {
  let a = app_num(show_usize(n.base_number), n.eda_numbers, 0, n.eda_numbers.len() as int);
  if n.range_end_numbers.len() == 0 { a } else { app_num(a.push(':') + show_usize(n.range_end_numbers[0]), n.range_end_numbers, 1, n.range_end_numbers.len() as int) }
}
/// the numbers parts[i..] read, after the numbers a
pub closed spec fn fold_nums(a: Seq<usize>, parts: Seq<Seq<char>>, i: int) -> Option<Seq<usize>> decreases parts.len() - i {
  if i < 0 || i >= parts.len() { Some(a) } else { match parse_usize(parts[i]) { Some(n) => fold_nums(a.push(n), parts, i + 1), None => None } }
}
pub open spec fn st_num(b: Option<usize>, e: Seq<usize>) -> Seq<usize> { (match b { None => Seq::<usize>::empty(), Some(b) => seq![b] }) + e }
pub broadcast proof fn lemma_st_push(b: Option<usize>, e: Seq<usize>, n: usize) ensures #[trigger] st_num(b, e.push(n)) == st_num(b, e).push(n) { assert(st_num(b, e.push(n)) =~= st_num(b, e).push(n)); }
pub broadcast proof fn lemma_st_first(n: usize, e: Seq<usize>) ensures e.len() == 0 ==> #[trigger] st_num(Some(n), e) == st_num(None, e).push(n) { if e.len() == 0 { assert(st_num(Some(n), e) =~= st_num(None, e).push(n)); } }
pub broadcast proof fn lemma_st_skip(n: usize, e: Seq<usize>) ensures (#[trigger] st_num(Some(n), e)).skip(1) == e, st_num(Some(n), e)[0] == n { assert(st_num(Some(n), e).skip(1) =~= e); }
pub broadcast group bg_Num { lemma_st_push, lemma_st_first, lemma_st_skip }
pub closed spec fn parse_num(s: Seq<char>) -> Option<GArticleNumber> {
  let cs = split_spec(s, ':');
  if cs.len() > 2 { None } else { match fold_nums(Seq::empty(), split_spec(cs[0], '_'), 0) { None => None, Some(l) =>
    if cs.len() < 2 { Some(GArticleNumber { base_number: l[0], eda_numbers: l.skip(1), range_end_numbers: Seq::empty() }) }
    else { match fold_nums(Seq::empty(), split_spec(cs[1], '_'), 0) { None => None, Some(r) => Some(GArticleNumber { base_number: l[0], eda_numbers: l.skip(1), range_end_numbers: r }) } } } }
}
proof fn lemma_app_cat(p: Seq<char>, s: Seq<char>, l: Seq<usize>, lo: int, hi: int) requires 0 <= lo ensures app_num(p + s, l, lo, hi) == p + app_num(s, l, lo, hi) decreases hi
{ if hi > lo { lemma_app_cat(p, s, l, lo, hi - 1); assert(app_num(p + s, l, lo, hi) =~= p + app_num(s, l, lo, hi)); } }
proof fn lemma_app_no(x: usize, l: Seq<usize>, lo: int, hi: int) requires 0 <= lo, hi <= l.len()
  ensures forall|i: int| 0 <= i < app_num(show_usize(x), l, lo, hi).len() ==> #[trigger] app_num(show_usize(x), l, lo, hi)[i] != ':', app_num(show_usize(x), l, lo, hi).len() > 0 decreases hi
{ lemma_usize_text(x); if hi > lo { lemma_app_no(x, l, lo, hi - 1); lemma_usize_text(l[hi - 1]); } }
proof fn lemma_app_split(x: usize, l: Seq<usize>, lo: int, hi: int) requires 0 <= lo <= hi <= l.len()
  ensures split_spec(app_num(show_usize(x), l, lo, hi), '_') == seq![show_usize(x)] + Seq::new((hi - lo) as nat, |i: int| show_usize(l[lo + i])) decreases hi
{
  let e = seq![show_usize(x)] + Seq::new((hi - lo) as nat, |i: int| show_usize(l[lo + i]));
  lemma_usize_text(x);
  if hi > lo {
    lemma_app_split(x, l, lo, hi - 1); lemma_usize_text(l[hi - 1]);
    lemma_split_sep(app_num(show_usize(x), l, lo, hi - 1), show_usize(l[hi - 1]), '_');
    assert(split_spec(app_num(show_usize(x), l, lo, hi), '_') =~= e);
  } else { lemma_split_one(show_usize(x), '_'); assert(seq![show_usize(x)] =~= e); }
}
proof fn lemma_fold_show(a: Seq<usize>, l: Seq<usize>, parts: Seq<Seq<char>>, i: int)
  requires 0 <= i <= l.len(), parts.len() == l.len(), forall|k: int| 0 <= k < l.len() ==> #[trigger] parts[k] == show_usize(l[k])
  ensures fold_nums(a, parts, i) == Some(a + l.skip(i)) decreases l.len() - i
{
  if i < l.len() { lemma_usize_text(l[i]); lemma_fold_show(a.push(l[i]), l, parts, i + 1); assert(a.push(l[i]) + l.skip(i + 1) =~= a + l.skip(i)); }
  else { assert(a + l.skip(i) =~= a); }
}
pub proof fn lemma_num_text(n: GArticleNumber) ensures parse_num(show_num(n)) == Some(n), show_num(n).len() > 0
{
  let a = app_num(show_usize(n.base_number), n.eda_numbers, 0, n.eda_numbers.len() as int);
  let l = seq![n.base_number] + n.eda_numbers;
  lemma_app_no(n.base_number, n.eda_numbers, 0, n.eda_numbers.len() as int);
  lemma_app_split(n.base_number, n.eda_numbers, 0, n.eda_numbers.len() as int);
  lemma_fold_show(Seq::empty(), l, split_spec(a, '_'), 0);
  assert(Seq::<usize>::empty() + l.skip(0) =~= l);
  assert(l.skip(1) =~= n.eda_numbers);
  lemma_split_one(a, ':');
  let r = n.range_end_numbers;
  if r.len() == 0 { assert(n.range_end_numbers =~= Seq::empty()); }
  else {
    let d = app_num(show_usize(r[0]), r, 1, r.len() as int);
    lemma_app_cat(a.push(':'), show_usize(r[0]), r, 1, r.len() as int);
    lemma_app_no(r[0], r, 1, r.len() as int);
    lemma_split_sep(a, d, ':');
    lemma_app_split(r[0], r, 1, r.len() as int);
    assert(seq![show_usize(r[0])] + Seq::new((r.len() - 1) as nat, |i: int| show_usize(r[1 + i])) =~= Seq::new(r.len(), |i: int| show_usize(r[i])));
    lemma_fold_show(Seq::empty(), r, split_spec(d, '_'), 0);
    assert(Seq::<usize>::empty() + r.skip(0) =~= r);
  }
}
pub proof fn lemma_num_empty() ensures parse_num(Seq::<char>::empty()) is None
{
  let e = Seq::<char>::empty();
  lemma_split_one(e, ':'); lemma_split_one(e, '_'); lemma_parse_empty();
  assert(fold_nums(Seq::empty(), seq![e], 0) is None);
}""")

NUMCON = {
 "ArticleNumber::from_num_str": dict(ensures=["match r { Ok(x) => parse_num(num_str@) == Some(v_ArticleNumber(x)), Err(_) => parse_num(num_str@) is None }"]),
 "ArticleNumber::num_str": dict(ensures=["r@ == show_num(v_ArticleNumber(*self))"]),
 "ArticleNumber::from_str": dict(ensures=["match r { Ok(x) => parse_num(s@) == Some(v_ArticleNumber(x)), Err(_) => parse_num(s@) is None }"]),
}

def num_client(o):
  o("""// FN ArticleNumber::roundtrip
pub fn rt_ArticleNumber(n: &ArticleNumber) -> (r: Result<ArticleNumber>) ensures r is Ok, v_ArticleNumber(r->Ok_0) == v_ArticleNumber(*n)
{ proof { lemma_num_text(v_ArticleNumber(*n)); } let s = n.num_str(); ArticleNumber::from_num_str(s.as_str()) }
// ENDFN
pub proof fn lemma_num_exact(a: GArticleNumber, b: GArticleNumber) ensures show_num(a) == show_num(b) ==> a == b { lemma_num_text(a); lemma_num_text(b); }""")

def num_fn(f, mode):
  fn = Fn(f)
  con = dict(NUMCON[f["key"]]) if mode != "safe" else {}
  sf = mode != "safe"
  ps = [p["name"] for p in f["params"] if "name" in p]
  fn.start = "lemma_split_len(%s@, ':');" % ps[0] if ps else ""
  for l in fn.loops:
    it = fn.iter_of(l)
    evs = [e for e in fn.meta["events"] if l in e["loops"]]
    fn.dec[l] = "%s.v@.len() - %s.pos" % (it, it)
    fn.inv[l] = ["%s.wf()" % it]
    fn.pre[l] = "let ghost i%d = %s;" % (l, it)
    fn.inv[l] += ["%s.v@ == i%d.v@" % (it, l), "i%d.pos <= %s.pos" % (l, it)]
    if not sf: continue
    if not ps:
      t = [e["target"] for e in evs if e["how"] in ("vx_push_str", "vx_push_char")]
      if not t: raise Lost("loop %d of %s" % (l, f["key"]))
      fn.pre[l] += " let ghost g%d = %s@;" % (l, t[0])
      fn.inv[l].append("%s@ == app_num(g%d, %s.v@, i%d.pos as int, %s.pos as int)" % (t[0], l, it, l, it))
    else:
      vs = [e["target"] for e in evs if e["how"] == "push"]
      bs = [e["target"] for e in evs if e["how"] == "assign" and e["val"].startswith("Some")]
      if not vs: raise Lost("loop %d of %s" % (l, f["key"]))
      st = "%s@" % vs[0]
      if bs:
        st = "st_num(%s, %s@)" % (bs[0], vs[0])
        fn.inv[l].append("%s is None ==> %s@.len() == 0 && %s.pos == i%d.pos" % (bs[0], vs[0], it, l))
      fn.pre[l] += " let ghost g%d = %s; proof { assert(g%d =~= Seq::empty()); }" % (l, st, l)
      fn.inv[l] += ["%s.parts() == i%d.parts()" % (it, l), "fold_nums(Seq::empty(), %s.parts(), 0) == fold_nums(%s, %s.parts(), %s.pos as int)" % (it, st, it, it)]
  return fn, con

def helpers(f, mode):
  """contracts of the attribute helpers and error constructors"""
  k = f["key"]
  fn = Fn(f)
  con = {}
  P = [p["name"] for p in f["params"] if "name" in p]
  if k.startswith("get_attribute") and mode != "safe":
    m = "%s.attributes@" % P[0]; n = "%s@" % P[1]
    if k == "get_attribute":
      con["ensures"] = ["match r { Ok(x) => %s.contains_key(%s) && %s[%s] == x@, Err(_) => !%s.contains_key(%s) }" % (m, n, m, n, m, n)]
    elif k == "get_attribute_with_parse":
      con["ensures"] = ["match r { Ok(x) => %s.contains_key(%s) && T::vok(%s[%s]) && T::vis(%s[%s], x), Err(_) => !(%s.contains_key(%s) && T::vok(%s[%s])) }" % (m, n, m, n, m, n, m, n, m, n)]
    else:
      con["ensures"] = ["match r { Ok(Some(x)) => %s.contains_key(%s) && T::vok(%s[%s]) && T::vis(%s[%s], x), Ok(None) => !%s.contains_key(%s), Err(_) => %s.contains_key(%s) && !T::vok(%s[%s]) }" % (m, n, m, n, m, n, m, n, m, n, m, n)]
  return fn, con

def text_fn(f, mode):
  k = f["key"]
  fn = Fn(f)
  con = {}
  ps = [p["name"] for p in f["params"] if "name" in p]
  sf = mode != "safe"
  fn.start = lits_block(["Ruby", "Line", "Sup", "Sub", "Rt"])
  if k == "Text::from_children":
    c = ps[0]
    if sf: con["ensures"] = ["v_Text(r) == (GText { contents: fold_text(Seq::empty(), vNs(%s@), 0) })" % c]
    con["decreases"] = "vNs(%s@), 0int" % c
    for l in fn.loops:
      it = fn.iter_of(l)
      acc = [e["base"] for e in fn.meta["events"] if e["how"] == "push" and l in e["loops"]]
      fn.inv[l] = ["%s.wf()" % it, "%s.v@ == %s@" % (it, c)]
      fn.head[l] = "lemma_node(%s.v@, %s.pos as int);" % (it, it)
      if sf:
        tgt = [e["target"] for e in fn.meta["events"] if e["how"] == "push" and l in e["loops"]]
        if not tgt: raise Lost("Text::from_children collects nothing")
        fn.inv[l].append("fold_text(Seq::empty(), vNs(%s@), 0) == fold_text(vs_TextElement(%s@), vNs(%s@), %s.pos as int)" % (c, tgt[0], c, it))
      fn.dec[l] = "%s.v@.len() - %s.pos" % (it, it)
  elif k in ("Text::to_children", "Text::to_xml_element_with_name"):
    con["decreases"] = "*self"
    if sf and k == "Text::to_children": con["ensures"] = ["vNs(r@) == sg_TextElement(Seq::empty(), v_Text(*self).contents, v_Text(*self).contents.len() as int)"]
    if sf and k != "Text::to_children":
      rhs = "enc_Text(v_Text(*self), %s@)" % ps[0]
      con["ensures"] = ["vE(r).name == %s.name" % rhs, "vE(r).attrs =~= %s.attrs" % rhs, "vE(r).ch == %s.ch" % rhs, "vE(r) == %s" % rhs]
    for l in fn.loops:
      it = fn.iter_of(l)
      fn.inv[l] = ["%s.wf()" % it, "%s.v@ == %s@" % (it, fn.init_of(it))]
      fn.dec[l] = "%s.v@.len() - %s.pos" % (it, it)
      if sf:
        tgt = [e["target"] for e in fn.meta["events"] if e["how"] == "push" and l in e["loops"]][0]
        if tgt.endswith(".children"):
          fn.pre[l] = "let ghost g%d = vE(%s);" % (l, tgt[:-9])
          fn.inv[l].append("vE(%s) == (El { ch: sg_TextElement(g%d.ch, vs_TextElement(%s.v@), %s.pos as int), ..g%d })" % (tgt[:-9], l, it, it, l))
        else: fn.inv[l].append("vNs(%s@) == sg_TextElement(Seq::empty(), vs_TextElement(%s.v@), %s.pos as int)" % (tgt, it, it))
  elif k in ("Ruby::parser", "Sup::parser", "Sub::parser"):
    X = k.split("::")[0]
    e = "vE(*%s)" % ps[0]
    con["decreases"] = e + ", 0int"
    fn.start += " lemma_child(*%s, 0);" % ps[0]
    if mode == "full": con["ensures"] = ["match r { Ok(x) => dec_%s(%s) == Some(v_%s(x)), Err(_) => dec_%s(%s) is None }" % (X, e, X, X, e)]
    if mode == "rt": con["ensures"] = ["dec_%s(%s) is Some ==> (r is Ok && dec_%s(%s) == Some(v_%s(r->Ok_0)))" % (X, e, X, e, X)]
    for l in fn.loops:
      it = fn.iter_of(l); src = fn.init_of(it)
      child_head(fn, l)
      fn.dec[l] = "%s.v@.len() - %s.pos" % (it, it)
      fn.inv[l] = ["%s.wf()" % it]
      if src == ps[0] + ".children" and not fn.nested(l):
        rf = result_fields(fn, "Ruby")
        T = fn.local_of(rf["text"]["base"]); R = fn.local_of(rf["ruby"]["base"])
        fn.inv[l].append("%s.v@ == %s@" % (it, src))
        if sf: fn.inv[l].append("fold_Ruby(Seq::empty(), None, %s, 0) == fold_Ruby(v_Text(%s).contents, vo_String(%s), %s, %s.pos as int)" % (e, T, R, e, it))
      else:
        m = re.search(r"let mut (__acc\d+) = vx_string_new \(\);\s*let mut %s\b" % re.escape(it), fn.body)
        if not m: raise Lost("nested loop in Ruby::parser")
        fn.inv[l].append("%s.v@ == %s@" % (it, src))
        if sf: fn.inv[l].append("%s@ == cat_text(vNs(%s.v@), %s.pos as int)" % (m.group(1), it, it))
  elif k in ("Ruby::to_xml_element", "Sup::to_xml_element", "Sub::to_xml_element"):
    X = k.split("::")[0]
    con["decreases"] = "*self"
    if sf:
      rhs = "enc_%s(v_%s(*self))" % (X, X)
      con["ensures"] = ["vE(r).name == %s.name" % rhs, "vE(r).attrs =~= %s.attrs" % rhs, "vE(r).ch == %s.ch" % rhs, "vE(r) == %s" % rhs]
    for l in fn.loops:
      it = fn.iter_of(l); src = fn.init_of(it)
      fn.inv[l] = ["%s.wf()" % it]
      fn.dec[l] = "%s.v@.len() - %s.pos" % (it, it)
      if sf:
        tgt = [e["target"] for e in fn.meta["events"] if e["how"] == "push" and l in e["loops"]][0]
        if not tgt.endswith(".children"): raise Lost("loop in Ruby::to_xml_element")
        fn.pre[l] = "let ghost g%d = vE(%s); let ghost i%d = %s.v@;" % (l, tgt[:-9], l, it)
        fn.inv[l] += ["%s.v@ == i%d" % (it, l), "vE(%s).name == g%d.name" % (tgt[:-9], l), "vE(%s).attrs == g%d.attrs" % (tgt[:-9], l), "vE(%s).ch =~= g%d.ch + vNs(%s.v@).take(%s.pos as int)" % (tgt[:-9], l, it, it)]
  else: raise Lost(k)
  return fn, con

def child_head(fn, l):
  it = fn.iter_of(l); src = fn.init_of(it)
  m = re.match(r"^(\w+)\.children$", src)
  if m: fn.head[l] = "lemma_child(*%s, %s.pos as int);" % (m.group(1), it)

def socot_fn(f, mode):
  X = "SentenceOrColumnOrTable"
  k = f["key"]
  fn = Fn(f)
  con = {}
  ps = [p["name"] for p in f["params"] if "name" in p]
  sf = mode != "safe"
  fn.start = lits_block(["Sentence", "Column", "Table"])
  if k.endswith("::from_element") or k.endswith("::parser"):
    e = "vE(*%s)" % ps[0]
    con["decreases"] = e + ", 0int"
    if mode == "full": con["ensures"] = ["match r { Ok(x) => dec_%s(%s) == Some(v_%s(x)), Err(_) => dec_%s(%s) is None }" % (X, e, X, X, e)]
    if mode == "rt": con["ensures"] = ["dec_%s(%s) is Some ==> (r is Ok && dec_%s(%s) == Some(v_%s(r->Ok_0)))" % (X, e, X, e, X)]
    fn.start += " lemma_child(*%s, 0);" % ps[0]
    for l in fn.loops:
      fn.inv[l], fn.dec[l] = socot_inv(fn, l, ps[0], mode)
      child_head(fn, l)
  else:
    con["decreases"] = "*self"
    if sf:
      rhs = "enc_%s(v_%s(*self), %s@)" % (X, X, ps[0])
      con["ensures"] = ["vE(r).name == %s.name" % rhs, "vE(r).attrs =~= %s.attrs" % rhs, "vE(r).ch == %s.ch" % rhs, "vE(r) == %s" % rhs]
    for l in fn.loops:
      it = fn.iter_of(l)
      fn.dec[l] = "%s.v@.len() - %s.pos" % (it, it)
      fn.inv[l] = ["%s.wf()" % it]
      if sf:
        pats = " ".join(fn.meta["loops"][str(l)]["pats"])
        m = re.search(r":: (Sentence|Column) \(", pats)
        if not m: raise Lost("loop %d of %s" % (l, k))
        T = m.group(1)
        ma = re.search(r"let mut (__acc\d+) = Vec :: new \(\);\s*let mut %s\b" % re.escape(it), fn.body)
        fn.pre[l] = "let ghost i%d = %s.v@;" % (l, it)
        fn.inv[l].append("%s.v@ == i%d" % (it, l))
        if ma: fn.inv[l].append("vNs(%s@) == sg_%s(Seq::empty(), vs_%s(%s.v@), %s.pos as int)" % (ma.group(1), T, T, it, it))
        else:
          tgt = push_target(fn, l)
          fn.pre[l] += " let ghost g%d = vE(%s);" % (l, tgt)
          fn.inv[l].append("vE(%s) == (El { ch: sg_%s(g%d.ch, vs_%s(%s.v@), %s.pos as int), ..g%d })" % (tgt, T, l, T, it, it, l))
  return fn, con

def socot_inv(fn, l, param, mode):
  X = "SentenceOrColumnOrTable"
  it = fn.iter_of(l); src = fn.init_of(it)
  inv = ["%s.wf()" % it, "%s.v@ == %s@" % (it, src)]
  dec = "%s.v@.len() - %s.pos" % (it, it)
  if mode != "safe":
    c = src[:-9]
    loc = {}
    for e in fn.meta["events"]:
      if l in e["loops"] and e["tags"] and e["how"] in ("push", "assign"): loc.setdefault(e["tags"][-1], e["base"])
    if set(loc) < {"Sentence", "Column", "Table"}: raise Lost("accumulators of " + fn.key)
    inv.append(guarded(mode, "fold_%s(init_%s(), vE(*%s), 0)" % (X, X, c), "fold_%s(A%s { s: vs_Sentence(%s@), c: vs_Column(%s@), t: vo_%s(%s) }, vE(*%s), %s.pos as int)" % (X, X, loc["Sentence"], loc["Column"], X, loc["Table"], c, it)))
  return inv, dec

def union_fns(f, mode):
  """Struct::parser / Struct::to_xml_element"""
  U_, k = f["self_ty"], f["key"]
  fn = Fn(f)
  con = {}
  if k.endswith("::parser"):
    e = "vE(*%s)" % f["params"][0]["name"]
    con["decreases"] = e + ", 1int"
    r = ""
    for var, tag, ty in variants_n(U_):
      r += "if %s.name == %s { match dec_%s(%s) { None => None, Some(v) => Some(G%s::%s(v)) } } else " % (e, lit(tag), ty, e, U_, var)
    d = "({ %s{ None::<G%s> } })" % (r, U_)
    if mode == "full": con["ensures"] = ["match r { Ok(x) => %s == Some(v_%s(x)), Err(_) => %s is None }" % (d, U_, d)]
    if mode == "rt": con["ensures"] = ["%s is Some ==> (r is Ok && %s == Some(v_%s(r->Ok_0)))" % (d, d, U_)]
    fn.start = lits_block([tag for _, tag, ty in variants_n(U_) if ty])
  else:
    con["decreases"] = "*self"
    if mode != "safe": con["ensures"] = ["Nd::E(vE(r)) == nd_%s(v_%s(*self))" % (U_, U_)]
  return fn, con

def enum_fn(e, f, mode):
  fn = Fn(f)
  con = {}
  ps = [p["name"] for p in f["params"] if "name" in p]
  if mode != "safe":
    fn.start = lits_block([t for _, t in ENUMS[e][1]])
    if f["key"].endswith("::from_attribute"): con["ensures"] = ["r == (match %s { Some(s) => ep_%s(s@), None => None })" % (ps[0], e)]
    else: con["ensures"] = ["r@ == es_%s(*self)" % e]
  return fn, con
