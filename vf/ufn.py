"""C14, C15, C16: the functions of src/utils.rs (and Text::to_string) under contract.

Specifications are folds over the value: `cat(s, n, c)` concatenates what each of the first n
elements contributes (`el`, chosen by the element's type and the kind of result).  Every loop
invariant has the form `holds(ACC, ACC-before-the-loop, slice, position, context)`, chosen by
the accumulator's type, so it does not depend on how the code is laid out."""
import re
from gen import *
from execgen import *
import build as B

LV = ["part", "chapter", "section", "subsection", "division"]
CONT = {  # container -> (title field, level, [(variant, type)])
  "Part": ("part_title", 1, "PartContents"), "Chapter": ("chapter_title", 2, "ChapterContents"), "Section": ("section_title", 3, "SectionContents"),
  "Subsection": ("subsection_title", 4, "SubsectionContents"), "Division": ("division_title", 5, "Article")}
MAIN = {"MainProvision": "MainProvisionContents", "SupplProvision": "SupplProvisionChildrenElement"}
SUB = ["Subitem%d" % i for i in range(1, 11)]

KEYS = ["Text::to_string", "TextWithWritingMode::to_string", "sentence_element_to_str", "table_to_str", "text_info_list_from_paragraph", "text_from_article", "text_from_paragraph_list",
  "with_number_article_list_from_main_provision", "with_number_article_list_from_suppl_provision", "article_list_from_main_provision", "article_list_from_suppl_provision",
  "toc_list_from_main_provision", "toc_list_from_suppl_provision"]
KEYS += ["text_list_from_subitem%d" % i for i in range(1, 11)]
KEYS += [p + "_list_from_" + k.lower() for p in ("article", "toc") for k in CONT]
KEYS += ["WithNumberArticle::" + m for m in ["new", "get_article", "set_articl"] + [p + l for p in ("set_", "get_") for l in LV]]
KEYS += ["Toc::" + m for m in [p + l for p in ("set_", "get_") for l in LV + ["article", "title"]]]
EXTRA_CONTRACTS += KEYS

SPEC_BASE = """
pub ghost struct GToc { pub part: Option<ArticleNumber>, pub chapter: Option<ArticleNumber>, pub section: Option<ArticleNumber>, pub subsection: Option<ArticleNumber>, pub division: Option<ArticleNumber>, pub article: Option<ArticleNumber>, pub title: Option<Seq<char>> }
pub ghost struct GInfo { pub par: ArticleNumber, pub items: Seq<Option<ArticleNumber>>, pub text: Seq<char> }
/// what the enclosing structure contributes: the container's number and level, the item path, the heading's numbers
pub ghost struct Ctx { pub num: ArticleNumber, pub lvl: int, pub items: Seq<Option<ArticleNumber>>, pub toc: GToc }
pub open spec fn c0() -> Ctx { Ctx { num: arbitrary(), lvl: 0, items: Seq::empty(), toc: toc0() } }
pub open spec fn cnum(num: ArticleNumber, lvl: int) -> Ctx { Ctx { num: num, lvl: lvl, ..c0() } }
pub open spec fn citems(num: ArticleNumber, items: Seq<Option<ArticleNumber>>) -> Ctx { Ctx { num: num, items: items, ..c0() } }
pub open spec fn ctoc(t: GToc) -> Ctx { Ctx { toc: t, ..c0() } }
pub open spec fn toc0() -> GToc { GToc { part: None, chapter: None, section: None, subsection: None, division: None, article: None, title: None } }

/// what one element contributes to a list of E
pub trait VElem<E> { spec fn el(&self, c: Ctx) -> Seq<E>; }
pub open spec fn cat<E, T: VElem<E>>(s: Seq<T>, n: int, c: Ctx) -> Seq<E> decreases n { if n <= 0 || n > s.len() { Seq::empty() } else { cat::<E, T>(s, n - 1, c) + s[n - 1].el(c) } }
pub open spec fn call<E, T: VElem<E>>(s: Seq<T>, c: Ctx) -> Seq<E> { cat::<E, T>(s, s.len() as int, c) }
pub broadcast proof fn lem_cat0<E, T: VElem<E>>(s: Seq<T>, n: int, c: Ctx) requires n <= 0 ensures #[trigger] cat::<E, T>(s, n, c) == Seq::<E>::empty() {}
pub broadcast proof fn lem_assoc_cat<E, T: VElem<E>>(a: Seq<E>, s: Seq<T>, n: int, c: Ctx, d: Seq<E>) ensures #[trigger] (a + (cat::<E, T>(s, n, c) + d)) == (a + cat::<E, T>(s, n, c)) + d { assert(a + (cat::<E, T>(s, n, c) + d) =~= (a + cat::<E, T>(s, n, c)) + d); }
pub broadcast proof fn lem_assoc_one<E>(a: Seq<E>, x: E, d: Seq<E>) ensures #[trigger] (a + (seq![x] + d)) == (a + seq![x]) + d { assert(a + (seq![x] + d) =~= (a + seq![x]) + d); }
pub broadcast proof fn lem_push<E>(a: Seq<E>, x: E) ensures #[trigger] a.push(x) == a + seq![x] { assert(a.push(x) =~= a + seq![x]); }
pub broadcast proof fn lem_empty_l<E>(b: Seq<E>) ensures #[trigger] (Seq::<E>::empty() + b) == b { assert(Seq::<E>::empty() + b =~= b); }
pub broadcast proof fn lem_empty_r<E>(b: Seq<E>) ensures #[trigger] (b + Seq::<E>::empty()) == b { assert(b + Seq::<E>::empty() =~= b); }
pub broadcast proof fn lem_pop<E>(a: Seq<E>, x: E) ensures #[trigger] (a + seq![x]).drop_last() == a { assert((a + seq![x]).drop_last() =~= a); }

pub broadcast proof fn lem_pop2<E>(a: Seq<E>, x: E, n: int) requires n == a.len() ensures #[trigger] (a + seq![x]).subrange(0, n) == a { assert((a + seq![x]).subrange(0, n) =~= a); }

/// the value that an element of a result list stands for
pub trait VView { type V; spec fn vv(&self) -> Self::V; /* texts do not depend on the context */ spec fn cx(c: Ctx) -> Ctx; }
pub open spec fn vseq<A: VView>(s: Seq<A>) -> Seq<A::V> { Seq::new(s.len(), |i: int| s[i].vv()) }
pub broadcast proof fn lem_vseq_add<A: VView>(a: Seq<A>, b: Seq<A>) ensures #[trigger] vseq(a + b) == vseq(a) + vseq(b) { assert(vseq(a + b) =~= vseq(a) + vseq(b)); }
pub broadcast proof fn lem_vseq_empty<A: VView>() ensures #[trigger] vseq(Seq::<A>::empty()) == Seq::<A::V>::empty() { assert(vseq(Seq::<A>::empty()) =~= Seq::empty()); }
pub broadcast proof fn lem_vseq_one<A: VView>(x: A) ensures #[trigger] vseq(seq![x]) == seq![x.vv()] { assert(vseq(seq![x]) =~= seq![x.vv()]); }
pub open spec fn gseq<A>(s: Seq<Vec<A>>) -> Seq<Seq<A>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn lem_gseq<A>(s: Seq<Vec<A>>, x: Vec<A>) ensures #[trigger] gseq(s.push(x)) == gseq(s).push(x@) { assert(gseq(s.push(x)) =~= gseq(s).push(x@)); }
pub broadcast proof fn lem_gseq0<A>() ensures #[trigger] gseq(Seq::<Vec<A>>::empty()) == Seq::<Seq<A>>::empty() { assert(gseq(Seq::<Vec<A>>::empty()) =~= Seq::empty()); }
pub broadcast group bg_Util {  lem_cat0, lem_assoc_cat, lem_assoc_one, lem_mark, lem_push, lem_empty_l, lem_empty_r, lem_pop, lem_pop2, lem_vseq_add, lem_vseq_empty, lem_vseq_one, lem_gseq, lem_gseq0 }

/// how an accumulator relates to the first n elements of the slice being read
pub trait VHold<T>: Sized { spec fn hold(&self, old: Self, s: Seq<T>, n: int, c: Ctx) -> bool; }
pub open spec fn holds<A: VHold<T>, T>(a: A, old: A, s: Seq<T>, n: int, c: Ctx) -> bool { a.hold(old, s, n, c) }
impl<T: VElem<char>> VHold<T> for String { open spec fn hold(&self, old: Self, s: Seq<T>, n: int, c: Ctx) -> bool { self@ == old@ + cat::<char, T>(s, n, c0()) } }
impl<A: VView, T: VElem<A::V>> VHold<T> for Vec<A> { open spec fn hold(&self, old: Self, s: Seq<T>, n: int, c: Ctx) -> bool { vseq(self@) == vseq(old@) + cat::<A::V, T>(s, n, A::cx(c)) } }
impl<T> VHold<T> for Vec<Option<ArticleNumber>> { open spec fn hold(&self, old: Self, s: Seq<T>, n: int, c: Ctx) -> bool { self@ == old@ } }
impl<T> VHold<T> for usize { open spec fn hold(&self, old: Self, s: Seq<T>, n: int, c: Ctx) -> bool { true } }
impl<T> VHold<T> for bool { open spec fn hold(&self, old: Self, s: Seq<T>, n: int, c: Ctx) -> bool { true } }
impl VView for String { open spec fn cx(c: Ctx) -> Ctx { c0() } type V = Seq<char>; open spec fn vv(&self) -> Seq<char> { self@ } }

// ---- strings
pub open spec fn mark(o: Seq<char>, x: Seq<char>) -> Seq<char> { (o + x) + seq!['}'] }
pub broadcast proof fn lem_mark(a: Seq<char>, o: Seq<char>, x: Seq<char>) ensures #[trigger] (a + mark(o, x)) == ((a + o) + x) + seq!['}'] { assert(a + mark(o, x) =~= ((a + o) + x) + seq!['}']); }
pub open spec fn join_spec(p: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { join_spec(p.drop_last(), sep) + sep + p.last() } }
pub open spec fn flat_spec(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { flat_spec(p.drop_last()) + p.last() } }
pub trait VxJoin { spec fn vj(&self) -> Seq<Seq<char>>;
  fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == join_spec(self.vj(), sep@);
  fn vx_concat(&self) -> (r: String) ensures r@ == flat_spec(self.vj()); }
impl VxJoin for Vec<String> { open spec fn vj(&self) -> Seq<Seq<char>> { vseq(self@) }
  #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) }
  #[verifier::external_body] fn vx_concat(&self) -> (r: String) { self.concat() } }

// ---- inline text
pub open spec fn te_plain(t: TextElement) -> Seq<char> decreases t { match t { TextElement::Sub(x) => x.text@, TextElement::Sup(x) => x.text@, TextElement::Ruby(x) => text_plain(x.text), TextElement::Line(_) => Seq::empty(), TextElement::Text(x) => x@ } }
pub open spec fn tes_plain(s: Seq<TextElement>, n: int) -> Seq<char> decreases s, n { if n <= 0 { Seq::empty() } else if n > s.len() { Seq::empty() } else { tes_plain(s, n - 1) + te_plain(s[n - 1]) } }
pub open spec fn text_plain(t: Text) -> Seq<char> decreases t { tes_plain(t.contents@, t.contents@.len() as int) }
impl VElem<char> for TextElement { open spec fn el(&self, c: Ctx) -> Seq<char> { te_plain(*self) } }
impl VElem<char> for Text { open spec fn el(&self, c: Ctx) -> Seq<char> { text_plain(*self) } }
impl VxToString for Text { open spec fn tos(&self) -> Seq<char> { text_plain(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub broadcast proof fn lem_tes(s: Seq<TextElement>, n: int, c: Ctx) requires n <= s.len() ensures #[trigger] cat::<char, TextElement>(s, n, c) == tes_plain(s, n) decreases n { if n > 0 { lem_tes(s, n - 1, c); } }
pub broadcast group bg_Text { lem_tes }
"""

SPEC_TEXT = """
impl VElem<Seq<char>> for Text { open spec fn el(&self, c: Ctx) -> Seq<Seq<char>> { seq![text_plain(*self)] } }
impl VView for (TextIndex, String) { open spec fn cx(c: Ctx) -> Ctx { c } type V = GInfo; open spec fn vv(&self) -> GInfo { GInfo { par: self.0.paragraph, items: self.0.items@, text: self.1@ } } }
impl VElem<Seq<char>> for (TextIndex, String) { open spec fn el(&self, c: Ctx) -> Seq<Seq<char>> { seq![self.1@] } }
impl VElem<char> for ContentsElement { open spec fn el(&self, c: Ctx) -> Seq<char> { match self { ContentsElement::String(s) => s@, ContentsElement::Ruby(r) => text_plain(r.text), ContentsElement::Sub(x) => mark("_{"@, x.text@), ContentsElement::Sup(x) => mark("^{"@, x.text@), _ => Seq::empty() } } }
impl VElem<char> for SentenceElement { open spec fn el(&self, c: Ctx) -> Seq<char> { match self { SentenceElement::String(s) => s@, SentenceElement::Ruby(r) => text_plain(r.text), SentenceElement::Sub(x) => mark("_{"@, x.text@), SentenceElement::Sup(x) => mark("^{"@, x.text@),
  SentenceElement::ArithFormula(x) => call::<char, ContentsElement>(x.contentes.contents@, c0()), SentenceElement::QuoteStruct(x) => call::<char, ContentsElement>(x.contentes.contents@, c0()), _ => Seq::empty() } } }
pub open spec fn sent_plain(s: Sentence) -> Seq<char> { call::<char, SentenceElement>(s.contents@, c0()) }
impl VElem<char> for Sentence { open spec fn el(&self, c: Ctx) -> Seq<char> { sent_plain(*self) } }
impl VElem<Seq<char>> for Sentence { open spec fn el(&self, c: Ctx) -> Seq<Seq<char>> { seq![sent_plain(*self)] } }
impl VElem<char> for Column { open spec fn el(&self, c: Ctx) -> Seq<char> { call::<char, Sentence>(self.sentence@, c0()) } }
impl VElem<Seq<char>> for Column { open spec fn el(&self, c: Ctx) -> Seq<Seq<char>> { call::<Seq<char>, Sentence>(self.sentence@, c0()) } }
impl VElem<char> for TableColumnContents { open spec fn el(&self, c: Ctx) -> Seq<char> { match self { TableColumnContents::String(s) => s@, TableColumnContents::Sentence(x) => sent_plain(*x), TableColumnContents::Column(x) => call::<char, Sentence>(x.sentence@, c0()), _ => Seq::empty() } } }
impl VElem<Seq<char>> for TableColumn { open spec fn el(&self, c: Ctx) -> Seq<Seq<char>> { seq![call::<char, TableColumnContents>(self.contents@, c0())] } }
impl VElem<Seq<char>> for TableRow { open spec fn el(&self, c: Ctx) -> Seq<Seq<char>> { seq![join_spec(call::<Seq<char>, TableColumn>(self.columns@, c0()), " "@)] } }
impl VElem<Seq<char>> for TableHeaderRow { open spec fn el(&self, c: Ctx) -> Seq<Seq<char>> { seq![call::<char, Text>(self.columns@, c0())] } }
pub open spec fn table_plain(t: Table) -> Seq<char> { join_spec(call::<Seq<char>, TableHeaderRow>(t.table_header_row@, c0()), " "@) + "\\n"@ + join_spec(call::<Seq<char>, TableRow>(t.table_row@, c0()), "\\n"@) }
pub open spec fn socot_plain(x: SentenceOrColumnOrTable) -> Seq<char> { match x { SentenceOrColumnOrTable::Sentence(s) => call::<char, Sentence>(s@, c0()), SentenceOrColumnOrTable::Column(s) => join_spec(call::<Seq<char>, Column>(s@, c0()), " "@), SentenceOrColumnOrTable::Table(t) => table_plain(t) } }
"""
def spec_text(o):
  o(SPEC_TEXT)
  for i, t in reversed(list(enumerate(["Item"] + SUB))):
    nxt = (["Item"] + SUB)[i + 1] if i < 10 else None
    rest = " + kids_%s(self.children@, citems(c.num, c.items.push(self.num)))" % nxt if nxt else ""
    o("impl VElem<GInfo> for %s { open spec fn el(&self, c: Ctx) -> Seq<GInfo> { seq![GInfo { par: c.num, items: c.items.push(self.num), text: socot_plain(self.sentence) }]%s } }" % (t, rest))
    if i: o("#[verifier::opaque] pub open spec fn kids_%s(s: Seq<%s>, c: Ctx) -> Seq<GInfo> { call::<GInfo, %s>(s, c) }" % (t, t, t))
  o("impl VElem<GInfo> for Paragraph { open spec fn el(&self, c: Ctx) -> Seq<GInfo> { seq![GInfo { par: self.num, items: Seq::empty(), text: call::<char, Sentence>(self.sentence@, c0()) }] + call::<GInfo, Item>(self.children@, citems(self.num, Seq::empty())) } }")
  o("pub open spec fn infos(p: Seq<Paragraph>) -> Seq<GInfo> { call::<GInfo, Paragraph>(p, c0()) }")
  o("pub open spec fn info_texts(s: Seq<GInfo>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].text) }")
  o("pub proof fn lem_info_texts(s: Seq<(TextIndex, String)>, n: int, c: Ctx) requires 0 <= n <= s.len() ensures cat::<Seq<char>, (TextIndex, String)>(s, n, c) == info_texts(vseq(s).take(n)) decreases n { if n > 0 { lem_info_texts(s, n - 1, c); assert(info_texts(vseq(s).take(n)) =~= info_texts(vseq(s).take(n - 1)).push(s[n - 1].1@)); assert(cat::<Seq<char>, (TextIndex, String)>(s, n, c) =~= info_texts(vseq(s).take(n))); } else { assert(info_texts(vseq(s).take(n)) =~= Seq::empty()); } }")
  o("pub broadcast proof fn lem_infos(s: Seq<(TextIndex, String)>, n: int, c: Ctx) requires n == s.len() ensures #[trigger] cat::<Seq<char>, (TextIndex, String)>(s, n, c) == info_texts(vseq(s)) { lem_info_texts(s, n, c); assert(vseq(s).take(n) =~= vseq(s)); }")

def spec_arts(o):
  o("impl VView for WithNumberArticle { open spec fn cx(c: Ctx) -> Ctx { c } type V = WithNumberArticle; open spec fn vv(&self) -> WithNumberArticle { *self } }")
  o("impl VView for Article { open spec fn cx(c: Ctx) -> Ctx { c } type V = Article; open spec fn vv(&self) -> Article { *self } }")
  o("pub broadcast proof fn lem_id_w(s: Seq<WithNumberArticle>) ensures #[trigger] vseq(s) == s { assert(vseq(s) =~= s); }")
  o("pub broadcast proof fn lem_id_a(s: Seq<Article>) ensures #[trigger] vseq(s) == s { assert(vseq(s) =~= s); }")
  o("pub broadcast group bg_Arts { lem_id_w, lem_id_a, lem_relvl0, lem_aw_MainProvisionContents, lem_aw_SupplProvisionChildrenElement }")
  o("pub open spec fn wnew(a: Article) -> WithNumberArticle { WithNumberArticle { part: None, chapter: None, section: None, subsection: None, division: None, article: a } }")
  o("pub open spec fn setl(w: WithNumberArticle, c: Ctx) -> WithNumberArticle { %s{ w } }" % "".join("if c.lvl == %d { WithNumberArticle { %s: Some(c.num), ..w } } else " % (i + 1, l) for i, l in enumerate(LV)))
  o("impl VElem<WithNumberArticle> for WithNumberArticle { open spec fn el(&self, c: Ctx) -> Seq<WithNumberArticle> { seq![setl(*self, c)] } }")
  o("impl VElem<Article> for WithNumberArticle { open spec fn el(&self, c: Ctx) -> Seq<Article> { seq![self.article] } }")
  o("pub proof fn lem_relvl(s: Seq<WithNumberArticle>, n: int, c: Ctx) requires 0 <= n <= s.len(), c.lvl == 0 ensures cat::<WithNumberArticle, WithNumberArticle>(s, n, c) == s.take(n) decreases n { if n > 0 { lem_relvl(s, n - 1, c); assert(s.take(n) =~= s.take(n - 1) + seq![s[n - 1]]); } else { assert(s.take(n) =~= Seq::empty()); } }")
  o("pub broadcast proof fn lem_relvl0(s: Seq<WithNumberArticle>, n: int, c: Ctx) requires n == s.len(), c.lvl == 0 ensures #[trigger] cat::<WithNumberArticle, WithNumberArticle>(s, n, c) == s { lem_relvl(s, n, c); assert(s.take(n) =~= s); }")
  o("""pub proof fn lem_retag_len(s: Seq<WithNumberArticle>, n: int, c: Ctx) requires 0 <= n <= s.len() ensures cat::<WithNumberArticle, WithNumberArticle>(s, n, c).len() == n decreases n { if n > 0 { lem_retag_len(s, n - 1, c); } }
pub proof fn lem_inplace(s: Seq<WithNumberArticle>, n: int, c: Ctx) requires 0 <= n < s.len()
  ensures (cat::<WithNumberArticle, WithNumberArticle>(s, n, c) + s.skip(n))[n] == s[n], (cat::<WithNumberArticle, WithNumberArticle>(s, n, c) + s.skip(n)).update(n, setl(s[n], c)) == cat::<WithNumberArticle, WithNumberArticle>(s, n + 1, c) + s.skip(n + 1)
{ lem_retag_len(s, n, c); lem_retag_len(s, n + 1, c); assert((cat::<WithNumberArticle, WithNumberArticle>(s, n, c) + s.skip(n)).update(n, setl(s[n], c)) =~= cat::<WithNumberArticle, WithNumberArticle>(s, n + 1, c) + s.skip(n + 1)); }""")
  o("impl VElem<WithNumberArticle> for Article { open spec fn el(&self, c: Ctx) -> Seq<WithNumberArticle> { seq![setl(wnew(*self), c)] } }")
  o("pub open spec fn retag(s: Seq<WithNumberArticle>, c: Ctx) -> Seq<WithNumberArticle> { call::<WithNumberArticle, WithNumberArticle>(s, c) }")
  o("""pub proof fn lem_aw_cat(a: Seq<WithNumberArticle>, b: Seq<WithNumberArticle>, n: int, c: Ctx) requires 0 <= n <= b.len() ensures cat::<Article, WithNumberArticle>(a + b, a.len() + n, c) == cat::<Article, WithNumberArticle>(a, a.len() as int, c) + cat::<Article, WithNumberArticle>(b, n, c) decreases n {
  broadcast use bg_Util;
  if n > 0 { lem_aw_cat(a, b, n - 1, c); assert((a + b)[a.len() + n - 1] == b[n - 1]); } else { lem_aw_pre(a, b, a.len() as int, c); } }
pub proof fn lem_aw_pre(a: Seq<WithNumberArticle>, b: Seq<WithNumberArticle>, n: int, c: Ctx) requires 0 <= n <= a.len() ensures cat::<Article, WithNumberArticle>(a + b, n, c) == cat::<Article, WithNumberArticle>(a, n, c) decreases n { if n > 0 { lem_aw_pre(a, b, n - 1, c); assert((a + b)[n - 1] == a[n - 1]); } }
pub proof fn lem_aw_one(e: Seq<WithNumberArticle>, c: Ctx) requires e.len() == 1 ensures cat::<Article, WithNumberArticle>(e, 1, c) == seq![e[0].article] { reveal_with_fuel(cat, 2); lem_empty_l(seq![e[0].article]); }
pub proof fn lem_aw_ctx(s: Seq<WithNumberArticle>, n: int, c: Ctx) ensures cat::<Article, WithNumberArticle>(s, n, c) == cat::<Article, WithNumberArticle>(s, n, c0()) decreases n { if 0 < n <= s.len() { lem_aw_ctx(s, n - 1, c); } }""")
  def elem(u, lv):
    arms = []
    for v, tag, ty in variants_n(u):
      if ty == "Article": arms.append("%s::%s(t) => seq![setl(wnew(*t), c)]" % (u, v))
      elif ty in CONT: arms.append("%s::%s(t) => retag(arts_%s(*t), c)" % (u, v, ty))
    if len(arms) < len(variants_n(u)): arms.append("_ => Seq::empty()")
    o("impl VElem<WithNumberArticle> for %s { open spec fn el(&self, c: Ctx) -> Seq<WithNumberArticle> { match self { %s } } }" % (u, ", ".join(arms)))
  for k, (tf, lv, u) in reversed(list(CONT.items())):
    if u != "Article": elem(u, lv)
    o("pub open spec fn arts_%s(t: %s) -> Seq<WithNumberArticle> { call::<WithNumberArticle, %s>(t.children@, cnum(t.num, %d)) }" % (k, k, u, lv))
  for k, u in MAIN.items():
    elem(u, 0)
    aarms = ["%s::%s(t) => %s" % (u, v, "seq![*t]" if ty == "Article" else "call::<Article, WithNumberArticle>(arts_%s(*t), c0())" % ty) for v, tag, ty in variants_n(u) if ty == "Article" or ty in CONT]
    o("impl VElem<Article> for %s { open spec fn el(&self, c: Ctx) -> Seq<Article> { match self { %s, _ => Seq::empty() } } }" % (u, ", ".join(aarms)))
    o("""pub broadcast proof fn lem_aw_%s(s: Seq<%s>, n: int, c: Ctx, m: int, d: Ctx) requires c.lvl == 0, m == cat::<WithNumberArticle, %s>(s, n, c).len() ensures #[trigger] cat::<Article, WithNumberArticle>(cat::<WithNumberArticle, %s>(s, n, c), m, d) == cat::<Article, %s>(s, n, c) decreases n {
  if 0 < n <= s.len() {
    let h = cat::<WithNumberArticle, %s>(s, n - 1, c); let e = VElem::<WithNumberArticle>::el(&s[n - 1], c);
    lem_aw_%s(s, n - 1, c, h.len() as int, d); lem_aw_cat(h, e, e.len() as int, d); assert((h + e).len() == h.len() + e.len());
    match s[n - 1] { %s, _ => {} }
  } }""" % (u, u, u, u, u, u, u, ", ".join("%s::%s(t) => { %s }" % (u, v, "assert(e =~= seq![setl(wnew(t), c)]); lem_aw_one(e, d);" if ty == "Article" else "lem_relvl0(arts_%s(t), arts_%s(t).len() as int, c); lem_aw_ctx(e, e.len() as int, d);" % (ty, ty)) for v, tag, ty in variants_n(u) if ty == "Article" or ty in CONT)))
    brk = " || ".join("s[n - 1] is %s" % v for v, tag, ty in variants_n(u) if ty == "Article" or ty in CONT)
    o("/// (finished groups, group being filled): a group ends where an article or a container stands between paragraphs")
    o("pub open spec fn grp_%s(s: Seq<%s>, n: int) -> (Seq<Seq<Paragraph>>, Seq<Paragraph>) decreases n { if n <= 0 || n > s.len() { (Seq::empty(), Seq::empty()) } else { let p = grp_%s(s, n - 1); if %s { (p.0.push(p.1), Seq::empty()) } else if s[n - 1] is Paragraph { (p.0, p.1.push(s[n - 1]->Paragraph_0)) } else { p } } }" % (u, u, u, brk))
    o("impl VHold<%s> for Vec<Vec<Paragraph>> { open spec fn hold(&self, old: Self, s: Seq<%s>, n: int, c: Ctx) -> bool { gseq(self@) == grp_%s(s, n).0 } }" % (u, u, u))
    o("impl VHold<%s> for Vec<Paragraph> { open spec fn hold(&self, old: Self, s: Seq<%s>, n: int, c: Ctx) -> bool { self@ == grp_%s(s, n).1 } }" % (u, u, u))
    o("pub open spec fn groups_%s(s: Seq<%s>) -> Seq<Seq<Paragraph>> { let p = grp_%s(s, s.len() as int); p.0.push(p.1) }" % (u, u, u))

def spec_toc(o):
  o("pub open spec fn vtoc(t: Toc) -> GToc { GToc { %s, title: match t.title { Some(s) => Some(s@), None => None } } }" % ", ".join("%s: t.%s_number" % (l, l) for l in LV + ["article"]))
  o("impl VView for Toc { open spec fn cx(c: Ctx) -> Ctx { c } type V = GToc; open spec fn vv(&self) -> GToc { vtoc(*self) } }")
  o("pub open spec fn atoc(a: Article, c: GToc) -> GToc { GToc { article: Some(a.num), title: Some(text_plain(a.title)), ..c } }")
  o("impl VElem<GToc> for Article { open spec fn el(&self, c: Ctx) -> Seq<GToc> { seq![atoc(*self, c.toc)] } }")
  def elem(u):
    arms = []
    for v, tag, ty in variants_n(u):
      if ty == "Article": arms.append("%s::%s(t) => seq![atoc(*t, c.toc)]" % (u, v))
      elif ty in CONT: arms.append("%s::%s(t) => toc_%s(*t, c.toc)" % (u, v, ty))
    if len(arms) < len(variants_n(u)): arms.append("_ => Seq::empty()")
    o("impl VElem<GToc> for %s { open spec fn el(&self, c: Ctx) -> Seq<GToc> { match self { %s } } }" % (u, ", ".join(arms)))
  for k, (tf, lv, u) in reversed(list(CONT.items())):
    if u != "Article": elem(u)
    o("pub open spec fn own_%s(t: %s, c: GToc) -> GToc { GToc { %s: Some(t.num), title: Some(text_plain(t.%s)), ..c } }" % (k, k, LV[lv - 1], tf))
    o("pub open spec fn toc_%s(t: %s, c: GToc) -> Seq<GToc> { seq![own_%s(t, c)] + call::<GToc, %s>(t.children@, ctoc(own_%s(t, c))) }" % (k, k, k, u, k))
  for k, u in MAIN.items(): elem(u)

# ------------------------------------------------------------------ contracts
def pname(f, i=0, ty=None):
  for p in f["params"]:
    if "self" in p: continue
    if ty is None:
      if i == 0: return p["name"]
      i -= 1
    elif ty in p["ty"].replace(" ", ""): return p["name"]
  raise Lost("parameter of " + f["key"])

def contract(f):
  """(ensures, context expression of loops (or None), decreases)"""
  k = f["key"]
  n = k.split("::")[-1]
  if k.startswith(("WithNumberArticle::", "Toc::")):
    T = k.split("::")[0]
    if n == "new": return ["r == wnew(%s)" % pname(f)], None, None
    if n == "get_article" and T == "WithNumberArticle": return ["r == self.article"], None, None
    if n == "set_articl": return ["*final(self) == (WithNumberArticle { article: %s, ..*old(self) })" % pname(f)], None, None
    what = n[4:]
    if n == "default": return ["vtoc(r) == toc0()"], None, None
    if T == "Toc":
      if what == "title":
        if n[0] == "g": return ["(match r { Some(s) => Some(s@), None => None }) == vtoc(*self).title"], None, None
        return ["vtoc(*final(self)) == (GToc { title: match %s { Some(s) => Some(s@), None => None }, ..vtoc(*old(self)) })" % pname(f)], None, None
      if n[0] == "g": return ["r == self.%s_number" % what], None, None
      return ["vtoc(*final(self)) == (GToc { %s: %s, ..vtoc(*old(self)) })" % (what, pname(f))], None, None
    if n[0] == "g": return ["r == self.%s" % what], None, None
    return ["*final(self) == (WithNumberArticle { %s: %s, ..*old(self) })" % (what, pname(f))], None, None
  if n == "to_string": return ["r@ == %s" % ("text_plain(*self)" if k.startswith("Text::") else "tes_plain(self.contents@, self.contents@.len() as int)")], "c0()", "*self"
  if n == "sentence_element_to_str": return ["r@ == call::<char, SentenceElement>(%s@, c0())" % pname(f)], "c0()", None
  if n == "table_to_str": return ["r@ == table_plain(*%s)" % pname(f)], "c0()", None
  if n == "text_info_list_from_paragraph": return ["vseq(r@) == infos(%s@)" % pname(f)], "PAR", None
  if n == "text_from_article": return ["r@ == join_spec(info_texts(infos(%s.paragraph@)), \"\\n\"@)" % pname(f)], "c0()", None
  if n == "text_from_paragraph_list": return ["r@ == join_spec(info_texts(infos(%s@)), \"\\n\"@)" % pname(f)], "c0()", None
  m = re.match(r"text_list_from_(subitem\d+)$", n)
  if m:
    T = m.group(1).capitalize()
    c = "citems(*%s, %s@)" % (pname(f, ty="&ArticleNumber"), pname(f, ty="Vec<Option"))
    return ["vseq(r@) == kids_%s(%s@, %s)" % (T, pname(f, ty="&[" + T), c)], c, None
  m = re.match(r"(article|toc)_list_from_(part|chapter|section|subsection|division)$", n)
  if m:
    T = m.group(2).capitalize()
    t = pname(f, ty="&" + T)
    if m.group(1) == "article": return ["r@ == arts_%s(*%s)" % (T, t)], "cnum(%s.num, %d)" % (t, CONT[T][1]), None
    try: tp = next(p for p in f["params"] if re.match(r"^(&mut|&)?Toc$", p["ty"].replace(" ", "").replace("&mut", "&mut")))
    except StopIteration: tp = None
    if not tp: c = "toc0()"
    else:
      ty = tp["ty"].replace(" ", "")
      c = {"&mutToc": "vtoc(*old(%s))", "&Toc": "vtoc(*%s)", "Toc": "vtoc(%s)"}[ty] % tp["name"].replace("mut ", "")
    return ["vseq(r@) == toc_%s(*%s, %s)" % (T, t, c)], "ctoc(own_%s(*%s, %s))" % (T, t, c), None
  m = re.match(r"(with_number_article|article|toc)_list_from_(main|suppl)_provision$", n)
  K = {"main": "MainProvision", "suppl": "SupplProvision"}[m.group(2)]
  U = MAIN[K]
  p = pname(f)
  if m.group(1) == "toc": return ["vseq(r@) == call::<GToc, %s>(%s.children@, c0())" % (U, p)], "c0()", None
  g = "gseq(r.1@) == groups_%s(%s.children@)" % (U, p)
  if m.group(1) == "article":
    e = "call::<Article, %s>(%s.children@, c0())" % (U, p)
    return ["r.0@ == " + e, g], "c0()", None
  return ["r.0@ == call::<WithNumberArticle, %s>(%s.children@, c0())" % (U, p), g], "c0()", None

MUTS = ("push", "append", "extend", "assign", "vx_push_str", "vx_push_any", "vx_push_char", "vx_append", "vx_extend", "pop", "clear", "insert")
def ufn(f, iso="acc"):
  fn = Fn(f)
  fn.iso = set()
  ens, ctx, dec = contract(f)
  fn.body = re.sub(r"""vx_push_str \("([^"\\'])"\)""", r"vx_push_char ('\1')", fn.body)   # one character, either way
  key = fn.key
  fn.start = "".join("reveal(kids_%s);" % m.capitalize() for m in re.findall(r"^text_list_from_(subitem\d+)$", key))
  params = [p.get("name", "").replace("mut ", "") for p in f["params"]]
  for k in fn.loops:
    info = fn.meta["loops"][str(k)]
    reg = loop_region(fn.body, k)
    m = re.match(r"^(__im\d+) < (\w+)\.len \(\)$", info.get("cond", ""))
    c = ctx
    if c == "PAR":
      c = "c0()"
      if info["parents"]:
        it0 = fn.iter_of(info["parents"][0])
        c = "citems(%s.v@[%s.pos - 1].num, Seq::empty())" % (it0, it0)
    accs = []
    for e in fn.meta["events"]:
      b = e["base"]
      if e["how"] in MUTS and k in e["loops"] and b and b not in accs and "." not in e["target"] and not re.search(r"let (?:mut )?%s\b" % re.escape(b), reg) and not b.startswith("__it") and not b.startswith("__im"): accs.append(b)
    pre, inv = [], []
    if iso == "all" or iso == "acc" and all(a.startswith("__acc") for a in accs): fn.iso.add(k)
    if m:
      im, src = m.groups()
      pre.append("let ghost s%d = %s@;" % (k, src))
      inv += ["%s <= s%d.len()" % (im, k), "%s@.len() == s%d.len()" % (src, k), "%s@ == cat::<WithNumberArticle, WithNumberArticle>(s%d, %s as int, %s) + s%d.skip(%s as int)" % (src, k, im, c, k, im)]
      fn.head[k] = "lem_inplace(s%d, %s as int, %s);" % (k, im, c)
      s, n = "s%d" % k, "%s as int" % im
      fn.dec[k] = "%s@.len() - %s" % (src, im)
      pre.append("proof { assert(s%d.skip(0) =~= s%d); }" % (k, k))
    else:
      it = fn.iter_of(k)
      inv.append("%s.wf()" % it)
      pre.append("let ghost s%d = %s.v@;" % (k, it))
      inv.append("%s.v@ == s%d" % (it, k))
      s, n = "s%d" % k, "%s.pos as int" % it
      fn.dec[k] = "%s.v@.len() - %s.pos" % (it, it)
    for a in accs:
      pre.append("let ghost g%d_%s = %s;" % (k, a, a))
      inv.append("holds(%s, g%d_%s, %s, %s, %s)" % (a, k, a, s, n, c))
    fn.pre[k], fn.inv[k] = " ".join(pre), inv
  return fn, dict(ensures=ens, decreases=dec)


TEXT_FNS = ["sentence_element_to_str", "table_to_str"] + ["text_list_from_subitem%d" % i for i in range(10, 0, -1)] + ["text_info_list_from_paragraph", "text_from_article", "text_from_paragraph_list"]
def fns_of(pid, vx):
  if pid == "C16": return ["Text::to_string", "TextWithWritingMode::to_string"] + TEXT_FNS
  if pid == "C14": return [k for k in KEYS if k.startswith("WithNumberArticle::")] + ["article_list_from_" + k.lower() for k in reversed(CONT)] + ["%s_list_from_%s_provision" % (a, m) for m in ("main", "suppl") for a in ("with_number_article", "article")]
  return ["Text::to_string"] + [k for k in KEYS if k.startswith("Toc::")] + ["Toc::default"] + ["toc_list_from_" + k.lower() for k in reversed(CONT)] + ["toc_list_from_%s_provision" % m for m in ("main", "suppl")]

EXTRA_TYPES = {"WithNumberArticle", "Toc", "TextIndex"}
def build_util(pid, vx, external=(), iso=None):
  iso = iso or ("acc" if pid == "C16" else "none")
  c = B.Crate(vx, "full", external)
  c.types, c.missing_types = B.exec_types(vx, EXTRA_TYPES)
  o = Out()
  o(SPEC_BASE)
  deps = ["Util", "Text"] if pid != "C14" else ["Util"]
  if pid == "C16": spec_text(o); deps += ["Infos"]
  if pid == "C14": spec_arts(o); deps.append("Arts")
  if pid == "C15": spec_toc(o)
  o("pub broadcast group bg_Infos { lem_infos }" if pid == "C16" else "")
  t = next((t for t in vx["types"] if t["name"] == "Toc"), None)
  if pid == "C15" and t and "Toc::default" not in c.fns and any("Default" in d for d in t["derives"]): o("impl Toc { #[verifier::external_body] pub fn default() -> (r: Self) ensures vtoc(r) == toc0() { unimplemented!() } }")
  c.module("t_USpec", [], o)
  for i, ks in enumerate(parts_of(fns_of(pid, vx))):
    o = Out()
    for k in ks:
      if k == "Toc::default" and k not in c.fns: continue
      c.emit(k, lambda f: ufn(f, iso), o, ty=k.split("::")[0] if "::" in k else None)
    c.module("t_Util%d" % i, deps, o)
  return c

def parts_of(ks):
  """small modules are verified in parallel"""
  small = [k for k in ks if "::" in k]
  rest = [k for k in ks if "::" not in k]
  return [small] + [[k] for k in rest]
