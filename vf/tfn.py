"""C17: building the law from the lines of a plain text (parse_from_text.rs) under contract.
The specification reads the sequence of lines only: the events (heading, article, paragraph, item,
sentence, ...) a prefix of the lines stands for, in order, with the level each belongs to.  A tree is
written out as the events in it; every function's contract says the tree it returns and the lines it
consumed stand for the same events."""
import re
from gen import *
from execgen import *
import build as B, hand

SUBS = ["parse_subitem%d" % i for i in range(1, 11)]
CONT = ["parse_part", "parse_chapter", "parse_section", "parse_subsection", "parse_division"]
KEYS = ["text_to_sentence"] + SUBS[::-1] + ["parse_paragraph", "parse_article"] + CONT[::-1] + ["parse_body"]
EXTRA_CONTRACTS += [k for k in KEYS + ["parse_line_contents", "parse_article_number", "parse_item_number"] if k not in EXTRA_CONTRACTS]
LINE = ("parse_article_number", "parse_item_number", "parse_line_contents")
HEADS = ["Part", "Chapter", "Section", "Subsection", "Division"]

SPEC = """
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
// ---- what kind of line a text is
/// the numbers read from a text: the contracts of the two readers, whatever they are (C12, C13)
pub uninterp spec fn rd_art(s: Seq<char>) -> Option<GArticleNumber>;
pub uninterp spec fn rd_item(s: Seq<char>) -> Option<(GArticleNumber, ItemPattern)>;
pub open spec fn blank(c: char) -> bool { c == ' ' || ('\\u{9}' <= c && c <= '\\u{d}') || c == '\\u{85}' || c == '\\u{a0}' || c == '\\u{1680}' || ('\\u{2000}' <= c && c <= '\\u{200a}') || c == '\\u{2028}' || c == '\\u{2029}' || c == '\\u{202f}' || c == '\\u{205f}' || c == '\\u{3000}' }
pub open spec fn chr_in(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c }
/// （caption）
pub open spec fn capt(s: Seq<char>) -> Option<Seq<char>> { if s.len() >= 3 && s[0] == '（' && s.last() == '）' && !chr_in(s.subrange(1, s.len() - 1), '）') { Some(s.subrange(1, s.len() - 1)) } else { None } }
/// 附則 or 附則（the amending law), blanks between, 抄 after it
pub uninterp spec fn suppl(s: Seq<char>) -> Option<Option<Seq<char>>>;
/// a first word, blanks and the rest
pub open spec fn word(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || blank(s[0]) { 0 } else { 1 + word(s.skip(1)) } }
pub open spec fn gap(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || !blank(s[0]) { 0 } else { 1 + gap(s.skip(1)) } }
pub open spec fn first(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { let w = word(s); let g = gap(s.skip(w)); if w > 0 && g > 0 && s.len() > w + g { Some((s.take(w), s.skip(w + g))) } else { None } }
#[verifier::opaque]
pub open spec fn is_class(l: TLine, s0: Seq<char>) -> bool { let s = trimmed(s0); chr_in(s, '\\n') ||
  match capt(s) { Some(c) => l is Caption && l->Caption_0@ == c, None => match suppl(s) { Some(n) => l is SupplProvision && vo_String(l->SupplProvision_0) == n, None => match first(s) { Some((a, t)) => match rd_art(a) {
    Some(n) => match l { TLine::Part(m, x) => chr_in(a, '編') && v_ArticleNumber(m) == n && x@ == t, TLine::Chapter(m, x) => chr_in(a, '章') && !chr_in(a, '編') && v_ArticleNumber(m) == n && x@ == t,
      TLine::Section(m, x) => chr_in(a, '節') && !chr_in(a, '編') && !chr_in(a, '章') && v_ArticleNumber(m) == n && x@ == t, TLine::Subsection(m, x) => chr_in(a, '款') && !chr_in(a, '編') && !chr_in(a, '章') && !chr_in(a, '節') && v_ArticleNumber(m) == n && x@ == t,
      TLine::Division(m, x) => chr_in(a, '目') && !chr_in(a, '編') && !chr_in(a, '章') && !chr_in(a, '節') && !chr_in(a, '款') && v_ArticleNumber(m) == n && x@ == t,
      TLine::Article(m, x) => chr_in(a, '条') && !chr_in(a, '編') && !chr_in(a, '章') && !chr_in(a, '節') && !chr_in(a, '款') && !chr_in(a, '目') && v_ArticleNumber(m) == n && x@ == t,
      TLine::Paragraph(m, x) => !chr_in(a, '条') && !chr_in(a, '編') && !chr_in(a, '章') && !chr_in(a, '節') && !chr_in(a, '款') && !chr_in(a, '目') && v_ArticleNumber(m) == n && x@ == t, _ => false },
    None => match rd_item(a) { Some((n, p)) => l is Item && gi(l->Item_0) == n && l->Item_0.pattern == p && l->Item_1@ == t, None => l is Text && l->Text_0@ == s } }, None => l is Text && l->Text_0@ == s } } } }
/// what the regex crate finds with the three patterns of parse_line_contents and split_number
pub struct CapsCap { v: u8 } pub struct CapsSup { v: u8 } pub struct CapsNum { v: u8 } pub struct RxMt { v: u8 }
impl RxMt { pub uninterp spec fn mv(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.mv() { unimplemented!() } }
impl CapsCap { pub uninterp spec fn cap(&self) -> Seq<char>; #[verifier::external_body] pub fn grp_caption(&self) -> (r: &str) ensures r@ == self.cap() { unimplemented!() } }
impl CapsSup { pub uninterp spec fn num(&self) -> Option<Seq<char>>; #[verifier::external_body] pub fn name_law_num(&self) -> (r: Option<RxMt>) ensures (match r { Some(m) => Some(m.mv()), None => None }) == self.num() { unimplemented!() } }
impl CapsNum { pub uninterp spec fn p(&self) -> (Seq<char>, Seq<char>); #[verifier::external_body] pub fn grp_s(&self) -> (r: &str) ensures r@ == self.p().0 { unimplemented!() } #[verifier::external_body] pub fn grp_text(&self) -> (r: &str) ensures r@ == self.p().1 { unimplemented!() } }
pub trait VxRx { spec fn rv(&self) -> Seq<char>;
  fn rx_cap(&self) -> (r: Option<CapsCap>) ensures (match r { Some(c) => Some(c.cap()), None => None }) == capt(self.rv());
  fn rx_sup(&self) -> (r: Option<CapsSup>) ensures (match r { Some(c) => Some(c.num()), None => None }) == suppl(self.rv());
  fn rx_num(&self) -> (r: Option<CapsNum>) ensures forall|u: Seq<char>| self.rv() == #[trigger] trimmed(u) && !chr_in(self.rv(), '\\n') ==> (match r { Some(c) => Some(c.p()), None => None }) == first(self.rv()); }
impl VxRx for str { open spec fn rv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn rx_cap(&self) -> (r: Option<CapsCap>) { unimplemented!() } #[verifier::external_body] fn rx_sup(&self) -> (r: Option<CapsSup>) { unimplemented!() } #[verifier::external_body] fn rx_num(&self) -> (r: Option<CapsNum>) { unimplemented!() } }
pub trait VxHas { spec fn hv(&self) -> Seq<char>; fn vx_contains(&self, c: char) -> (r: bool) ensures r == chr_in(self.hv(), c); }
impl VxHas for str { open spec fn hv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_contains(&self, c: char) -> (r: bool) { unimplemented!() } }
impl VxHas for String { open spec fn hv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_contains(&self, c: char) -> (r: bool) { unimplemented!() } }
pub trait VxTrim { fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.vtr()); spec fn vtr(&self) -> Seq<char>; }
impl VxTrim for str { open spec fn vtr(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() } }
impl VxTrim for String { open spec fn vtr(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() } }
pub trait VxLines { spec fn vls(&self) -> Seq<char>; fn vx_lines<'a>(&'a self) -> (r: SplitIter<'a>) ensures r.parts() == lines_of(self.vls()), r.pos == 0; }
impl VxLines for str { open spec fn vls(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_lines<'a>(&'a self) -> (r: SplitIter<'a>) { unimplemented!() } }

pub ghost enum L { Cap(Seq<char>), Head(int, int, GArticleNumber, Option<Seq<char>>, bool), Art(int, GArticleNumber, bool), Para(bool, GArticleNumber), Item(int, Option<GArticleNumber>, bool), Txt(Option<int>, Seq<char>), Suppl(Option<Seq<char>>, Option<Seq<char>>), Other }
pub open spec fn del(t: Seq<char>) -> bool { trimmed(t) == "削除"@ || trimmed(t) == "（削除）"@ }
pub open spec fn g1(n: usize) -> GArticleNumber { GArticleNumber { base_number: n, eda_numbers: Seq::empty(), range_end_numbers: Seq::empty() } }
pub open spec fn gi(n: ItemNumber) -> GArticleNumber { GArticleNumber { base_number: n.base_number, eda_numbers: n.eda_numbers@, range_end_numbers: n.range_end_numbers@ } }

// ---- what the lines before position j leave open
pub open spec fn down(s: Seq<ItemPattern>, p: ItemPattern) -> Seq<ItemPattern> decreases s.len() { if s.len() <= 1 { seq![p] } else if s.last() == p { s } else { down(s.drop_last(), p) } }
/// the levels of numbering open after an item numbered in pattern p: a new pattern starting at 1 goes one deeper, anything else returns to where p was in use
pub open spec fn istep(s: Seq<ItemPattern>, p: ItemPattern, b: usize) -> Seq<ItemPattern> {
  if s.len() == 0 { s.push(p) } else if s.last() == p { s } else if b == 1 && s.len() <= 10 && (s.len() < 2 || s[s.len() - 2] != p) { s.push(p) } else { down(s, p) }
}
pub open spec fn st(ls: Seq<TLine>, j: int) -> Seq<ItemPattern> decreases j {
  if j <= 0 { Seq::empty() } else { match ls[j - 1] { TLine::Item(n, _) => istep(st(ls, j - 1), n.pattern, n.base_number), TLine::Text(_) => st(ls, j - 1), _ => Seq::empty() } }
}
/// the number the next line of plain text gets as a sentence
pub open spec fn nt(ls: Seq<TLine>, j: int) -> int decreases j {
  if j <= 0 { 1 } else { match ls[j - 1] { TLine::Article(_, _) => 2, TLine::Paragraph(_, _) => 2, TLine::Item(_, _) => 2, TLine::Text(_) => nt(ls, j - 1) + 1, _ => 1 } }
}
/// only plain text so far: the preamble
pub open spec fn is_pre(ls: Seq<TLine>, j: int) -> bool decreases j { j <= 0 || is_pre(ls, j - 1) && ls[j - 1] is Text }
pub open spec fn art(ls: Seq<TLine>, j: int) -> bool decreases j {
  j > 0 && match ls[j - 1] { TLine::Article(_, _) => true, TLine::Paragraph(_, _) => art(ls, j - 1), TLine::Item(_, _) => art(ls, j - 1), TLine::Text(_) => art(ls, j - 1), _ => false }
}
pub open spec fn rank(l: TLine) -> int { match l { TLine::Part(_, _) => 1, TLine::Chapter(_, _) => 2, TLine::Section(_, _) => 3, TLine::Subsection(_, _) => 4, TLine::Division(_, _) => 5, _ => 0 } }
/// a heading of rank l (1 part ... 5 division) is open
pub open spec fn op(ls: Seq<TLine>, j: int, l: int) -> bool decreases j {
  j > 0 && { let r = rank(ls[j - 1]); if r > 0 { r == l || r > l && op(ls, j - 1, l) && op(ls, j - 1, r - 1) } else { match ls[j - 1] {
    TLine::SupplProvision(_) => false, TLine::Paragraph(_, _) => art(ls, j - 1) && op(ls, j - 1, l), TLine::Text(_) => nt(ls, j - 1) > 1 && op(ls, j - 1, l), _ => op(ls, j - 1, l) } } }
}
pub open spec fn inner(ls: Seq<TLine>, j: int) -> int { if op(ls, j, 5) { 5 } else if op(ls, j, 4) { 4 } else if op(ls, j, 3) { 3 } else if op(ls, j, 2) { 2 } else if op(ls, j, 1) { 1 } else { 0 } }
pub open spec fn cap_at(ls: Seq<TLine>, j: int) -> Option<Seq<char>> { if j > 0 { match ls[j - 1] { TLine::Caption(c) => Some(c@), _ => None } } else { None } }
pub open spec fn pend(ls: Seq<TLine>, q: int) -> int decreases q { if q <= 0 { 0 } else if is_pre(ls, q) { q } else { pend(ls, q - 1) } }
pub open spec fn fsup(ls: Seq<TLine>, q: int) -> int decreases q { if q <= 0 { -1 } else if fsup(ls, q - 1) >= 0 { fsup(ls, q - 1) } else if ls[q - 1] is SupplProvision { q - 1 } else { -1 } }
pub open spec fn lsup(ls: Seq<TLine>, q: int) -> int decreases q { if q <= 0 { -1 } else if ls[q - 1] is SupplProvision { q - 1 } else { lsup(ls, q - 1) } }
/// a part, or a section outside a chapter, after a supplementary provision: known finding, nothing is claimed from there
pub open spec fn dis(ls: Seq<TLine>, q: int) -> bool decreases q { q > 0 && (dis(ls, q - 1) || lsup(ls, q - 1) >= 0 && (ls[q - 1] is Part || ls[q - 1] is Section && !op(ls, q - 1, 2))) }
/// a line that has no place: an item outside a paragraph, a subsection outside a section, a division outside a subsection
pub open spec fn bad_at(ls: Seq<TLine>, j: int) -> bool { match ls[j] { TLine::Item(_, _) => nt(ls, j) <= 1 || is_pre(ls, j), TLine::Subsection(_, _) => !op(ls, j, 3), TLine::Division(_, _) => !op(ls, j, 4), _ => false } }
pub open spec fn stopf(ls: Seq<TLine>, j: int) -> int decreases ls.len() - j { if j >= ls.len() || bad_at(ls, j) { j } else { stopf(ls, j + 1) } }
/// something follows a supplementary provision before the next one
pub open spec fn hasc(ls: Seq<TLine>, k: int) -> bool decreases ls.len() - k { k < ls.len() && match ls[k] { TLine::Caption(_) => hasc(ls, k + 1), TLine::SupplProvision(_) => false, _ => !bad_at(ls, k) } }

// ---- the events the lines stand for
pub open spec fn hd(a: Seq<L>, ls: Seq<TLine>, j: int, r: int, n: GArticleNumber, t: Seq<char>) -> Seq<L> { a.push(L::Head(r, if r > 1 && op(ls, j, r - 1) { r - 1 } else { 0 }, n, Some(t), del(t))) }
pub open spec fn app_ev(a: Seq<L>, ls: Seq<TLine>, j: int) -> Seq<L> { match ls[j] {
  TLine::Part(n, t) => hd(a, ls, j, 1, v_ArticleNumber(n), t@), TLine::Chapter(n, t) => hd(a, ls, j, 2, v_ArticleNumber(n), t@), TLine::Section(n, t) => hd(a, ls, j, 3, v_ArticleNumber(n), t@), TLine::Subsection(n, t) => hd(a, ls, j, 4, v_ArticleNumber(n), t@), TLine::Division(n, t) => hd(a, ls, j, 5, v_ArticleNumber(n), t@),
  TLine::Article(n, t) => (match cap_at(ls, j) { Some(c) => a.push(L::Cap(c)), None => a }).push(L::Art(inner(ls, j), v_ArticleNumber(n), del(t@))).push(L::Para(true, g1(1))).push(L::Txt(Some(1), t@)),
  TLine::Paragraph(n, t) => a.push(L::Para(art(ls, j), v_ArticleNumber(n))).push(L::Txt(Some(1), t@)),
  TLine::Item(n, t) => a.push(L::Item(st(ls, j + 1).len() - 1, Some(gi(n)), del(t@))).push(L::Txt(Some(1), t@)),
  TLine::Text(s) => if is_pre(ls, j) { a.push(L::Para(false, g1(j as usize))).push(L::Txt(Some(0), s@)) } else if nt(ls, j) == 1 { a.push(L::Para(false, g1(1))).push(L::Txt(Some(1), s@)) } else { a.push(L::Txt(Some(nt(ls, j)), s@)) },
  TLine::Caption(_) => a,
  TLine::SupplProvision(n) => if hasc(ls, j + 1) { a.push(L::Suppl(Some("附則"@), vo_String(n))) } else { a },
} }
pub open spec fn evf(a: Seq<L>, ls: Seq<TLine>, p: int, q: int) -> Seq<L> decreases q - p { if q <= p { a } else { app_ev(evf(a, ls, p, q - 1), ls, q - 1) } }

// ---- the events a tree stands for
pub trait Fl { spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L>; }
#[verifier::opaque]
pub open spec fn cat<T: Fl>(a: Seq<L>, s: Seq<T>, c: int) -> Seq<L> decreases s.len() { if s.len() == 0 { a } else { s.last().fl(cat(a, s.drop_last(), c), c) } }
pub broadcast proof fn lem_cat_push<T: Fl>(a: Seq<L>, s: Seq<T>, x: T, c: int) ensures #[trigger] cat(a, s.push(x), c) == x.fl(cat(a, s, c), c) { reveal_with_fuel(cat, 2); assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lem_cat_empty<T: Fl>(a: Seq<L>, s: Seq<T>, c: int) requires s.len() == 0 ensures #[trigger] cat(a, s, c) == a { reveal_with_fuel(cat, 2); }
pub open spec fn txt_of(t: Text) -> Option<Seq<char>> { if t.contents@.len() == 1 { match t.contents@[0] { TextElement::Text(s) => Some(s@), _ => None } } else { None } }
/// sentences numbered from 1
pub trait Sx: Sized { spec fn sx(a: Seq<L>, s: Seq<Self>, n: int) -> Seq<L>; spec fn nx(a: Seq<L>, s: Seq<Self>, n: int) -> Seq<L>;
  proof fn sx_step(s: Seq<Self>, n: int, m: int) requires n >= 0, m == n + 1 ensures forall|a: Seq<L>| #[trigger] Self::sx(a, s, m) == Self::nx(Self::sx(a, s, n), s, n); }
pub proof fn sx_step<T: Sx>(s: Seq<T>, n: int, m: int) requires n >= 0, m == n + 1 ensures forall|a: Seq<L>| #[trigger] T::sx(a, s, m) == T::nx(T::sx(a, s, n), s, n) { T::sx_step(s, n, m); }
#[verifier::opaque]
pub open spec fn stx(a: Seq<L>, s: Seq<&String>, n: int) -> Seq<L> decreases n { if n <= 0 { a } else { stx(a, s, n - 1).push(L::Txt(Some(n), s[n - 1]@)) } }
#[verifier::opaque]
pub open spec fn ptx(a: Seq<L>, s: Seq<String>, n: int) -> Seq<L> decreases n { if n <= 0 { a } else { ptx(a, s, n - 1).push(L::Para(false, g1((n - 1) as usize))).push(L::Txt(Some(0), s[n - 1]@)) } }
impl<'a> Sx for &'a String { open spec fn sx(a: Seq<L>, s: Seq<Self>, n: int) -> Seq<L> { stx(a, s, n) } open spec fn nx(a: Seq<L>, s: Seq<Self>, n: int) -> Seq<L> { a.push(L::Txt(Some(n + 1), s[n]@)) } proof fn sx_step(s: Seq<Self>, n: int, m: int) { reveal(stx); } }
impl Sx for String { open spec fn sx(a: Seq<L>, s: Seq<Self>, n: int) -> Seq<L> { ptx(a, s, n) } open spec fn nx(a: Seq<L>, s: Seq<Self>, n: int) -> Seq<L> { a.push(L::Para(false, g1(n as usize))).push(L::Txt(Some(0), s[n]@)) } proof fn sx_step(s: Seq<Self>, n: int, m: int) { reveal(ptx); } }
pub proof fn lem_stx_pre(a: Seq<L>, s: Seq<&String>, x: &String, n: int) requires n <= s.len() ensures stx(a, s.push(x), n) == stx(a, s, n) decreases n { reveal(stx); if n > 0 { lem_stx_pre(a, s, x, n - 1); } }
pub proof fn lem_ptx_pre(a: Seq<L>, s: Seq<String>, x: String, n: int) requires n <= s.len() ensures ptx(a, s.push(x), n) == ptx(a, s, n) decreases n { reveal(ptx); if n > 0 { lem_ptx_pre(a, s, x, n - 1); } }
pub broadcast proof fn lem_stx_push(a: Seq<L>, s: Seq<&String>, x: &String, n: int) requires n == s.len() + 1 ensures #[trigger] stx(a, s.push(x), n) == stx(a, s, s.len() as int).push(L::Txt(Some(n), x@)) { reveal(stx); lem_stx_pre(a, s, x, n - 1); }
pub broadcast proof fn lem_ptx_push(a: Seq<L>, s: Seq<String>, x: String, n: int) requires n == s.len() + 1 ensures #[trigger] ptx(a, s.push(x), n) == ptx(a, s, s.len() as int).push(L::Para(false, g1((n - 1) as usize))).push(L::Txt(Some(0), x@)) { reveal(ptx); lem_ptx_pre(a, s, x, n - 1); }
pub broadcast proof fn lem_stx_0(a: Seq<L>, s: Seq<&String>) ensures #[trigger] stx(a, s, 0) == a { reveal(stx); }
pub broadcast proof fn lem_ptx_0(a: Seq<L>, s: Seq<String>) ensures #[trigger] ptx(a, s, 0) == a { reveal(ptx); }
impl Fl for Sentence { open spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L> { if self.contents@.len() == 1 && self.contents@[0] is String && self.function is None && self.indent is None { a.push(L::Txt(match self.num { Some(n) => Some(n as int), None => None }, self.contents@[0]->String_0@)) } else { a.push(L::Other) } } }
pub open spec fn soc(a: Seq<L>, x: SentenceOrColumnOrTable) -> Seq<L> { match x { SentenceOrColumnOrTable::Sentence(v) => cat(a, v@, 0), _ => a.push(L::Other) } }
impl Fl for Paragraph { open spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L> {
  if self.caption is None && self.paragraph_num.contents@.len() == 0 && self.amend_provision@.len() == 0 && self.class@.len() == 0 && self.struct_list@.len() == 0 && !self.old_style && !self.old_num && !self.hide {
    cat(cat(a.push(L::Para(c == 6, v_ArticleNumber(self.num))), self.sentence@, 0), self.children@, 0) } else { a.push(L::Other) } } }
impl Fl for Article { open spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L> {
  if self.suppl_note is None && !self.hide && (match self.caption { Some(k) => txt_of(k.text) is Some && k.common_caption is None, None => true }) {
    cat((match self.caption { Some(k) => a.push(L::Cap(txt_of(k.text)->Some_0)), None => a }).push(L::Art(c, v_ArticleNumber(self.num), self.delete)), self.paragraph@, 6) } else { a.push(L::Other) } } }
impl Fl for SupplProvision { open spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L> { if self.suppl_provision_type is None && self.extract is None { cat(a.push(L::Suppl(txt_of(self.label), vo_String(self.amend_law_num))), self.children@, 0) } else { a.push(L::Other) } } }
impl Fl for MainProvisionContents { open spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L> { match *self { MainProvisionContents::Part(x) => x.fl(a, 0), MainProvisionContents::Chapter(x) => x.fl(a, 0), MainProvisionContents::Section(x) => x.fl(a, 0), MainProvisionContents::Article(x) => x.fl(a, 0), MainProvisionContents::Paragraph(x) => x.fl(a, 0) } } }
impl Fl for SupplProvisionChildrenElement { open spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L> { match *self { SupplProvisionChildrenElement::Chapter(x) => x.fl(a, 0), SupplProvisionChildrenElement::Article(x) => x.fl(a, 0), SupplProvisionChildrenElement::Paragraph(x) => x.fl(a, 0), _ => a.push(L::Other) } } }

// ---- joining runs of lines
pub broadcast proof fn lem_join(a: Seq<L>, ls: Seq<TLine>, p: int, q: int, r: int) requires p <= q <= r ensures #[trigger] evf(evf(a, ls, p, q), ls, q, r) == evf(a, ls, p, r) decreases r - q { if r > q { lem_join(a, ls, p, q, r - 1); } }
pub broadcast proof fn lem_head(a: Seq<L>, ls: Seq<TLine>, j: int, q: int, r: int) requires q == j + 1, q <= r ensures #[trigger] evf(app_ev(a, ls, j), ls, q, r) == evf(a, ls, j, r) decreases r - q { if r > q { lem_head(a, ls, j, q, r - 1); } else { assert(evf(a, ls, j, j) == a); } }
pub broadcast proof fn lem_two(a: Seq<L>, ls: Seq<TLine>, p: int, q: int, h: L, t: L, q1: int, r: int) requires q1 == q + 1, p <= q, q1 <= r, app_ev(evf(a, ls, p, q), ls, q) == evf(a, ls, p, q).push(h).push(t) ensures #[trigger] evf(evf(a, ls, p, q).push(h).push(t), ls, q1, r) == evf(a, ls, p, r) { lem_head(evf(a, ls, p, q), ls, q, q1, r); lem_join(a, ls, p, q, r); }
pub broadcast proof fn lem_one(a: Seq<L>, ls: Seq<TLine>, p: int, q: int, h: L, q1: int, r: int) requires q1 == q + 1, p <= q, q1 <= r, app_ev(evf(a, ls, p, q), ls, q) == evf(a, ls, p, q).push(h) ensures #[trigger] evf(evf(a, ls, p, q).push(h), ls, q1, r) == evf(a, ls, p, r) { lem_head(evf(a, ls, p, q), ls, q, q1, r); lem_join(a, ls, p, q, r); }

// ---- levels of items
pub broadcast proof fn lem_down(s: Seq<ItemPattern>, p: ItemPattern) requires s.len() > 0 ensures (#[trigger] down(s, p)).len() <= s.len(), down(s, p).len() >= 1, down(s, p).last() == p, down(s, p).len() > 1 ==> down(s, p) == s.take(down(s, p).len() as int) decreases s.len()
{ if s.len() > 1 { if s.last() == p { assert(s.take(s.len() as int) =~= s); } else { lem_down(s.drop_last(), p); let n = down(s.drop_last(), p).len() as int; assert(s.drop_last().take(n) =~= s.take(n)); } } }
pub proof fn lem_down_at(s: Seq<ItemPattern>, p: ItemPattern, k: int) requires 0 <= k < s.len(), s[k] == p ensures down(s, p).len() >= k + 1 decreases s.len()
{ if s.len() > 1 { if s.last() != p { assert(s.drop_last()[k] == p); lem_down_at(s.drop_last(), p, k); } } }
/// below level k
pub open spec fn under(s0: Seq<ItemPattern>, s: Seq<ItemPattern>, k: int) -> bool { s.len() > k && s0.len() == k && s.take(k) == s0 }
pub broadcast proof fn lem_level(s0: Seq<ItemPattern>, s: Seq<ItemPattern>, k: int, p: ItemPattern, b: usize) requires #[trigger] under(s0, s, k), k >= 0
  ensures ({ let t = #[trigger] istep(s, p, b); &&& t.len() >= 1
    &&& t.len() <= k + 1 && s[k] == p ==> t == s0.push(p)
    &&& k == 0 && t.len() <= 1 ==> t == s0.push(p)
    &&& t.len() <= k + 1 && s[k] != p && k >= 1 ==> t.len() <= k })
{
  lem_down(s, p);
  let t = istep(s, p, b);
  if s[k] == p { lem_down_at(s, p, k); }
  assert(s0 == s.take(k));
  if t.len() <= k + 1 && s[k] == p { assert(t =~= s0.push(p)); }
  if k == 0 && t.len() <= 1 { assert(t =~= s0.push(p)); }
  if t.len() <= k + 1 && s[k] != p && k >= 1 && t.len() == k + 1 { assert(t.last() == s[k]); }
}
pub broadcast proof fn lem_under(s0: Seq<ItemPattern>, p: ItemPattern, k: int) requires k == s0.len() ensures #[trigger] under(s0, s0.push(p), k) { assert(s0.push(p).take(k) =~= s0); }
pub broadcast proof fn lem_under2(s0: Seq<ItemPattern>, s1: Seq<ItemPattern>, p: ItemPattern, s: Seq<ItemPattern>, k1: int) requires #[trigger] under(s1, s, k1), s1 == #[trigger] s0.push(p) ensures under(s0, s, k1 - 1), s[k1 - 1] == p { assert(s.take(k1 - 1) =~= s0) by { assert forall|i: int| 0 <= i < k1 - 1 implies s[i] == s0[i] by { assert(s.take(k1)[i] == s[i]); } } assert(s.take(k1)[k1 - 1] == p); }

// ---- frames
pub open spec fn frc(ls: Seq<TLine>, p: int, q: int) -> bool { stopf(ls, q) == stopf(ls, p) && lsup(ls, q) == lsup(ls, p) && fsup(ls, q) == fsup(ls, p) && pend(ls, q) == pend(ls, p) && dis(ls, q) == dis(ls, p) && !is_pre(ls, q) }
pub open spec fn fr(ls: Seq<TLine>, p: int, q: int) -> bool { frc(ls, p, q) && op(ls, q, 1) == op(ls, p, 1) && op(ls, q, 2) == op(ls, p, 2) && op(ls, q, 3) == op(ls, p, 3) && op(ls, q, 4) == op(ls, p, 4) && op(ls, q, 5) == op(ls, p, 5) && art(ls, q) == art(ls, p) && nt(ls, q) > 1 && cap_at(ls, q) is None }
/// inside a heading of rank w, between its children (w = 0: at top level)
pub open spec fn lvl(ls: Seq<TLine>, q: int, w: int) -> bool { q < ls.len() ==> (match ls[q] { TLine::Article(_, _) => inner(ls, q) == w, TLine::Caption(_) => inner(ls, q) == w, TLine::Paragraph(_, _) => !art(ls, q), TLine::Text(_) => is_pre(ls, q) || nt(ls, q) == 1, TLine::Item(_, _) => is_pre(ls, q) || nt(ls, q) == 1, _ => true }) && (rank(ls[q]) > w + 1 ==> !op(ls, q, rank(ls[q]) - 1)) }
pub open spec fn ops_below(ls: Seq<TLine>, p: int, q: int, w: int) -> bool { (w > 1 ==> op(ls, q, 1) == op(ls, p, 1)) && (w > 2 ==> op(ls, q, 2) == op(ls, p, 2)) && (w > 3 ==> op(ls, q, 3) == op(ls, p, 3)) && (w > 4 ==> op(ls, q, 4) == op(ls, p, 4)) }
/// the line after position q is an item that goes no deeper than level k
pub open spec fn shallow(ls: Seq<TLine>, q: int, k: int) -> bool { q < ls.len() && ls[q] is Item ==> istep(st(ls, q), ls[q]->Item_0.pattern, ls[q]->Item_0.base_number).len() <= k }

// ---- how a local that is filled while lines are read relates to the lines p..q read so far
pub trait Th: Sized { spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool; }
pub open spec fn th<T: Th>(x: T, old: T, ls: Seq<TLine>, p: int, q: int) -> bool { x.th(old, ls, p, q) }
impl<'a> Th for Vec<&'a String> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { nt(ls, p) == old@.len() + 1 ==> nt(ls, q) == self@.len() + 1 && st(ls, q) == st(ls, p) && forall|a: Seq<L>| #[trigger] stx(a, self@, self@.len() as int) == evf(stx(a, old@, old@.len() as int), ls, p, q) } }
impl<'a> Th for Option<&'a String> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { (q < ls.len() && ls[q] is Article ==> (match *self { Some(s) => Some(s@), None => None }) == cap_at(ls, q)) && (is_pre(ls, q) ==> *self is None) } }
impl Th for Vec<Paragraph> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { forall|a: Seq<L>| (#[trigger] cat(a, self@, 6) == evf(cat(a, old@, 6), ls, p, q)) && (q < ls.len() ==> !(ls[q] is Text || ls[q] is Item)) } }
impl Th for bool { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { *self == is_pre(ls, q) } }
impl Th for Vec<String> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { self@.len() == pend(ls, q) && forall|a: Seq<L>| #[trigger] ptx(a, self@, self@.len() as int) == evf(a, ls, 0, pend(ls, q)) } }
impl Th for Vec<MainProvisionContents> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { !dis(ls, q) ==> forall|a: Seq<L>| #[trigger] cat(a, self@, 0) == evf(a, ls, pend(ls, q), if fsup(ls, q) < 0 { q } else { fsup(ls, q) }) } }
impl Th for Option<Option<String>> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { match *self { Some(n) => lsup(ls, q) >= 0 && vo_String(n) == vo_String(ls[lsup(ls, q)]->SupplProvision_0), None => lsup(ls, q) < 0 } } }
impl Th for Vec<SupplProvisionChildrenElement> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { if lsup(ls, q) < 0 { self@.len() == 0 } else { !dis(ls, q) ==>
  (forall|a: Seq<L>| #[trigger] cat(a, self@, 0) == evf(a, ls, lsup(ls, q) + 1, q)) && (self@.len() > 0 ==> hasc(ls, lsup(ls, q) + 1)) && (self@.len() == 0 ==> hasc(ls, lsup(ls, q) + 1) == hasc(ls, q) && forall|a: Seq<L>, f: int| f <= lsup(ls, q) ==> #[trigger] evf(a, ls, f, q) == evf(a, ls, f, lsup(ls, q) + 1)) } } }
impl Th for Vec<SupplProvision> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { !dis(ls, q) ==> if lsup(ls, q) < 0 { self@.len() == 0 } else { forall|a: Seq<L>| #[trigger] cat(a, self@, 0) == evf(a, ls, fsup(ls, q), lsup(ls, q)) } } }
pub broadcast proof fn lem_pre_op(ls: Seq<TLine>, q: int, l: int) requires #[trigger] is_pre(ls, q) ensures !#[trigger] op(ls, q, l) decreases q { if q > 0 { lem_pre_op(ls, q - 1, l); } }
pub broadcast proof fn lem_nt1(ls: Seq<TLine>, q: int) ensures #[trigger] nt(ls, q) >= 1, nt(ls, q) == 1 ==> st(ls, q).len() == 0 && !art(ls, q) decreases q { if q > 0 { lem_nt1(ls, q - 1); } }
pub broadcast proof fn lem_pre_art(ls: Seq<TLine>, q: int) requires #[trigger] is_pre(ls, q) ensures !#[trigger] art(ls, q) decreases q { if q > 0 { lem_pre_art(ls, q - 1); } }
/// facts about positions in the order of the text
pub broadcast proof fn lem_pos(ls: Seq<TLine>, q: int) requires q >= 0 ensures 0 <= #[trigger] pend(ls, q) <= q decreases q { if q > 0 { lem_pos(ls, q - 1); } }
pub broadcast proof fn lem_lsup(ls: Seq<TLine>, q: int) requires q >= 0 ensures -1 <= #[trigger] lsup(ls, q) < q || q == 0 && lsup(ls, q) == -1, lsup(ls, q) >= 0 ==> ls[lsup(ls, q)] is SupplProvision && 0 <= fsup(ls, q) <= lsup(ls, q) && pend(ls, q) <= fsup(ls, q), lsup(ls, q) < 0 ==> fsup(ls, q) == -1 decreases q { lem_pos(ls, q); if q > 0 { lem_lsup(ls, q - 1); lem_pos(ls, q - 1); } }
pub proof fn lem_cap(ls: Seq<TLine>, q: int) requires 0 <= q < ls.len() ensures ls[q] is Caption ==> lsup(ls, q + 1) == lsup(ls, q) && fsup(ls, q + 1) == fsup(ls, q) && dis(ls, q + 1) == dis(ls, q) && hasc(ls, q) == hasc(ls, q + 1) && (forall|a: Seq<L>, f: int| f <= q ==> #[trigger] evf(a, ls, f, q + 1) == evf(a, ls, f, q)) { }
pub open spec fn clsd(ls: Seq<TLine>, text: Seq<char>, n: int) -> bool { ls.len() == n && forall|i: int| 0 <= i < n ==> is_class(#[trigger] ls[i], trimmed(lines_of(text)[i])) }
pub open spec fn body_ok(b: LawBody, ls: Seq<TLine>, title: Seq<char>) -> bool { let e = stopf(ls, 0); &&& (match b.law_title { Some(t) => txt_of(t.text) == Some(title), None => false })
  &&& !dis(ls, e) ==> cat(cat(match b.preamble { Some(p) => cat(Seq::empty(), p.children@, 0), None => Seq::empty() }, b.main_provision.children@, 0), b.suppl_provision@, 0) == evf(Seq::empty(), ls, 0, e) }
"""
BG = ["lem_cat_push", "lem_cat_empty", "lem_stx_push", "lem_ptx_push", "lem_stx_0", "lem_ptx_0", "lem_join", "lem_head", "lem_two", "lem_one", "lem_down", "lem_level", "lem_under", "lem_under2"]
BGB = ["lem_pos", "lem_lsup", "lem_pre_op", "lem_pre_art", "lem_nt1"]
ONE = """pub proof fn lem_one_num() ensures parse_num("1"@) == Some(GArticleNumber { base_number: 1, eda_numbers: Seq::empty(), range_end_numbers: Seq::empty() }) {
  let n = GArticleNumber { base_number: 1, eda_numbers: Seq::empty(), range_end_numbers: Seq::empty() };
  lemma_show_one(); reveal_strlit("1"); assert("1"@ =~= seq!['1']);
  assert(show_num(n) == show_usize(1));
  lemma_num_text(n);
}
"""

def spec_text(o):
  o("pub mod ev { }")
  o(SPEC)
  for i, h in enumerate(HEADS):
    t = {"Part": "part_title", "Chapter": "chapter_title", "Section": "section_title", "Subsection": "subsection_title", "Division": "division_title"}[h]
    w = i + 1
    o("impl Fl for %s { open spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L> { if !self.hide { cat(a.push(L::Head(%d, c, v_ArticleNumber(self.num), txt_of(self.%s), self.delete)), self.children@, %d) } else { a.push(L::Other) } } }" % (h, w, t, w))
    if h != "Division":
      n = HEADS[i + 1]
      o("impl Fl for %sContents { open spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L> { match *self { %sContents::Article(x) => x.fl(a, c), %sContents::%s(x) => x.fl(a, c)%s } } }" % (h, h, h, n, ", SectionContents::Division(x) => x.fl(a, c)" if h == "Section" else ""))
      acc = h + "Contents"
    else: acc = "Article"
    o("impl Th for Vec<%s> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { forall|a: Seq<L>| #[trigger] cat(a, self@, %d) == evf(cat(a, old@, %d), ls, p, q) } }" % (acc, w, w))
  for k in range(11):
    n = "Item" if k == 0 else "Subitem%d" % k
    ch = "cat(%s, self.children@, 0)" if k < 10 else "%s"
    o("impl Fl for %s { open spec fn fl(&self, a: Seq<L>, c: int) -> Seq<L> { if self.title is None && self.struct_list@.len() == 0 && !self.hide { %s } else { a.push(L::Other) } } }" % (n, ch % ("soc(a.push(L::Item(%d, vo_ArticleNumber(self.num), self.delete)), self.sentence)" % k)))
    o("impl Th for Vec<%s> { open spec fn th(&self, old: Self, ls: Seq<TLine>, p: int, q: int) -> bool { (forall|a: Seq<L>| #[trigger] cat(a, self@, 0) == evf(cat(a, old@, 0), ls, p, q)) && (q == p || under(st(ls, p), st(ls, q), %d)%s) && shallow(ls, q, %d) && (q < ls.len() ==> !(ls[q] is Text)) } }" % (n, k, " && st(ls, q)[%d] == ls[p]->Item_0.pattern" % k if k else "", k + 1))

RX = {"cap": "^（(?<caption>[^）]+)）$", "sup": r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?([　\s]*)抄?$", "num": r"^(?<s>[^\s　]+)[\s　]+(?<text>.+)$"}
def rewrite_rx(b):
  """regex literals and their captures -> the three readings above; any other pattern is out of reach"""
  which = {}
  def lit(m):
    for k, p in RX.items():
      if m.group(2) == p: which[m.group(1)] = k; return ""
    raise Lost("a pattern for lines whose meaning is not known: " + m.group(2))
  b = re.sub(r'let (\w+) = Regex :: new \(r?"((?:[^"\\]|\\.)*)",?\) ?\.unwrap \(\);', lit, b)
  for v, k in which.items(): b = re.sub(r"\b%s\.captures \((\w+)\)" % v, r"\1.rx_%s ()" % k, b)
  b = re.sub(r'(& ?)?\b(\w+) \["(\w+)"\]', r"\2.grp_\3 ()", b)
  b = re.sub(r'\.name \("(\w+)"\)', r".name_\1 ()", b)
  if "Regex" in b or ".captures" in b: raise Lost("a regular expression outside the supported form")
  return b

def rx_expect(k, t):
  """what the three readings give for a text (compared with the regex crate); 0: nothing is claimed"""
  if k == "cap": return {"caption": t[1:-1]} if len(t) >= 3 and t[0] == "（" and t[-1] == "）" and "）" not in t[1:-1] else None
  if k == "sup":
    m = re.compile(RX["sup"].replace("?<", "?P<").replace("$", r"\Z")).match(t)
    return m and m.groupdict()
  if "\n" in t or t != t.strip(BLANK): return 0
  w = next((i for i, c in enumerate(t) if c in BLANK), len(t)); g = w
  while g < len(t) and t[g] in BLANK: g += 1
  return {"s": t[:w], "text": t[g:]} if 0 < w < g < len(t) else None
BLANK = " \t\n\x0b\x0c\r\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" + "".join(map(chr, range(0x2000, 0x200b)))
def rx_texts(rng, n):
  al = list("（）（）附則附則　 抄第一条の章あb") + ["附則", "附　則", "（昭和）", "\n", "\u2003", "\x85", "\r"]
  return ["".join(rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9]))).strip(rng.choice(["", BLANK])) for _ in range(n)]

def texty(f): return [p["name"] for p in f["params"] if "name" in p and p["ty"] == "&str"]

def con_of(f):
  k = f["key"]
  P = [p["name"] for p in f["params"] if "name" in p]
  ty = {p["name"]: p["ty"] for p in f["params"] if "name" in p}
  if k == "text_to_sentence":
    return dict(ensures=["forall|a: Seq<L>, c: int| #[trigger] r.fl(a, c) == a.push(L::Txt(Some(%s as int), %s@))" % (P[0], P[1])])
  if k == "parse_article_number": return dict(ensures=["rd_art(%s@) == (match r { Some(x) => Some(v_ArticleNumber(x)), None => None })" % P[0]])
  if k == "parse_item_number": return dict(ensures=["rd_item(%s@) == (match r { Some(x) => Some((gi(x), x.pattern)), None => None })" % P[0]])
  if k == "parse_line_contents": return dict(ensures=["is_class(r, %s@)" % P[0]])
  if k == "parse_body":
    return dict(ensures=["r is Ok", "exists|ls: Seq<TLine>| #[trigger] clsd(ls, %s@, lines_of(%s@).len() as int) && body_ok(r->Ok_0, ls, %s@)" % (P[1], P[1], P[0])])
  ln = P[-1]
  ls, p, q = "old(%s).v@" % ln, "(old(%s).pos as int)" % ln, "(final(%s).pos as int)" % ln
  A = dict(ls=ls, p=p, q=q)
  req = ["%s <= %s.len()" % (p, ls), "!is_pre(%(ls)s, %(p)s)" % A]
  ens = ["final(%s).v == old(%s).v" % (ln, ln), "%s <= %s <= %s.len()" % (p, q, ls)]
  isn = lambda v: "(%s < %s.len() ==> !(%s[%s] is %s))" % (q, ls, ls, q, v)
  if k in SUBS:
    K = int(k[13:]); A["K"] = K; A["par"], A["now"] = P[0], P[1]
    req += ["%(p)s < %(ls)s.len()" % A, "%(ls)s[%(p)s] is Item" % A, "%(ls)s[%(p)s]->Item_0.pattern == %(now)s" % A, "st(%(ls)s, %(p)s).len() == %(K)d" % A, "st(%(ls)s, %(p)s).last() == %(par)s" % A, "istep(st(%(ls)s, %(p)s), %(now)s, %(ls)s[%(p)s]->Item_0.base_number) == st(%(ls)s, %(p)s).push(%(now)s)" % A, "nt(%(ls)s, %(p)s) > 1" % A, "cap_at(%(ls)s, %(p)s) is None" % A]
    ens += ["fr(%(ls)s, %(p)s, %(q)s)" % A, "forall|a: Seq<L>| #[trigger] cat(a, r@, 0) == evf(a, %(ls)s, %(p)s, %(q)s)" % A, "under(st(%(ls)s, %(p)s), st(%(ls)s, %(q)s), %(K)d)" % A, "shallow(%(ls)s, %(q)s, %(K)d)" % A, isn("Text")]
  elif k == "parse_paragraph":
    req += ["nt(%(ls)s, %(p)s) == 2" % A, "st(%(ls)s, %(p)s).len() == 0" % A, "cap_at(%(ls)s, %(p)s) is None" % A]
    ens += ["fr(%(ls)s, %(p)s, %(q)s)" % A, "forall|a: Seq<L>, c: int| #[trigger] r.fl(a, c) == evf(a.push(L::Para(c == 6, v_ArticleNumber(*%s))).push(L::Txt(Some(1), %s@)), %s, %s, %s)" % (P[0], P[1], ls, p, q), isn("Item"), isn("Text")]
  elif k == "parse_article":
    c, n, t = P[0], P[1], P[2]
    req += ["%(p)s > 0" % A, "%s[%s - 1] == TLine::Article(*%s, *%s)" % (ls, p, n, t), "(match %s { Some(s) => Some(s@), None => None }) == cap_at(%s, %s - 1)" % (c, ls, p)]
    ens += ["fr(%(ls)s, %(p)s, %(q)s)" % A, "forall|a: Seq<L>| #[trigger] r.fl(a, inner(%(ls)s, %(p)s - 1)) == evf(app_ev(a, %(ls)s, %(p)s - 1), %(ls)s, %(p)s, %(q)s)" % A, isn("Item"), isn("Text"), isn("Paragraph")]
  else:
    W = CONT.index(k) + 1; H = HEADS[W - 1]; A["W"] = W
    n, t = P[0], P[1]
    req += ["%(p)s > 0" % A, "%s[%s - 1] == TLine::%s(*%s, *%s)" % (ls, p, H, n, t)]
    ens += ["frc(%(ls)s, %(p)s, %(q)s)" % A, "forall|a: Seq<L>, c: int| c == (if %(W)d > 1 && op(%(ls)s, %(p)s - 1, %(W)d - 1) { %(W)d - 1 } else { 0 }) ==> #[trigger] r.fl(a, c) == evf(app_ev(a, %(ls)s, %(p)s - 1), %(ls)s, %(p)s, %(q)s)" % A,
      "ops_below(%(ls)s, %(p)s, %(q)s, %(W)d)" % A, "lvl(%(ls)s, %(q)s, %(W)d)" % A, isn("Caption"), isn("Article")]
    if W < 5: ens.append(isn(HEADS[W]))
  return dict(requires=req, ensures=ens)

def tfn(f):
  f = dict(f, params=[dict(p) for p in f["params"]])
  for p in f["params"]:
    if "name" not in p: continue
    if "Peekable" in p["ty"]: p["ty"] = "&mut SliceIter<TLine>"
    elif re.sub(r"'\w+ ", "", p["ty"]) == "&str" and f["key"] not in ("parse_body",) + LINE: p["ty"] = "&String"
  if f["ret"] == "LineContents": f["ret"] = "TLine"
  fn = Fn(f)
  b = fn.body
  b = re.sub(r"\bLineContents ::", "TLine ::", b).replace(".trim ()", ".vx_trim ()").replace("sentence :: SentenceElement", "SentenceElement")
  k = f["key"]
  if k == "parse_line_contents":
    b = rewrite_rx(b)
    for v in ("Caption", "Part", "Chapter", "Section", "Subsection", "Division", "Article", "Paragraph", "Item", "SupplProvision", "Text"): b = re.sub(r"(?<!:: )\b%s \(" % v, "TLine :: %s (" % v, b)
  if k not in ("parse_body",) + LINE: b = re.sub(r"& (?:'\w+ )?str\b", "& String", b)
  fn.body = b
  con = con_of(f)
  ln = [p["name"] for p in f["params"] if "name" in p][-1] if k not in ("parse_body", "text_to_sentence") + LINE else None
  start = "reveal(is_class);" if k == "parse_line_contents" else "lem_one_num();" if "from_num_str" in b else ""
  P = [p["name"] for p in f["params"] if "name" in p]
  for l in fn.loops:
    evs = [e for e in fn.meta["events"] if l in e["loops"]]
    reg = loop_region(b, l)
    lp = b.index("vx_pre ! (%d);" % l)
    accs = []
    for e in evs:
      t = e["target"]
      if e["how"] in ("push", "assign") and t == e["base"] and not t.startswith("__ix") and t not in accs and t in fn.meta["locals"] and not re.search(r"let (?:mut )?%s\b" % re.escape(t), reg): accs.append(t)
    kind = fn.meta["loops"][str(l)]["kind"]
    it = None
    if kind == "while":
      it = fn.iter_of(l)
      if it.startswith("__it"):
        fn.pre[l] = "let ghost i%d = %s;" % (l, it) + "".join(" let ghost g%d_%s = %s;" % (l, t, t) for t in accs)
        fn.inv[l] = ["%s.wf()" % it, "%s.v@ == i%d.v@" % (it, l), "i%d.pos == 0" % l]
        fn.dec[l] = "%s.v@.len() - %s.pos" % (it, it)
        if "vx_lines" in fn.meta["locals"].get("__src" + it[4:], {}).get("init", ""):
          fn.inv[l] += ["%s.parts() == i%d.parts()" % (it, l)]
          for t in accs: fn.inv[l].append("clsd(%s@, %s@, %s.pos as int)" % (t, P[1], it))
        else:
          for t in accs: fn.inv[l].append("forall|a: Seq<L>| #[trigger] cat(a, %s@, 0) == Sx::sx(cat(a, g%d_%s@, 0), %s.v@, %s.pos as int)" % (t, l, t, it, it))
          fn.head[l] = "sx_step(%s.v@, %s.pos as int, %s.pos + 1);" % (it, it, it)
        continue
    # a loop over the lines
    it = ln or fn.iter_of(l)
    V, p, q = "%s.v@" % it, "p%d" % l, "(%s.pos as int)" % it
    fn.pre[l] = "let ghost v%d = %s.v; let ghost p%d = %s.pos as int;" % (l, it, l, it) + "".join(" let ghost g%d_%s = %s;" % (l, t, t) for t in accs)
    inv = ["%s.v == v%d" % (it, l), "%s <= %s <= %s.len()" % (p, q, V)]
    for t in accs: inv.append("th(%s, g%d_%s, %s, %s, %s)" % (t, l, t, V, p, q))
    if k in SUBS or k in ("parse_paragraph", "parse_article"): inv.append("fr(%s, %s, %s)" % (V, p, q))
    elif k in CONT:
      W = CONT.index(k) + 1
      inv += ["frc(%s, %s, %s)" % (V, p, q), "ops_below(%s, %s, %s, %d)" % (V, p, q, W + 1), "op(%s, %s, %d)" % (V, q, W), "lvl(%s, %s, %d)" % (V, q, W)]
    else: inv += ["stopf(%s, 0) == stopf(%s, %s)" % (V, V, q), "lvl(%s, %s, 0)" % (V, q), "%s == 0" % p]; fn.head[l] = "if %s < %s.len() { lem_cap(%s, %s); }" % (q, V, V, q)
    if k in SUBS and not fn.nested(l): inv.append("%s == %s ==> %s < %s.len() && %s[%s] is Item" % (q, p, q, V, V, q))
    fn.inv[l] = inv
    fn.dec[l] = "%s.len() - %s" % (V, q)
  fn.start = start
  return fn, con

def build_tree(vx, external=()):
  c = B.Crate(vx, "full", external)
  c.types, c.missing_types = B.exec_types(vx, ["ItemPattern", "ItemNumber"])
  if "ItemPattern" in c.types: c.types["ItemPattern"] = "#[derive(PartialEq, Eq, Structural, Copy)] " + c.types["ItemPattern"]
  c.types["Error"] += "\n#[verifier::external] impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }"
  for t in vx["types"]:
    if t["name"] == "LineContents" and t["mod"] == "parse_from_text":
      c.types["TLine"] = "pub enum TLine { %s }" % ", ".join("%s(%s)" % (v["name"], ", ".join(b for a, b in v["tys"])) for v in t["variants"])
  if "TLine" not in c.types: raise Lost("the kinds of lines")
  B.num_module(c, "full", None)
  n, d, t = c.mods[-1]
  c.mods[-1] = (n, d, ONE + t)
  o = Out(); spec_text(o)
  o("pub broadcast group bg_TSpec { %s }" % ", ".join(BG))
  o("pub broadcast group bg_TBody { %s }" % ", ".join(BGB))
  c.module("t_TSpec", [], o)
  c.external |= set(LINE[:2])
  for i, k in enumerate(list(LINE) + KEYS):
    o = Out()
    c.emit(k, tfn, o)
    c.module("t_T%d" % i, ["TSpec"] + (["TBody"] if k == "parse_body" else []), o)
  return c

if __name__ == "__main__":
  import sys
  vx = B.extract(sys.argv[1])
  c = build_tree(vx)
  open(sys.argv[2], "w").write(B.assemble(c, close=False))
  print("lost", c.lost)
