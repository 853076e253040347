"""C12, C13: reading the text forms of numbers (parse_article_number, parse_item_number) under contract.
The regular expressions are turned into specification functions (regen.py) from the pattern text
found in the code on every run; the lemmas show that running them over a rendered number gives
groups from which the code's own steps rebuild that number."""
import re
from gen import *
from execgen import *
import build as B, nfn, regen
from regen import cls_of

KEYS = ["parse_article_number", "parse_item_number_base", "parse_item_number"]
EXTRA_CONTRACTS += [k for k in KEYS if k not in EXTRA_CONTRACTS]
KAN = "[一二三四五六七八九十百千]"

def letter(R):
  g = set(R.gs)
  return "A" if "suffix" in g else "B" if "num" in g else "F" if "paren_kansuji" in g else "I" if "base_number" in g else "D" if not g else None

def regexes(vx, keys):
  """the patterns of the three functions: letter -> Re, and pattern -> letter"""
  out, ks, i = {}, {}, 0
  for f in vx["fns"]:
    if f["key"] not in keys: continue
    for p in regen.patterns(f["body"]):
      try: R = regen.Re("?", p)
      except regen.Unsupported: continue
      L = letter(R) or "X%d" % i
      if L in out and out[L].pat != p: raise Lost("two patterns of the kind " + L)
      i += 1
      out[L] = regen.Re(L, p); ks[p] = L
  return out, ks

SPEC = """
pub struct Mt { v: u8 }
impl Mt { pub uninterp spec fn mv(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.mv() { unimplemented!() } }
pub trait VxSplits { spec fn vss(&self) -> Seq<char>;
  fn vx_splits<'a>(&self, c: char) -> (r: SplitIter<'a>) ensures r.parts() == split_spec(self.vss(), c), r.v@.len() > 0, r.pos == 0;
  fn vx_split2<'a>(&self, c: char, d: char) -> (r: SplitIter<'a>) ensures r.parts() == split_spec(repl(self.vss(), d, seq![c]), c), r.v@.len() > 0, r.pos == 0; }
impl VxSplits for str { open spec fn vss(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_splits<'a>(&self, c: char) -> (r: SplitIter<'a>) { unimplemented!() } #[verifier::external_body] fn vx_split2<'a>(&self, c: char, d: char) -> (r: SplitIter<'a>) { unimplemented!() } }
impl VxSplits for String { open spec fn vss(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_splits<'a>(&self, c: char) -> (r: SplitIter<'a>) { unimplemented!() } #[verifier::external_body] fn vx_split2<'a>(&self, c: char, d: char) -> (r: SplitIter<'a>) { unimplemented!() } }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub open spec fn blank(c: char) -> bool { c == ' ' || ('\\u{9}' <= c && c <= '\\u{d}') || c == '\\u{85}' || c == '\\u{a0}' || c == '\\u{1680}' || ('\\u{2000}' <= c && c <= '\\u{200a}') || c == '\\u{2028}' || c == '\\u{2029}' || c == '\\u{202f}' || c == '\\u{205f}' || c == '\\u{3000}' }
#[verifier::external_body] pub broadcast proof fn axiom_trim(s: Seq<char>) requires s.len() > 0, !blank(s[0]), !blank(s.last()) ensures #[trigger] trimmed(s) == s {}
pub trait VxTrim { fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.vtr()); spec fn vtr(&self) -> Seq<char>; }
impl VxTrim for str { open spec fn vtr(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() } }
pub open spec fn rd_kan(s: Seq<char>) -> Option<usize> { match kan_val(s) { Some(v) => Some(v as usize), None => None } }
/// what one branch number reads as
pub open spec fn rd_part(kj: bool, s: Seq<char>) -> Option<usize> { match parse_usize(s) { Some(n) => Some(n), None => match parse_usize(unzen(s)) { Some(n) => Some(n), None => if kj { rd_kan(s) } else { None } } } }
/// the numbers of parts[i..] after a; empty parts do not count
pub open spec fn folde(kj: bool, a: Seq<usize>, parts: Seq<Seq<char>>, i: int) -> Option<Seq<usize>> decreases parts.len() - i {
  if i < 0 || i >= parts.len() { Some(a) } else if parts[i].len() == 0 { folde(kj, a, parts, i + 1) } else { match rd_part(kj, parts[i]) { Some(n) => folde(kj, a.push(n), parts, i + 1), None => None } }
}
pub open spec fn ne(p: Seq<Seq<char>>, i: int) -> Seq<Seq<char>> decreases i { if i <= 0 { Seq::empty() } else if p[i - 1].len() == 0 { ne(p, i - 1) } else { ne(p, i - 1).push(p[i - 1]) } }
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn lem_strs(v: Seq<&str>, x: &str) ensures #[trigger] strs(v.push(x)) == strs(v).push(x@) { assert(strs(v.push(x)) =~= strs(v).push(x@)); }
pub proof fn lem_folde_end(kj: bool, a: Seq<usize>, p: Seq<Seq<char>>, q: Seq<Seq<char>>, i: int) requires 0 <= i <= p.len() ensures folde(kj, a, p, i) is Some ==> true, folde(kj, a, p + q, i) == (match folde(kj, a, p, i) { Some(b) => folde(kj, b, p + q, p.len() as int), None => None }) decreases p.len() - i
{ if i < p.len() { assert((p + q)[i] == p[i]); if p[i].len() == 0 { lem_folde_end(kj, a, p, q, i + 1); } else { match rd_part(kj, p[i]) { Some(n) => { lem_folde_end(kj, a.push(n), p, q, i + 1); } None => {} } } } }
pub broadcast proof fn lem_ne(kj: bool, a: Seq<usize>, p: Seq<Seq<char>>, i: int) requires i == p.len() ensures #[trigger] folde(kj, a, ne(p, i), 0) == folde(kj, a, p, 0) decreases i
{
  if i > 0 {
    let p0 = p.drop_last(); let x = p.last();
    lem_ne_pre(p, i - 1);
    assert(ne(p0, i - 1) == ne(p, i - 1));
    lem_ne(kj, a, p0, i - 1);
    assert(p0 + seq![x] =~= p);
    lem_folde_end(kj, a, p0, seq![x], 0);
    let q = ne(p, i - 1);
    lem_folde_end(kj, a, q, seq![x], 0);
    assert(q + seq![x] =~= q.push(x));
    match folde(kj, a, p0, 0) { Some(b) => { if x.len() > 0 { assert(q.push(x)[q.len() as int] == x);
      match rd_part(kj, x) { Some(m) => { assert(folde(kj, b.push(m), p, i) == Some(b.push(m))); assert(folde(kj, b.push(m), q.push(x), q.len() as int + 1) == Some(b.push(m))); } None => {} } } else { assert(folde(kj, b, p, i) == Some(b)); } } None => {} }
  }
}
pub proof fn lem_ne_pre(p: Seq<Seq<char>>, i: int) requires 0 <= i < p.len() ensures ne(p.drop_last(), i) == ne(p, i) decreases i { if i > 0 { lem_ne_pre(p, i - 1); } }
pub broadcast proof fn lem_ne_len(p: Seq<Seq<char>>, i: int, j: int) requires 0 <= j < ne(p, i).len() ensures (#[trigger] ne(p, i)[j]).len() > 0 decreases i { if i > 0 { let q = ne(p, i - 1); if p[i - 1].len() == 0 { lem_ne_len(p, i - 1, j); } else if j < q.len() { lem_ne_len(p, i - 1, j); assert(q.push(p[i - 1])[j] == q[j]); } } }
pub open spec fn eda_parts(t: Seq<char>) -> Seq<Seq<char>> { split_spec(repl(t, 'ノ', seq!['の']), 'の') }
pub open spec fn eda_of(kj: bool, a: Seq<usize>, t: Seq<char>) -> Option<Seq<usize>> { folde(kj, a, eda_parts(t), 0) }
pub open spec fn mk(b: usize, e: Seq<usize>, r: Seq<usize>) -> GArticleNumber { GArticleNumber { base_number: b, eda_numbers: e, range_end_numbers: r } }
pub open spec fn ov(r: Option<ArticleNumber>) -> Option<GArticleNumber> { match r { Some(x) => Some(v_ArticleNumber(x)), None => None } }
pub open spec fn ends(a: Option<Seq<usize>>, t: Option<Seq<char>>, kj: bool) -> Option<Seq<usize>> { match a { None => None, Some(a) => match t { None => Some(a), Some(t) => eda_of(kj, a, t) } } }
pub open spec fn one(n: Option<usize>) -> Option<Seq<usize>> { match n { Some(n) => Some(seq![n]), None => None } }
pub broadcast proof fn lem_push0(n: usize) ensures #[trigger] Seq::<usize>::empty().push(n) == seq![n] { assert(Seq::<usize>::empty().push(n) =~= seq![n]); }
"""
LEM_SEQ = """
pub broadcast proof fn lem_e0u(x: Seq<usize>) ensures #[trigger] (Seq::<usize>::empty() + x) == x { assert(Seq::<usize>::empty() + x =~= x); }
pub broadcast proof fn lem_1e(n: usize) ensures #[trigger] (seq![n] + Seq::<usize>::empty()) == seq![n] { assert(seq![n] + Seq::<usize>::empty() =~= seq![n]); }
pub broadcast proof fn lem_takeall(x: Seq<usize>, n: int) requires n == x.len() ensures #[trigger] x.take(n) == x { assert(x.take(n) =~= x); }
"""
SPEC_A = """
pub open spec fn rd3(a: Option<Seq<char>>, z: Option<Seq<char>>, k: Option<Seq<char>>) -> Option<usize> { match a { Some(t) => parse_usize(t), None => match z { Some(t) => parse_usize(unzen(t)), None => match k { Some(t) => rd_kan(t), None => None } } } }
pub open spec fn build_art(m: StA) -> Option<GArticleNumber> {
  match (rd3(m.g_arabic_num, m.g_zenkaku_num, m.g_kansuji), eda_of(true, Seq::empty(), m.g_eda_str->Some_0)) {
    (Some(b), Some(e)) => match ends(if m.g_arabic_num_2 is Some || m.g_zenkaku_num_2 is Some || m.g_kansuji_2 is Some { one(rd3(m.g_arabic_num_2, m.g_zenkaku_num_2, m.g_kansuji_2)) } else { Some(Seq::empty()) }, m.g_eda_str_2, true) { Some(r) => Some(mk(b, e, r)), None => None },
    _ => None }
}
pub open spec fn no_suffix(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !@SFX@(#[trigger] s[i]) }
"""
SPEC_B = """
pub open spec fn build_par(m: StB) -> Option<GArticleNumber> {
  match (rd_part(false, m.g_num->Some_0), eda_of(false, Seq::empty(), m.g_eda_str->Some_0)) {
    (Some(b), Some(e)) => match ends(match m.g_num_2 { Some(t) => one(rd_part(false, t)), None => Some(Seq::empty()) }, m.g_eda_str_2, false) { Some(r) => Some(mk(b, e, r)), None => None },
    _ => None }
}
"""
LEM_TEXT = """
pub proof fn lem_app_cat(s: Seq<char>, k: int, l: Seq<usize>, lo: int, hi: int) requires 0 <= lo ensures app(s, k, l, lo, hi) == s + app(Seq::empty(), k, l, lo, hi) decreases hi
{ if hi > lo { lem_app_cat(s, k, l, lo, hi - 1); assert(app(s, k, l, lo, hi) =~= s + app(Seq::empty(), k, l, lo, hi)); } else { assert(s + Seq::<char>::empty() =~= s); } }
pub open spec fn tail(k: int, l: Seq<usize>, lo: int, hi: int) -> Seq<char> { app(Seq::empty(), k, l, lo, hi) }
pub proof fn lem_front(k: int, l: Seq<usize>, lo: int, hi: int) requires 0 <= lo < hi ensures tail(k, l, lo, hi) == (seq!['の'] + sym(k, l[lo])) + tail(k, l, lo + 1, hi) decreases hi
{
  if hi > lo + 1 { lem_front(k, l, lo, hi - 1); assert(tail(k, l, lo, hi) =~= (seq!['の'] + sym(k, l[lo])) + tail(k, l, lo + 1, hi)); }
  else { assert(tail(k, l, lo, lo) =~= Seq::empty()); assert(tail(k, l, lo + 1, hi) =~= Seq::empty()); assert(tail(k, l, lo, hi) =~= seq!['の'] + sym(k, l[lo])); }
}
/// characters of a symbol of style k
pub open spec fn cls(k: int, c: char) -> bool { if k == 0 { @KAN@(c) } else if k == 1 { @KATA@(c) } else if k == 2 { @HIRA@(c) } else if k == 3 { @ZEN@(c) } else if k == 4 || k == 6 { @UP@(c) } else { @LO@(c) } }
pub proof fn lem_sym_cls(k: int, n: usize) requires 0 <= k <= 7, okn(k, n) ensures sym(k, n).len() > 0, forall|i: int| 0 <= i < sym(k, n).len() ==> cls(k, #[trigger] sym(k, n)[i])
{
  if k == 3 { lemma_usize_text(n); } else if k >= 6 { lem_letters_cls(n as int, k == 6); }
}
pub proof fn lem_letters_cls(n: int, up: bool) requires n >= 0 ensures n > 0 ==> letters(n, up).len() > 0, forall|i: int| 0 <= i < letters(n, up).len() ==> cls(if up { 6 } else { 7 }, #[trigger] letters(n, up)[i]) decreases n
{ if n > 0 { let m = (n - 1) / 26; lem_letters_cls(m, up); let a = letters(m, up); let c = if up { up_ch((n - 1) % 26) } else { lo_ch((n - 1) % 26) }; assert(0 <= (n - 1) % 26 < 26); assert(letters(n, up) == a.push(c)); assert(cls(if up { 6 } else { 7 }, c));
  assert forall|i: int| 0 <= i < letters(n, up).len() implies cls(if up { 6 } else { 7 }, #[trigger] letters(n, up)[i]) by { if i < a.len() { assert(a.push(c)[i] == a[i]); } else { assert(a.push(c)[i] == c); } } } }
pub proof fn lem_tail_chars(k: int, l: Seq<usize>, lo: int, hi: int) requires 0 <= k <= 7, 0 <= lo, hi <= l.len(), okns(k, l) ensures forall|i: int| 0 <= i < tail(k, l, lo, hi).len() ==> #[trigger] tail(k, l, lo, hi)[i] == 'の' || cls(k, tail(k, l, lo, hi)[i]) decreases hi
{ if hi > lo && hi > 0 { lem_tail_chars(k, l, lo, hi - 1); lem_sym_cls(k, l[hi - 1]); let t = tail(k, l, lo, hi - 1); let d = sym(k, l[hi - 1]); assert(tail(k, l, lo, hi) == t + (seq!['の'] + d));
  assert forall|i: int| 0 <= i < tail(k, l, lo, hi).len() implies #[trigger] tail(k, l, lo, hi)[i] == 'の' || cls(k, tail(k, l, lo, hi)[i]) by { if i < t.len() { assert((t + (seq!['の'] + d))[i] == t[i]); } else if i > t.len() { assert((t + (seq!['の'] + d))[i] == d[i - t.len() - 1]); } } }
  else { assert(tail(k, l, lo, hi) =~= Seq::empty()); } }
pub open spec fn syms(k: int, l: Seq<usize>, lo: int, hi: int) -> Seq<Seq<char>> { seq![Seq::<char>::empty()] + Seq::new((hi - lo) as nat, |i: int| sym(k, l[lo + i])) }
pub proof fn lem_tail_split(k: int, l: Seq<usize>, lo: int, hi: int) requires 0 <= k <= 7, k != 2, 0 <= lo <= hi <= l.len(), okns(k, l) ensures split_spec(tail(k, l, lo, hi), 'の') == syms(k, l, lo, hi) decreases hi
{
  if hi > lo {
    lem_tail_split(k, l, lo, hi - 1); lem_sym_cls(k, l[hi - 1]);
    let t = tail(k, l, lo, hi - 1); let d = sym(k, l[hi - 1]);
    assert(tail(k, l, lo, hi) =~= t.push('の') + d);
    lemma_split_sep(t, d, 'の');
    assert(split_spec(tail(k, l, lo, hi), 'の') =~= syms(k, l, lo, hi));
  } else { lemma_split_one(Seq::empty(), 'の'); assert(tail(k, l, lo, hi) =~= Seq::empty()); assert(syms(k, l, lo, hi) =~= seq![Seq::<char>::empty()]); }
}
pub proof fn lem_folde_syms(kj: bool, a: Seq<usize>, k: int, l: Seq<usize>, lo: int, i: int) requires 0 <= k <= 7, 0 <= lo <= l.len(), 1 <= i <= l.len() - lo + 1, okns(k, l), forall|j: int| 0 <= j < l.len() ==> rd_part(kj, #[trigger] sym(k, l[j])) == Some(l[j]) && sym(k, l[j]).len() > 0
  ensures folde(kj, a, syms(k, l, lo, l.len() as int), i) == Some(a + l.skip(lo + i - 1)) decreases l.len() - lo - i + 1
{
  let p = syms(k, l, lo, l.len() as int);
  if i < p.len() {
    let n = l[lo + i - 1];
    assert(p[i] == sym(k, n));
    lem_folde_syms(kj, a.push(n), k, l, lo, i + 1);
    assert(a.push(n) + l.skip(lo + i) =~= a + l.skip(lo + i - 1));
  } else { assert(a + l.skip(lo + i - 1) =~= a); }
}
pub proof fn lem_rd_part(kj: bool, k: int, n: usize) requires k == 0 && kj || k == 3, okn(k, n) ensures rd_part(kj, sym(k, n)) == Some(n)
{
  lem_sym_cls(k, n); let s = sym(k, n);
  assert(cls(k, s[0]));
  lemma_parse_nondigit(s);
  if k == 0 { axiom_kansuji(n as int); assert(unzen(s)[0] == s[0]); lemma_parse_nondigit(unzen(s)); } else { lem_unzen(n); lemma_usize_text(n); }
}
pub proof fn lem_eda(kj: bool, a: Seq<usize>, k: int, l: Seq<usize>, lo: int) requires k == 0 && kj || k == 3, 0 <= lo <= l.len(), okns(k, l) ensures eda_of(kj, a, tail(k, l, lo, l.len() as int)) == Some(a + l.skip(lo))
{
  let t = tail(k, l, lo, l.len() as int);
  lem_tail_chars(k, l, lo, l.len() as int);
  lem_repl(t, 'ノ', seq!['の']);
  assert(repl(t, 'ノ', seq!['の']) =~= t);
  lem_tail_split(k, l, lo, l.len() as int);
  assert forall|j: int| 0 <= j < l.len() implies rd_part(kj, #[trigger] sym(k, l[j])) == Some(l[j]) && sym(k, l[j]).len() > 0 by { lem_rd_part(kj, k, l[j]); lem_sym_cls(k, l[j]); }
  let p = syms(k, l, lo, l.len() as int);
  assert(p[0].len() == 0);
  lem_folde_syms(kj, a, k, l, lo, 1);
}
"""
LEM_AT = """
pub open spec fn at(s: Seq<char>, p: int, t: Seq<char>) -> bool { 0 <= p && p + t.len() <= s.len() && (forall|i: int| p <= i < p + t.len() ==> #[trigger] s[i] == t[i - p]) }
pub proof fn lem_at(a: Seq<char>, t: Seq<char>, b: Seq<char>) ensures at((a + t) + b, a.len() as int, t) { let s = (a + t) + b; assert forall|i: int| a.len() <= i < a.len() + t.len() implies #[trigger] s[i] == t[i - a.len()] by { assert((a + t)[i] == t[i - a.len()]); } }
pub proof fn lem_at_sub(s: Seq<char>, p: int, t: Seq<char>) requires at(s, p, t) ensures s.subrange(p, p + t.len() as int) == t { assert(s.subrange(p, p + t.len() as int) =~= t); }
pub proof fn lem_at_in(s: Seq<char>, p: int, a: Seq<char>, t: Seq<char>, b: Seq<char>) requires at(s, p, (a + t) + b) ensures at(s, p + a.len() as int, t), at(s, p, a), at(s, p + a.len() as int + t.len() as int, b)
{ let w = (a + t) + b; let q: int = p + a.len() as int; let q2: int = q + t.len() as int;
  assert forall|i: int| q <= i < q + t.len() implies #[trigger] s[i] == t[i - q] by { assert(s[i] == w[i - p]); assert(w[i - p] == (a + t)[i - p]); }
  assert forall|i: int| p <= i < p + a.len() implies #[trigger] s[i] == a[i - p] by { assert(s[i] == w[i - p]); assert(w[i - p] == (a + t)[i - p]); }
  assert forall|i: int| q2 <= i < q2 + b.len() implies #[trigger] s[i] == b[i - q2] by { assert(s[i] == w[i - p]); } }
pub open spec fn allc(k: int, t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> cls(k, #[trigger] t[i]) }
"""
# the pattern of the branch numbers over a rendered tail
LEM_STAR = """
pub proof fn lem_star@K@(s: Seq<char>, st: St@K@, l: Seq<usize>, lo: int, q: int)
  requires 0 <= lo <= l.len(), okns(@k@, l), q == st.p + tail(@k@, l, lo, l.len() as int).len(), at(s, st.p, tail(@k@, l, lo, l.len() as int)), q < s.len() ==> !@SEP@(s[q]) && !@CK@(s[q])
  ensures @star@(s, st) == Some(St@K@ { p: q, ..st }) decreases l.len() - lo
{
  let p = st.p; let t = tail(@k@, l, lo, l.len() as int);
  if lo < l.len() {
    lem_front(@k@, l, lo, l.len() as int);
    let d = sym(@k@, l[lo]); lem_sym_cls(@k@, l[lo]);
    let p2: int = p + 1 + d.len() as int;
    let t2 = tail(@k@, l, lo + 1, l.len() as int);
    lem_at_in(s, p, seq!['の'], d, t2);
    assert(s[p] == seq!['の'][p - p]); assert(s[p + 1] == d[0]);
    assert forall|i: int| p + 1 <= i < p2 implies @CK@(#[trigger] s[i]) by { assert(s[i] == d[i - p - 1]); assert(cls(@k@, d[i - p - 1])); }
    if lo + 1 < l.len() { lem_front(@k@, l, lo + 1, l.len() as int); assert(s[p2] == t2[p2 - p2]); assert(t2[0] == 'の'); } else { assert(t2 =~= Seq::empty()); assert(p2 == q); }
    @RUNS@
    let st2 = St@K@ { p: p2, ..st };
    assert(@item@(s, st) == Some(st2));
    lem_star@K@(s, st2, l, lo + 1, q);
    assert(@star@(s, st) == @star@(s, st2));
  } else {
    assert(tail(@k@, l, lo, l.len() as int) =~= Seq::empty());
    assert(@item@(s, st) is None);
    assert(St@K@ { p: q, ..st } == st);
  }
}
pub proof fn lem_opt0@K@(s: Seq<char>, st: St@K@) requires st.p == s.len() ensures @opt@(s, st) == Some(st) {}
/// the branch numbers are one group
pub proof fn lem_eda1@K@(s: Seq<char>, st: St@K@, l: Seq<usize>, q: int)
  requires okns(@k@, l), q == st.p + tail(@k@, l, 0, l.len() as int).len(), at(s, st.p, tail(@k@, l, 0, l.len() as int)), q < s.len() ==> !@SEP@(s[q]) && !@CK@(s[q])
  ensures @eda1@(s, st) == @opt@(s, St@K@ { p: q, g_eda_str: Some(tail(@k@, l, 0, l.len() as int)), ..st })
{ lem_star@K@(s, st, l, 0, q); lem_at_sub(s, st.p, tail(@k@, l, 0, l.len() as int)); }
pub proof fn lem_eda2@K@(s: Seq<char>, st: St@K@, l: Seq<usize>, q: int)
  requires l.len() > 0, okns(@k@, l), q == st.p + tail(@k@, l, 1, l.len() as int).len(), at(s, st.p, tail(@k@, l, 1, l.len() as int)), at(s, q, seq!['ま', 'で'])
  ensures @eda2@(s, st) == Some(St@K@ { p: q + 2, g_eda_str_2: Some(tail(@k@, l, 1, l.len() as int)), ..st })
{ assert(s[q] == seq!['ま', 'で'][q - q]); assert(s[q + 1] == seq!['ま', 'で'][q + 1 - q]); lem_star@K@(s, st, l, 1, q); lem_at_sub(s, st.p, tail(@k@, l, 1, l.len() as int)); }
"""
LEM_TXT = """
/// where the pieces of a rendered text stand
pub proof fn lem_pieces(w: int, k: int, u: Seq<char>, n: GArticleNumber) requires numok(k, n)
  ensures ({ let s = text_of(w, k, u, n); let e = n.eda_numbers; let r = n.range_end_numbers; let a = wrap(w, k, n.base_number, u); let t1 = tail(k, e, 0, e.len() as int); let p4: int = a.len() as int + t1.len() as int;
    &&& at(s, 0, a) &&& at(s, a.len() as int, t1) &&& (r.len() == 0 ==> s.len() == p4)
    &&& (r.len() > 0 ==> ({ let b = wrap2(w, k, r[0], u); let t2 = tail(k, r, 1, r.len() as int); let p5: int = p4 + b.len() as int; let p6: int = p5 + t2.len() as int; at(s, p4, b) && at(s, p5, t2) && at(s, p6, seq!['ま', 'で']) && s.len() == p6 + 2 })) })
{
  let s = text_of(w, k, u, n); let e = n.eda_numbers; let r = n.range_end_numbers; let a = wrap(w, k, n.base_number, u); let t1 = tail(k, e, 0, e.len() as int); let z = Seq::<char>::empty();
  lem_app_cat(a, k, e, 0, e.len() as int);
  if r.len() == 0 {
    assert(s =~= (z + a) + t1); lem_at(z, a, t1); assert(s =~= (a + t1) + z); lem_at(a, t1, z);
  } else {
    let b = wrap2(w, k, r[0], u); let t2 = tail(k, r, 1, r.len() as int); let m = seq!['ま', 'で'];
    lem_app_cat((a + t1) + b, k, r, 1, r.len() as int);
    assert(s == (((a + t1) + b) + t2) + m);
    assert(s =~= (z + a) + (((t1 + b) + t2) + m)); lem_at(z, a, ((t1 + b) + t2) + m);
    assert(s =~= (a + t1) + ((b + t2) + m)); lem_at(a, t1, (b + t2) + m);
    assert(s =~= ((a + t1) + b) + (t2 + m)); lem_at(a + t1, b, t2 + m);
    lem_at((a + t1) + b, t2, m);
    assert(s =~= ((((a + t1) + b) + t2) + m) + z); lem_at(((a + t1) + b) + t2, m, z);
  }
}
"""
LEM_A = """
pub open spec fn unit(u: char) -> bool { u == '編' || u == '章' || u == '節' || u == '款' || u == '目' || u == '条' }
pub open spec fn st0A() -> StA { StA { p: 0, @NONE@ } }
pub open spec fn st1A(b: Seq<char>, u: char) -> StA { StA { p: b.len() as int + 2, g_kansuji: Some(b), g_suffix: Some(seq![u]), ..st0A() } }
/// the head of the pattern: 第, the number, the unit
pub proof fn lem_headA(s: Seq<char>, b: Seq<char>, u: char) requires at(s, 0, (seq!['第'] + b) + seq![u]), unit(u), allc(0, b) ensures rA(s) == @eda1@(s, st1A(b, u))
{
  let p2: int = 1 + b.len() as int;
  lem_at_in(s, 0, seq!['第'], b, seq![u]);
  assert(s[0] == seq!['第'][0 - 0]); assert(s[1] == b[1 - 1]); assert(s[p2] == seq![u][p2 - p2]);
  assert forall|i: int| 1 <= i < p2 implies @CK@(#[trigger] s[i]) by { assert(s[i] == b[i - 1]); assert(cls(0, b[i - 1])); }
  assert(@CK@(s[1]));
  lrun_@AR@(s, 1, 1); lrun_@ZE@(s, 1, 1); lrun_@CK@(s, 1, p2);
  lem_at_sub(s, 1, b); lem_at_sub(s, p2, seq![u]);
}
/// the range end
pub proof fn lem_optA(s: Seq<char>, st: StA, b: Seq<char>, u: char) requires at(s, st.p, (seq!['か', 'ら', '第'] + b) + seq![u]), unit(u), allc(0, b)
  ensures @opt@(s, st) == (match @eda2@(s, StA { p: st.p + 4 + b.len(), g_kansuji_2: Some(b), g_suffix_2: Some(seq![u]), ..st }) { Some(x) => Some(x), None => Some(st) })
{
  let p = st.p; let p1: int = p + 3; let p2: int = p1 + b.len() as int;
  lem_at_in(s, p, seq!['か', 'ら', '第'], b, seq![u]);
  assert(s[p] == seq!['か', 'ら', '第'][p - p]); assert(s[p + 1] == seq!['か', 'ら', '第'][p + 1 - p]); assert(s[p + 2] == seq!['か', 'ら', '第'][p + 2 - p]);
  assert(s[p1] == b[p1 - p1]); assert(s[p2] == seq![u][p2 - p2]);
  assert forall|i: int| p1 <= i < p2 implies @CK@(#[trigger] s[i]) by { assert(s[i] == b[i - p1]); assert(cls(0, b[i - p1])); }
  assert(@CK@(s[p1]));
  lrun_@AR@(s, p1, p1); lrun_@ZE@(s, p1, p1); lrun_@CK@(s, p1, p2);
  lem_at_sub(s, p1, b); lem_at_sub(s, p2, seq![u]);
}
/// what the pattern finds in a rendered text
pub open spec fn resA(n: GArticleNumber, u: char) -> StA {
  let b = sym(0, n.base_number); let e = n.eda_numbers; let r = n.range_end_numbers; let t1 = tail(0, e, 0, e.len() as int);
  let st2 = StA { p: b.len() as int + 2 + t1.len(), g_eda_str: Some(t1), ..st1A(b, u) };
  if r.len() == 0 { st2 } else { let c = sym(0, r[0]); let t2 = tail(0, r, 1, r.len() as int); StA { p: st2.p + 4 + c.len() + t2.len() + 2, g_kansuji_2: Some(c), g_suffix_2: Some(seq![u]), g_eda_str_2: Some(t2), ..st2 } }
}
pub proof fn lem_run_art(n: GArticleNumber, u: char) requires unit(u), numok(0, n) ensures rA(text_of(0, 0, seq![u], n)) == Some(resA(n, u))
{
  hide(@eda1@); hide(@opt@); hide(@eda2@); hide(rA); hide(sym); hide(text_of);
  let s = text_of(0, 0, seq![u], n);
  let b = sym(0, n.base_number); let e = n.eda_numbers; let r = n.range_end_numbers; let t1 = tail(0, e, 0, e.len() as int);
  lem_pieces(0, 0, seq![u], n); lem_sym_cls(0, n.base_number);
  lem_headA(s, b, u);
  let st1 = st1A(b, u); let p4: int = st1.p + t1.len() as int; let st2 = StA { p: p4, g_eda_str: Some(t1), ..st1 };
  if r.len() > 0 {
    let c = sym(0, r[0]); let t2 = tail(0, r, 1, r.len() as int);
    lem_sym_cls(0, r[0]);
    assert(s[p4] == wrap2(0, 0, r[0], seq![u])[p4 - p4]);
    lem_eda1A(s, st1, e, p4);
    lem_optA(s, st2, c, u);
    let st3 = StA { p: p4 + 4 + c.len(), g_kansuji_2: Some(c), g_suffix_2: Some(seq![u]), ..st2 };
    lem_eda2A(s, st3, r, st3.p + t2.len());
  } else { lem_eda1A(s, st1, e, p4); lem_opt0A(s, st2); }
}
pub proof fn lem_read_art(n: GArticleNumber, u: char) requires unit(u), numok(0, n)
  ensures rA(text_of(0, 0, seq![u], n)) is Some, build_art(rA(text_of(0, 0, seq![u], n))->Some_0) == Some(n)
{
  lem_run_art(n, u);
  let e = n.eda_numbers; let r = n.range_end_numbers;
  lem_eda(true, Seq::empty(), 0, e, 0);
  assert(Seq::<usize>::empty() + e.skip(0) =~= e);
  axiom_kansuji(n.base_number as int);
  if r.len() > 0 { lem_eda(true, seq![r[0]], 0, r, 1); assert(seq![r[0]] + r.skip(1) =~= r); axiom_kansuji(r[0] as int); }
  else { assert(r =~= Seq::empty()); }
}
"""
LEM_B = """
pub open spec fn st0B() -> StB { StB { p: 0, @NONE@ } }
pub proof fn lem_headB(s: Seq<char>, b: Seq<char>) requires at(s, 0, b), allc(3, b), b.len() < s.len() ==> !@ZE@(s[b.len() as int]) ensures rB(s) == @eda1@(s, StB { p: b.len() as int, g_num: Some(b), ..st0B() })
{
  let p2: int = b.len() as int;
  assert forall|i: int| 0 <= i < p2 implies @ZE@(#[trigger] s[i]) by { assert(s[i] == b[i - 0]); assert(cls(3, b[i])); }
  assert(@ZE@(s[0]));
  lrun_@AR@(s, 0, 0); lrun_@ZE@(s, 0, p2);
  lem_at_sub(s, 0, b);
}
pub proof fn lem_optB(s: Seq<char>, st: StB, b: Seq<char>) requires at(s, st.p, seq!['か', 'ら'] + b), allc(3, b), ({ let q: int = st.p + 2 + b.len() as int; q < s.len() ==> !@ZE@(s[q]) })
  ensures @opt@(s, st) == (match @eda2@(s, StB { p: st.p + 2 + b.len(), g_num_2: Some(b), ..st }) { Some(x) => Some(x), None => Some(st) })
{
  let p = st.p; let p1: int = p + 2; let p2: int = p1 + b.len() as int;
  assert((seq!['か', 'ら'] + b) + Seq::<char>::empty() =~= seq!['か', 'ら'] + b);
  lem_at_in(s, p, seq!['か', 'ら'], b, Seq::<char>::empty());
  assert(s[p] == seq!['か', 'ら'][p - p]); assert(s[p + 1] == seq!['か', 'ら'][p + 1 - p]);
  assert(s[p1] == b[p1 - p1]);
  assert forall|i: int| p1 <= i < p2 implies @ZE@(#[trigger] s[i]) by { assert(s[i] == b[i - p1]); assert(cls(3, b[i - p1])); }
  assert(@ZE@(s[p1]));
  lrun_@AR@(s, p1, p1); lrun_@ZE@(s, p1, p2);
  lem_at_sub(s, p1, b);
}
pub open spec fn resB(n: GArticleNumber) -> StB {
  let b = sym(3, n.base_number); let e = n.eda_numbers; let r = n.range_end_numbers; let t1 = tail(3, e, 0, e.len() as int);
  let st2 = StB { p: b.len() as int + t1.len(), g_num: Some(b), g_eda_str: Some(t1), ..st0B() };
  if r.len() == 0 { st2 } else { let c = sym(3, r[0]); let t2 = tail(3, r, 1, r.len() as int); StB { p: st2.p + 2 + c.len() + t2.len() + 2, g_num_2: Some(c), g_eda_str_2: Some(t2), ..st2 } }
}
pub proof fn lem_run_par(n: GArticleNumber) ensures rB(text_of(1, 3, Seq::empty(), n)) == Some(resB(n))
{
  hide(@eda1@); hide(@opt@); hide(@eda2@); hide(rB); hide(sym); hide(text_of);
  let s = text_of(1, 3, Seq::empty(), n);
  let b = sym(3, n.base_number); let e = n.eda_numbers; let r = n.range_end_numbers; let t1 = tail(3, e, 0, e.len() as int);
  lem_pieces(1, 3, Seq::empty(), n); lem_sym_cls(3, n.base_number);
  let p3: int = b.len() as int; let p4: int = p3 + t1.len() as int;
  if e.len() > 0 { lem_front(3, e, 0, e.len() as int); assert(s[p3] == t1[p3 - p3]); assert(t1[0] == 'の'); } else { assert(t1 =~= Seq::empty()); }
  if r.len() > 0 { assert(s[p4] == wrap2(1, 3, r[0], Seq::empty())[p4 - p4]); assert(s[p4] == 'か'); }
  lem_headB(s, b);
  let st1 = StB { p: p3, g_num: Some(b), ..st0B() }; let st2 = StB { p: p4, g_eda_str: Some(t1), ..st1 };
  lem_eda1B(s, st1, e, p4);
  if r.len() > 0 {
    let c = sym(3, r[0]); let t2 = tail(3, r, 1, r.len() as int); let p7: int = p4 + 2 + c.len() as int; let p8: int = p7 + t2.len() as int;
    lem_sym_cls(3, r[0]);
    assert(s[p8] == seq!['ま', 'で'][p8 - p8]);
    if r.len() > 1 { lem_front(3, r, 1, r.len() as int); assert(s[p7] == t2[p7 - p7]); assert(t2[0] == 'の'); } else { assert(t2 =~= Seq::empty()); }
    lem_optB(s, st2, c);
    lem_eda2B(s, StB { p: p7, g_num_2: Some(c), ..st2 }, r, p8);
  } else { lem_opt0B(s, st2); }
}
pub proof fn lem_nosfx(n: GArticleNumber) ensures no_suffix(text_of(1, 3, Seq::empty(), n))
{
  let s = text_of(1, 3, Seq::empty(), n);
  let b = sym(3, n.base_number); let e = n.eda_numbers; let r = n.range_end_numbers; let t1 = tail(3, e, 0, e.len() as int);
  lem_pieces(1, 3, Seq::empty(), n); lem_sym_cls(3, n.base_number); lem_tail_chars(3, e, 0, e.len() as int);
  if r.len() > 0 { lem_sym_cls(3, r[0]); lem_tail_chars(3, r, 1, r.len() as int); }
  let p3: int = b.len() as int; let p4: int = p3 + t1.len() as int;
  assert forall|i: int| 0 <= i < s.len() implies !@SFX@(#[trigger] s[i]) by {
    if i < p3 { assert(s[i] == b[i - 0]); assert(cls(3, b[i])); } else if i < p4 { assert(s[i] == t1[i - p3]); }
    else { let x = wrap2(1, 3, r[0], Seq::empty()); let t2 = tail(3, r, 1, r.len() as int); let p5: int = p4 + x.len() as int; let p6: int = p5 + t2.len() as int;
      if i < p5 { assert(s[i] == x[i - p4]); if i >= p4 + 2 { assert(x[i - p4] == sym(3, r[0])[i - p4 - 2]); } } else if i < p6 { assert(s[i] == t2[i - p5]); } else { assert(s[i] == seq!['ま', 'で'][i - p6]); } }
  }
}
pub proof fn lem_read_par(n: GArticleNumber)
  ensures no_suffix(text_of(1, 3, Seq::empty(), n)), rB(text_of(1, 3, Seq::empty(), n)) is Some, build_par(rB(text_of(1, 3, Seq::empty(), n))->Some_0) == Some(n)
{
  lem_nosfx(n); lem_run_par(n);
  let e = n.eda_numbers; let r = n.range_end_numbers;
  lem_eda(false, Seq::empty(), 3, e, 0);
  assert(Seq::<usize>::empty() + e.skip(0) =~= e);
  lem_rd_part(false, 3, n.base_number);
  if r.len() > 0 { lem_eda(false, seq![r[0]], 3, r, 1); assert(seq![r[0]] + r.skip(1) =~= r); lem_rd_part(false, 3, r[0]); }
  else { assert(r =~= Seq::empty()); }
}
"""

ITEMS = [("paren_iroha_katakana", 1), ("paren_iroha_hiragana", 2), ("paren_kansuji", 0), ("paren_zenkaku_num", 3), ("paren_zenkaku_upper", 6), ("paren_zenkaku_lower", 7)]
def base_spec():
  """what one symbol reads as: by the group that matched"""
  t = "None"
  for pre, P in (("no_", "NoParen"), ("", "Paren")):
    for g, k in reversed(ITEMS):
      x = "m.g_%s%s->Some_0" % (pre, g)
      st = {1: "IrohaKatakana", 2: "IrohaHiragana", 0: "Kansuji", 3: "ZenkakuNum", 6: "ZenkakuUpper", 7: "ZenkakuLower"}[k]
      if k >= 6: v = "if allrom(%s) { pv(ItemPattern::%sZenkakuRoman%s, rd_roman(%s)) } else { pv(ItemPattern::%s%s, rd_alpha(%s)) }" % (x, P, st[7:], x, P, st, x)
      else: v = "pv(ItemPattern::%s%s, %s)" % (P, st, "rd_kan(%s)" % x if k == 0 else "parse_usize(unzen(%s))" % x if k == 3 else "rd_iro(%d, %s)" % (k, x))
      t = "if m.g_%s%s is Some { %s } else { %s }" % (pre, g, v, t)
  return t
SPEC_I = """
pub open spec fn rch(c: char) -> bool { c == 'Ｉ' || c == 'Ｖ' || c == 'Ｘ' || c == 'Ｌ' || c == 'Ｃ' || c == 'ｉ' || c == 'ｖ' || c == 'ｘ' || c == 'ｌ' || c == 'ｃ' }
/// spelled with roman digits only
pub open spec fn allrom(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> rch(#[trigger] t[i]) }
pub open spec fn pv(p: ItemPattern, o: Option<usize>) -> Option<(ItemPattern, usize)> { match o { Some(n) => Some((p, n)), None => None } }
pub open spec fn build_base(m: StF) -> Option<(ItemPattern, usize)> { @BASE@ }
pub open spec fn rbase(s: Seq<char>) -> Option<(ItemPattern, usize)> { match capF(s) { Some(m) => build_base(m), None => None } }
/// the numbers of the first i parts; empty parts do not count
pub open spec fn vals(p: Seq<Seq<char>>, i: int) -> Option<Seq<usize>> decreases i {
  if i <= 0 { Some(Seq::empty()) } else { match vals(p, i - 1) { None => None, Some(a) => if p[i - 1].len() == 0 { Some(a) } else { match rbase(p[i - 1]) { Some((q, n)) => Some(a.push(n)), None => None } } } }
}
pub open spec fn edas(t: Option<Seq<char>>) -> Option<Seq<usize>> { match t { None => Some(Seq::empty()), Some(t) => vals(split_spec(t, 'の'), split_spec(t, 'の').len() as int) } }
pub ghost struct GItem { pub str: Seq<char>, pub base_number: usize, pub eda_numbers: Seq<usize>, pub range_end_numbers: Seq<usize>, pub pattern: ItemPattern }
pub open spec fn v_Item(x: ItemNumber) -> GItem { GItem { str: x.str@, base_number: x.base_number, eda_numbers: x.eda_numbers@, range_end_numbers: x.range_end_numbers@, pattern: x.pattern } }
pub open spec fn item_of(m: StI, s: Seq<char>) -> Option<GItem> {
  match rbase(m.g_base_number->Some_0) { None => None, Some((p, b)) => match (edas(m.g_eda_numbers), edas(m.g_eda_numbers2)) {
    (Some(e), Some(f)) => match m.g_base_number2 { None => Some(GItem { str: s, base_number: b, eda_numbers: e, range_end_numbers: f, pattern: p }),
      Some(t) => match rbase(t) { Some((q, c)) => Some(GItem { str: s, base_number: b, eda_numbers: e, range_end_numbers: seq![c] + f, pattern: p }), None => None } },
    _ => None } }
}
pub open spec fn okx(k: int, n: usize) -> bool { okn(k, n) && (k >= 6 ==> !allrom(sym(k, n))) }
pub open spec fn itemok(k: int, n: GArticleNumber) -> bool { okx(k, n.base_number) && (forall|i: int| 0 <= i < n.eda_numbers.len() ==> okx(k, #[trigger] n.eda_numbers[i])) && (forall|i: int| 0 <= i < n.range_end_numbers.len() ==> okx(k, #[trigger] n.range_end_numbers[i])) && (k == 2 ==> n.eda_numbers.len() == 0 && n.range_end_numbers.len() == 0) }
pub open spec fn no(s: Seq<char>, q: int, k: int) -> bool { q < s.len() ==> !cls(k, s[q]) }
"""
LEM_I = """
pub open spec fn z() -> Seq<char> { Seq::empty() }
/// one symbol under the six classes
pub proof fn lem_six(s: Seq<char>, p: int, q: int, k: int) requires 0 <= k <= 7, 0 <= p < q <= s.len(), forall|i: int| p <= i < q ==> cls(k, #[trigger] s[i]), no(s, q, k)
  ensures run_@KATA@(s, p) == (if k == 1 { q } else { p }), run_@HIRA@(s, p) == (if k == 2 { q } else { p }), run_@KAN@(s, p) == (if k == 0 { q } else { p }), run_@ZEN@(s, p) == (if k == 3 { q } else { p }), run_@UP@(s, p) == (if k == 4 || k == 6 { q } else { p }), run_@LO@(s, p) == (if k == 5 || k == 7 { q } else { p })
{
  assert(cls(k, s[p]));
  if k == 1 { lrun_@KATA@(s, p, q); } else { lrun_@KATA@(s, p, p); }
  if k == 2 { lrun_@HIRA@(s, p, q); } else { lrun_@HIRA@(s, p, p); }
  if k == 0 { lrun_@KAN@(s, p, q); } else { lrun_@KAN@(s, p, p); }
  if k == 3 { lrun_@ZEN@(s, p, q); } else { lrun_@ZEN@(s, p, p); }
  if k == 4 || k == 6 { lrun_@UP@(s, p, q); } else { lrun_@UP@(s, p, p); }
  if k == 5 || k == 7 { lrun_@LO@(s, p, q); } else { lrun_@LO@(s, p, p); }
}
pub proof fn lem_wrap_at(s: Seq<char>, p: int, w: int, k: int, n: usize) requires 0 <= k <= 7, 1 <= w <= 2, okn(k, n), at(s, p, wrap(w, k, n, z())), w == 1 ==> no(s, p + sym(k, n).len(), k)
  ensures ({ let p1: int = if w == 2 { p + 1 } else { p }; let q: int = p1 + sym(k, n).len() as int; &&& sym(k, n).len() > 0 &&& at(s, p1, sym(k, n)) &&& q <= s.len() &&& no(s, q, k) &&& (forall|i: int| p1 <= i < q ==> cls(k, #[trigger] s[i]))
    &&& (w == 2 ==> s[p] == '（' && q < s.len() && s[q] == '）') &&& (w == 1 ==> s[p] != '（') })
{
  let d = sym(k, n); lem_sym_cls(k, n); let p1: int = if w == 2 { p + 1 } else { p }; let q: int = p1 + d.len() as int;
  if w == 2 { lem_at_in(s, p, seq!['（'], d, seq!['）']); assert(s[p] == seq!['（'][p - p]); assert(s[q] == seq!['）'][q - q]); }
  assert forall|i: int| p1 <= i < q implies cls(k, #[trigger] s[i]) by { assert(s[i] == d[i - p1]); assert(cls(k, d[i - p1])); }
  assert(cls(k, s[p1]));
}
pub proof fn lem_symI(s: Seq<char>, st: StI, w: int, k: int, n: usize) requires 0 <= k <= 7, 1 <= w <= 2, okn(k, n), at(s, st.p, wrap(w, k, n, z())), w == 1 ==> no(s, st.p + sym(k, n).len(), k)
  ensures @inb@(s, st) == Some(StI { p: st.p + wrap(w, k, n, z()).len(), ..st })
{
  lem_wrap_at(s, st.p, w, k, n);
  let p1: int = if w == 2 { st.p + 1 } else { st.p };
  lem_six(s, p1, p1 + sym(k, n).len() as int, k);
}
pub open spec fn stopI(s: Seq<char>, q: int, k: int) -> bool { q < s.len() ==> s[q] != 'の' && !cls(k, s[q]) }
pub proof fn lem_itemI(s: Seq<char>, st: StI, k: int, n: usize) requires 0 <= k <= 7, okn(k, n), at(s, st.p, seq!['の'] + sym(k, n)), no(s, st.p + 1 + sym(k, n).len(), k) ensures @item@(s, st) == Some(StI { p: st.p + 1 + sym(k, n).len(), ..st })
{ hide(@inb@); assert((seq!['の'] + sym(k, n)) + z() =~= seq!['の'] + sym(k, n)); lem_at_in(s, st.p, seq!['の'], sym(k, n), z()); assert(s[st.p] == seq!['の'][st.p - st.p]); lem_symI(s, StI { p: st.p + 1, ..st }, 1, k, n); }
pub proof fn lem_starI(s: Seq<char>, st: StI, k: int, l: Seq<usize>, lo: int, q: int)
  requires 0 <= k <= 7, k != 2, 0 <= lo <= l.len(), okns(k, l), q == st.p + tail(k, l, lo, l.len() as int).len(), at(s, st.p, tail(k, l, lo, l.len() as int)), stopI(s, q, k)
  ensures @star@(s, st) == Some(StI { p: q, ..st }), lo < l.len() ==> @item@(s, st) is Some && st.p < (@item@(s, st)->Some_0).p <= s.len() && @star@(s, @item@(s, st)->Some_0) == Some(StI { p: q, ..st }), lo == l.len() ==> @item@(s, st) is None decreases l.len() - lo
{
  let p = st.p; let t = tail(k, l, lo, l.len() as int);
  if lo < l.len() {
    lem_front(k, l, lo, l.len() as int);
    let d = sym(k, l[lo]); lem_sym_cls(k, l[lo]);
    let p2: int = p + 1 + d.len() as int;
    let t2 = tail(k, l, lo + 1, l.len() as int);
    assert((z() + (seq!['の'] + d)) + t2 =~= t); lem_at_in(s, p, z(), seq!['の'] + d, t2);
    if lo + 1 < l.len() { lem_front(k, l, lo + 1, l.len() as int); assert(s[p2] == t2[p2 - p2]); assert(t2[0] == 'の'); } else { assert(t2 =~= z()); assert(p2 == q); }
    lem_itemI(s, st, k, l[lo]);
    let st2 = StI { p: p2, ..st };
    lem_starI(s, st2, k, l, lo + 1, q);
  } else {
    assert(t =~= z());
    assert(@item@(s, st) is None);
    assert(StI { p: q, ..st } == st);
  }
}
pub open spec fn og(l: Seq<usize>, t: Seq<char>) -> Option<Seq<char>> { if l.len() > 0 { Some(t) } else { None } }
pub proof fn lem_eda1I(s: Seq<char>, st: StI, k: int, l: Seq<usize>, q: int)
  requires 0 <= k <= 7, k != 2 || l.len() == 0, okns(k, l), q == st.p + tail(k, l, 0, l.len() as int).len(), at(s, st.p, tail(k, l, 0, l.len() as int)), stopI(s, q, k), st.g_eda_numbers is None
  ensures @eda1@(s, st) == @range@(s, StI { p: q, g_eda_numbers: og(l, tail(k, l, 0, l.len() as int)), ..st })
{ hide(@item@); hide(@star@); hide(@range@); if l.len() > 0 { lem_starI(s, st, k, l, 0, q); lem_at_sub(s, st.p, tail(k, l, 0, l.len() as int)); } else { lem_noitem(s, st); assert(q == st.p); assert(StI { p: q, g_eda_numbers: None, ..st } == st); } }
pub proof fn lem_noitem(s: Seq<char>, st: StI) requires 0 <= st.p, st.p < s.len() ==> s[st.p] != 'の' ensures @item@(s, st) is None {}
pub proof fn lem_eda2I(s: Seq<char>, st: StI, k: int, l: Seq<usize>, q: int)
  requires l.len() > 0, 0 <= k <= 7, k != 2, okns(k, l), q == st.p + tail(k, l, 1, l.len() as int).len(), at(s, st.p, tail(k, l, 1, l.len() as int)), at(s, q, seq!['ま', 'で']), st.g_eda_numbers2 is None
  ensures @eda2@(s, st) == Some(StI { p: q + 2, g_eda_numbers2: if l.len() > 1 { Some(tail(k, l, 1, l.len() as int)) } else { None }, ..st })
{ hide(@item@); hide(@star@); assert(s[q] == seq!['ま', 'で'][q - q]); assert(s[q + 1] == seq!['ま', 'で'][q + 1 - q]);
  if l.len() > 1 { lem_starI(s, st, k, l, 1, q); lem_at_sub(s, st.p, tail(k, l, 1, l.len() as int)); } else { assert(q == st.p); lem_noitem(s, st); } }
pub proof fn lem_rangeI(s: Seq<char>, st: StI, w: int, k: int, n: usize) requires 0 <= k <= 7, 1 <= w <= 2, okn(k, n), at(s, st.p, seq!['か', 'ら'] + wrap(w, k, n, z())), w == 1 ==> no(s, st.p + 2 + sym(k, n).len(), k)
  ensures ({ let x = wrap(w, k, n, z()); let y = @eda2@(s, StI { p: st.p + 2 + x.len(), g_base_number2: Some(x), ..st }); y is Some && (y->Some_0).p == s.len() ==> @range@(s, st) == y })
{
  hide(@inb@); hide(@eda2@);
  let x = wrap(w, k, n, z()); let p = st.p;
  assert((seq!['か', 'ら'] + x) + z() =~= seq!['か', 'ら'] + x);
  lem_at_in(s, p, seq!['か', 'ら'], x, z());
  assert(s[p] == seq!['か', 'ら'][p - p]); assert(s[p + 1] == seq!['か', 'ら'][p + 1 - p]);
  lem_symI(s, StI { p: p + 2, ..st }, w, k, n);
  lem_at_sub(s, p + 2, x);
}
pub proof fn lem_range0I(s: Seq<char>, st: StI) requires st.p == s.len() ensures @range@(s, st) == Some(st) {}
pub open spec fn st0I() -> StI { StI { p: 0, @NONE@ } }
pub proof fn lem_headI(s: Seq<char>, w: int, k: int, n: usize) requires 0 <= k <= 7, 1 <= w <= 2, okn(k, n), at(s, 0, wrap(w, k, n, z())), w == 1 ==> no(s, sym(k, n).len() as int, k)
  ensures rI(s) == @eda1@(s, StI { p: wrap(w, k, n, z()).len() as int, g_base_number: Some(wrap(w, k, n, z())), ..st0I() })
{ hide(@inb@); hide(@eda1@); lem_symI(s, st0I(), w, k, n); lem_at_sub(s, 0, wrap(w, k, n, z())); }
pub open spec fn resI(w: int, k: int, n: GArticleNumber) -> StI {
  let b = wrap(w, k, n.base_number, z()); let e = n.eda_numbers; let r = n.range_end_numbers; let t1 = tail(k, e, 0, e.len() as int);
  let st2 = StI { p: b.len() as int + t1.len(), g_base_number: Some(b), g_eda_numbers: og(e, t1), ..st0I() };
  if r.len() == 0 { st2 } else { let c = wrap(w, k, r[0], z()); let t2 = tail(k, r, 1, r.len() as int); StI { p: st2.p + 2 + c.len() + t2.len() + 2, g_base_number2: Some(c), g_eda_numbers2: if r.len() > 1 { Some(t2) } else { None }, ..st2 } }
}
pub proof fn lem_run_item(w: int, k: int, n: GArticleNumber) requires 0 <= k <= 7, 1 <= w <= 2, itemok(k, n) ensures rI(text_of(w, k, z(), n)) == Some(resI(w, k, n))
{
  hide(@eda1@); hide(@range@); hide(@eda2@); hide(rI); hide(sym); hide(text_of);
  let s = text_of(w, k, z(), n);
  let b = wrap(w, k, n.base_number, z()); let e = n.eda_numbers; let r = n.range_end_numbers; let t1 = tail(k, e, 0, e.len() as int);
  assert(numok(k, n));
  lem_pieces(w, k, z(), n);
  let p3: int = b.len() as int; let p4: int = p3 + t1.len() as int;
  if e.len() > 0 { lem_front(k, e, 0, e.len() as int); assert(s[p3] == t1[p3 - p3]); assert(t1[0] == 'の'); } else { assert(t1 =~= z()); }
  let b2 = wrap2(w, k, r[0], z());
  if r.len() > 0 { assert(b2[0] == 'か'); assert(s[p4] == b2[p4 - p4]); }
  lem_headI(s, w, k, n.base_number);
  let st1 = StI { p: p3, g_base_number: Some(b), ..st0I() }; let st2 = StI { p: p4, g_eda_numbers: og(e, t1), ..st1 };
  lem_eda1I(s, st1, k, e, p4);
  if r.len() > 0 {
    let c = wrap(w, k, r[0], z()); let t2 = tail(k, r, 1, r.len() as int); let p7: int = p4 + 2 + c.len() as int; let p8: int = p7 + t2.len() as int;
    assert(s[p8] == seq!['ま', 'で'][p8 - p8]);
    if r.len() > 1 { lem_front(k, r, 1, r.len() as int); assert(s[p7] == t2[p7 - p7]); assert(t2[0] == 'の'); } else { assert(t2 =~= z()); }
    let st3 = StI { p: p7, g_base_number2: Some(c), ..st2 };
    lem_eda2I(s, st3, k, r, p8);
    lem_rangeI(s, st2, w, k, r[0]);
  } else { lem_range0I(s, st2); }
}
/// one symbol alone
pub proof fn lem_runF(w: int, k: int, n: usize) requires 0 <= k <= 7, 1 <= w <= 2, okn(k, n)
  ensures ({ let s = wrap(w, k, n, z()); let d = Some(sym(k, n)); rF(s) is Some && { let m = rF(s)->Some_0; @FCASES@ } })
{
  let s = wrap(w, k, n, z()); lem_sym_cls(k, n);
  assert((z() + s) + z() =~= s); lem_at(z(), s, z());
  lem_wrap_at(s, 0, w, k, n);
  let p1: int = if w == 2 { 1 } else { 0 };
  lem_six(s, p1, p1 + sym(k, n).len() as int, k);
  lem_at_sub(s, p1, sym(k, n));
}
pub proof fn lem_read_base(p: ItemPattern, n: usize) requires okx(pk(p), n) ensures rbase(wrap(pw(p), pk(p), n, z())) == Some((p, n))
{
  hide(rF);
  let k = pk(p); let w = pw(p); let s = wrap(w, k, n, z()); let d = sym(k, n);
  lem_runF(w, k, n); axiom_capF(s); lem_sym(k, n); lem_sym_cls(k, n);
  if k == 0 { axiom_kansuji(n as int); }
  if k == 4 || k == 5 { lem_rom_chars(k, n); }
}
pub proof fn lem_rom_chars(k: int, n: usize) requires k == 4 || k == 5, okn(k, n) ensures allrom(sym(k, n)) {}
/// NoParen of the same style
pub open spec fn np(p: ItemPattern) -> ItemPattern { match p { @NP@ } }
pub proof fn lem_vals(p: ItemPattern, l: Seq<usize>, lo: int, i: int) requires pk(p) != 2, 0 <= lo <= l.len(), 1 <= i <= l.len() - lo + 1, forall|j: int| 0 <= j < l.len() ==> okx(pk(p), #[trigger] l[j])
  ensures vals(syms(pk(p), l, lo, l.len() as int), i) == Some(l.subrange(lo, lo + i - 1)) decreases i
{
  let k = pk(p); let P = syms(k, l, lo, l.len() as int);
  if i == 1 { assert(P[0].len() == 0); assert(vals(P, 0) == Some(Seq::<usize>::empty())); assert(l.subrange(lo, lo) =~= Seq::<usize>::empty()); }
  else {
    lem_vals(p, l, lo, i - 1);
    let x = l[lo + i - 2];
    assert(P[i - 1] == sym(k, x)); lem_sym_cls(k, x);
    lem_read_base(np(p), x);
    assert(l.subrange(lo, lo + i - 2).push(x) =~= l.subrange(lo, lo + i - 1));
  }
}
pub proof fn lem_edas(p: ItemPattern, l: Seq<usize>, lo: int) requires pk(p) != 2, 0 <= lo <= l.len(), forall|j: int| 0 <= j < l.len() ==> okx(pk(p), #[trigger] l[j])
  ensures edas(Some(tail(pk(p), l, lo, l.len() as int))) == Some(l.subrange(lo, l.len() as int))
{ assert(okns(pk(p), l)); lem_tail_split(pk(p), l, lo, l.len() as int); lem_vals(p, l, lo, l.len() - lo + 1); }
pub proof fn lem_ends(p: ItemPattern, n: GArticleNumber) requires itemok(pk(p), n) ensures ({ let s = text_of(pw(p), pk(p), z(), n); s.len() > 0 && trimmed(s) == s })
{
  hide(sym); hide(app);
  let k = pk(p); let w = pw(p); let s = text_of(w, k, z(), n); let e = n.eda_numbers; let r = n.range_end_numbers; let t1 = tail(k, e, 0, e.len() as int); let b = wrap(w, k, n.base_number, z());
  assert(numok(k, n));
  lem_pieces(w, k, z(), n); lem_sym_cls(k, n.base_number); lem_tail_chars(k, e, 0, e.len() as int);
  assert(s[0] == b[0 - 0]);
  assert(!blank(s[0])) by { if w == 1 { assert(cls(k, sym(k, n.base_number)[0])); } }
  let m: int = s.len() - 1; let p4: int = b.len() as int + t1.len() as int;
  if r.len() > 0 { let p6: int = s.len() - 2; assert(s[m] == seq!['ま', 'で'][m - p6]); }
  else if t1.len() > 0 { assert(s[m] == t1[m - b.len()]); }
  else { assert(s[m] == b[m - 0]); if w == 1 { assert(cls(k, sym(k, n.base_number)[m])); } }
  axiom_trim(s);
}
pub proof fn lem_read_item(p: ItemPattern, n: GArticleNumber) requires itemok(pk(p), n)
  ensures ({ let s = text_of(pw(p), pk(p), z(), n); trimmed(s) == s && capI(s) is Some && item_of(capI(s)->Some_0, s) == Some(GItem { str: s, base_number: n.base_number, eda_numbers: n.eda_numbers, range_end_numbers: n.range_end_numbers, pattern: p }) })
{
  hide(rI); hide(sym); hide(rbase); hide(vals);
  let k = pk(p); let w = pw(p); let s = text_of(w, k, z(), n); let e = n.eda_numbers; let r = n.range_end_numbers;
  lem_ends(p, n); lem_run_item(w, k, n); axiom_capI(s);
  lem_read_base(p, n.base_number);
  if e.len() > 0 { lem_edas(p, e, 0); assert(e.subrange(0, e.len() as int) =~= e); } else { assert(e =~= Seq::empty()); }
  if r.len() > 0 { lem_read_base(p, r[0]); if r.len() > 1 { lem_edas(p, r, 1); } assert(seq![r[0]] + r.subrange(1, r.len() as int) =~= r); if r.len() == 1 { assert(r.subrange(1, 1) =~= Seq::empty()); } } else { assert(r =~= Seq::empty()); }
}
"""

def sub(t, **kw):
  for k, v in kw.items(): t = t.replace("@%s@" % k, str(v))
  return t

def ats(R):
  opt = "opt:%s:eda_str_2" % R.gs[R.gs.index("eda_str") + 1]
  for g in ("eda_str", "eda_str_2", opt):
    if g not in R.at: raise Lost("the pattern with the groups %s" % R.gs)
  return dict(eda1=R.at["eda_str"], eda2=R.at["eda_str_2"], opt=R.at[opt])

def con_of(f):
  P = [p["name"] for p in f["params"] if "name" in p]
  s = "%s@" % P[0]
  if f["key"] == "parse_article_number":
    return dict(ensures=["rA(%s) is Some ==> ov(r) == build_art(rA(%s)->Some_0)" % (s, s), "no_suffix(%s) && rB(%s) is Some ==> ov(r) == build_par(rB(%s)->Some_0)" % (s, s, s)])
  if f["key"] == "parse_item_number_base": return dict(ensures=["rbase(%s) is Some ==> r == rbase(%s)" % (s, s)])
  if f["key"] == "parse_item_number": return dict(ensures=["capI(trimmed(%s)) is Some && item_of(capI(trimmed(%s))->Some_0, %s) is Some ==> r is Some && v_Item(r->Some_0) == item_of(capI(trimmed(%s))->Some_0, %s)->Some_0" % (s, s, s, s, s)])
  raise Lost(f["key"])

def pfn(ks):
  def go(f):
    fn = Fn(f)
    fn.body = regen.rewrite(fn.body, ks)
    fn.body = fn.body.replace(".replace (", ".vx_replace (").replace(".trim ()", ".vx_trim ()")
    fn.body = re.sub(r"\.vx_split \(\[('.'), ('.')\]\)", r".vx_split2 (\1, \2)", fn.body).replace(".vx_split (", ".vx_splits (")
    if "Regex ::" in fn.body: raise Lost("a regular expression outside the supported form")
    fn.start = nfn.lit_start(fn.body)
    con = con_of(f)
    for l in fn.loops:
      it = fn.iter_of(l)
      evs = [e for e in fn.meta["events"] if l in e["loops"]]
      reg = loop_region(fn.body, l)
      fn.pre[l] = "let ghost i%d = %s;" % (l, it)
      fn.inv[l] = ["%s.wf()" % it, "%s.v@ == i%d.v@" % (it, l), "i%d.pos <= %s.pos" % (l, it)]
      fn.dec[l] = "%s.v@.len() - %s.pos" % (it, it)
      sp = "vx_split" in fn.meta["locals"].get("__src" + it[4:], {}).get("init", "") 
      parts = "%s.parts()" % it if sp else "strs(%s.v@)" % it
      if sp: fn.inv[l].append("%s.parts() == i%d.parts()" % (it, l))
      t = [e["target"] for e in evs if e["how"] == "push"]
      if t and f["key"] == "parse_item_number":
        fn.pre[l] += " let ghost g%d = %s@;" % (l, t[0])
        if "parse_item_number_base" in reg: fn.inv[l].append("vals(%s, %s.pos as int) is Some ==> %s@ =~= g%d + vals(%s, %s.pos as int)->Some_0" % (parts, it, t[0], l, parts, it))
        else: fn.inv[l].append("%s@ =~= g%d + %s.v@.take(%s.pos as int)" % (t[0], l, it, it))
        continue
      if not t:
        if any(e["how"].startswith("vx_push") for e in evs): continue
        raise Lost("loop %d of %s" % (l, f["key"]))
      if sp and "parse" not in reg and "Kansuji" not in reg:
        fn.inv[l].append("strs(%s@) == ne(%s, %s.pos as int)" % (t[0], parts, it))
        fn.pre[l] += " proof { assert(strs(%s@) =~= Seq::empty()); }" % t[0]
      else:
        kj = "true" if "Kansuji" in reg else "false"
        fn.pre[l] += " let ghost g%d = %s@;" % (l, t[0])
        fn.inv[l].append("folde(%s, g%d, %s, 0) == folde(%s, %s@, %s, %s.pos as int)" % (kj, l, parts, kj, t[0], parts, it))
    return fn, con
  return go

def rt_fns(c):
  out = []
  if c.has("parse_article_number"):
    for t, u in nfn.UNITTEXT.items():
      if c.has("ArticleNumber::" + t): out.append("pub fn rt_%s(n: &ArticleNumber) -> (r: Option<ArticleNumber>) requires numok(0, v_ArticleNumber(*n)) ensures ov(r) == Some(v_ArticleNumber(*n)) { hide(rA); hide(build_art); proof { lem_read_art(v_ArticleNumber(*n), '%s'); } let t = n.%s(); parse_article_number(t.as_str()) }" % (t, u, t))
    if c.has("ArticleNumber::paragraph_text"): out.append("pub fn rt_paragraph_text(n: &ArticleNumber) -> (r: Option<ArticleNumber>) ensures ov(r) == Some(v_ArticleNumber(*n)) { hide(rA); hide(rB); hide(build_par); proof { lem_read_par(v_ArticleNumber(*n)); } let t = n.paragraph_text(); parse_article_number(t.as_str()) }")
  if c.has("parse_item_number") and c.has("ArticleNumber::item_text"):
    out.append("pub fn rt_item_text(n: &ArticleNumber, p: ItemPattern) -> (r: Option<ItemNumber>) requires itemok(pk(p), v_ArticleNumber(*n)) ensures r is Some, r->Some_0.pattern == p, ({ let v = v_Item(r->Some_0); v.base_number == n.base_number && v.eda_numbers == n.eda_numbers@ && v.range_end_numbers == n.range_end_numbers@ }) { proof { lem_read_item(p, v_ArticleNumber(*n)); } let t = n.item_text(p); parse_item_number(t.as_str()) }")
  return "\n".join(out)

PARTS = {"C12": ["parse_article_number"], "C13": ["parse_item_number_base", "parse_item_number"]}
READ = {"C12": ["parse_zenkaku_num"], "C13": ["parse_iroha_katakana", "parse_iroha_hiragana", "parse_zenkaku_num", "parse_roman", "parse_zenkaku_alphabet"]}

def parse_spec(pid, vx, o):
  """specification functions and lemmas for the patterns the code uses now; returns (pattern -> letter, broadcast lemmas)"""
  R, ks = regexes(vx, PARTS[pid])
  C = dict(KAN=cls_of(KAN), KATA=cls_of("[ア-ン]"), HIRA=cls_of("[あ-ん]"), ZEN=cls_of("[０-９]"), UP=cls_of("[Ａ-Ｚ]"), LO=cls_of("[ａ-ｚ]"))
  AR, SEP, SFX = cls_of("[0-9]"), cls_of("[のノ]"), cls_of("[編章節款目条項号]")
  if not set(dict(C12="AB", C13="DFI")[pid]) <= set(R): raise Lost("the patterns found are %s" % sorted(R))
  o(SPEC); o(LEM_SEQ)
  rt = [R[K].text() for K in R]
  o(regen.cls_runs())
  for x in rt: o(x)
  bg = ["axiom_cap%s" % K for K in R] + ["lem_strs", "lem_ne", "lem_ne_len", "lem_push0", "lem_e0u", "lem_1e", "lem_takeall"]
  nones = lambda K: ", ".join("g_%s: None" % g for g in R[K].gs)
  if pid == "C12":
    o(sub(SPEC_A, SFX=SFX)); o(SPEC_B)
    o("// LEM"); o(sub(LEM_TEXT, **C)); o(LEM_AT); o(LEM_TXT)
    runs = "lrun_%s(s, p + 1, p + 1); lrun_%s(s, p + 1, p + 1); lrun_%s(s, p + 1, p2);" % (AR, C["ZEN"], C["KAN"])
    o(sub(LEM_STAR, K="A", k=0, SEP=SEP, CK=C["KAN"], star=R["A"].star, item=R["A"].item, RUNS=runs, **ats(R["A"])))
    o(sub(LEM_A, CK=C["KAN"], AR=AR, ZE=C["ZEN"], NONE=nones("A"), **ats(R["A"])))
    runs = "lrun_%s(s, p + 1, p + 1); lrun_%s(s, p + 1, p2);" % (AR, C["ZEN"])
    o(sub(LEM_STAR, K="B", k=3, SEP=SEP, CK=C["ZEN"], star=R["B"].star, item=R["B"].item, RUNS=runs, **ats(R["B"])))
    o(sub(LEM_B, CK=C["ZEN"], AR=AR, ZE=C["ZEN"], NONE=nones("B"), SFX=SFX, **ats(R["B"])))
    o("// ENDLEM")
    return ks, bg
  I = R["I"]
  def fcases():
    out, gs = [], [g for g in R["F"].gs if g != "str"]
    for w, pre in ((1, "no_"), (2, "")):
      for g, k in ITEMS:
        cond = "w == %d && %s" % (w, {6: "(k == 4 || k == 6)", 7: "(k == 5 || k == 7)"}.get(k, "k == %d" % k))
        out.append("(%s ==> %s)" % (cond, " && ".join("m.g_%s %s" % (x, "== d" if x == pre + g else "is None") for x in gs)))
    return " && ".join(out)
  miss = [pre + g for pre in ("", "no_") for g, k in ITEMS if pre + g not in R["F"].gs] + [g for g in ("base_number", "eda_numbers", "base_number2", "eda_numbers2") if g not in I.gs]
  if miss or "star" not in I.__dict__ or not R["D"].full(): raise Lost("the pattern of an item number (%s)" % miss)
  o(sub(SPEC_I, BASE=base_spec()))
  o("// LEM"); o(sub(LEM_TEXT, **C)); o(LEM_AT); o(LEM_TXT)
  o(sub(LEM_I, inb=I.at["in:base_number"], eda1=I.at["opt:eda_numbers:eda_numbers"], range=I.at["opt:base_number2:eda_numbers2"], eda2=I.at["opt:eda_numbers2:eda_numbers2"], star=I.star, item=I.item,
    NONE=nones("I"), FCASES=fcases(), NP=", ".join("ItemPattern::%s => ItemPattern::%s" % (v, v if w == 1 else "No" + v) for v, w, k in nfn.PATTERNS), **C))
  o("pub broadcast proof fn lem_isrom(t: Seq<char>) requires all_%s(t) || all_%s(t) ensures #[trigger] all_%s(t) == allrom(t) { if all_%s(t) { assert forall|i: int| 0 <= i < t.len() implies rch(#[trigger] t[i]) by { assert(%s(t[i])); } } if allrom(t) { assert forall|i: int| 0 <= i < t.len() implies %s(#[trigger] t[i]) by { assert(rch(t[i])); } } }" % ((C["UP"], C["LO"]) + (regen.cls_name(R["D"].tree[1][1][1][1]),) * 4))
  o("// ENDLEM")
  return ks, bg + ["lem_isrom"]

def build_txt(pid, vx, external=(), assoc=False):
  c = B.Crate(vx, "full", external)
  c.types, c.missing_types = B.exec_types(vx, ["ItemPattern", "ItemNumber"])
  if "ItemPattern" in c.types: c.types["ItemPattern"] = "#[derive(PartialEq, Eq, Structural, Copy)] " + c.types["ItemPattern"]
  c.types = {k: v for k, v in c.types.items() if k in ("Error", "ArticleNumber", "ItemNumber", "ItemPattern", "Result")}
  o = Out()
  o("pub ghost struct GArticleNumber { pub base_number: usize, pub eda_numbers: Seq<usize>, pub range_end_numbers: Seq<usize> }")
  o("pub open spec fn v_ArticleNumber(x: ArticleNumber) -> GArticleNumber { GArticleNumber { base_number: x.base_number, eda_numbers: x.eda_numbers@, range_end_numbers: x.range_end_numbers@ } }")
  nfn.spec_text(o)
  o(nfn.pat_spec(vx)); o(nfn.LEMS)
  o("// LEM"); o(nfn.C13LEM); o("// ENDLEM")
  ks, bg = None, []
  o2 = Out()
  try: ks, bg = parse_spec(pid, vx, o2); o(o2.text())
  except (Lost, regen.Unsupported, KeyError, IndexError, ValueError, re.error) as ex:
    for k in PARTS[pid]: c.lost[k] = "the patterns: %s: %s" % (type(ex).__name__, ex)
  o("pub broadcast group bg_Txt { lem_repl, lem_e0, lem_app0, lem_app1, lem_appsub, lem_unzen_eq, lem_unwide_eq%s }" % (", lem_as" if assoc else ""))
  o("pub broadcast group bg_Parse { %s }" % ", ".join(bg or ["lem_app0"]))
  o("pub broadcast group bg_xml { lem_app0 }")
  c.module("t_NSpec", [], o)
  rk = nfn.C12KEYS if pid == "C12" else nfn.C13KEYS
  for i, k in enumerate(rk + [k for k in READ[pid] if k not in rk]):
    o = Out()
    c.emit(k, nfn.nfn, o, ty=k.split("::")[0] if "::" in k else None)
    c.module("t_N%d" % i, ["Txt"], o)
  if ks is not None:
    for i, k in enumerate(PARTS[pid]):
      o = Out()
      if "ItemPattern" in c.types: o("#[allow(unused_imports)] use crate::ItemPattern::*;")
      c.emit(k, pfn(ks), o)
      c.module("t_P%d" % i, ["Txt", "Parse"], o)
  o = Out(); o("// LEM")
  if pid == "C13": o(nfn.rt_fns(c))
  if ks is not None: o(rt_fns(c))
  o("// ENDLEM")
  c.module("t_NRt", [], o)
  return c

if __name__ == "__main__":
  import sys
  vx = B.extract(sys.argv[2])
  c = build_txt(sys.argv[1], vx, assoc="assoc" in sys.argv)
  open(sys.argv[3], "w").write(B.assemble(c, close=False))
  print("lost", c.lost)
