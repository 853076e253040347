"""C12, C13: the text forms of article and item numbers (src/article_number.rs) under contract.

sym(k, n) is the symbol of number n in style k (kanji, iroha, full-width digits, roman, letters);
every text form is an `app` fold over the numbers.  The contracts of the crates kansuji and roman
are assumed for the numbers the property speaks about (vf/check.py compares them with the real
crates over that whole range on every run)."""
import re
from gen import *
from execgen import *
import build as B
from noracle import IROHA, HIRA

STYLES = ["Kansuji", "IrohaKatakana", "IrohaHiragana", "ZenkakuNum", "ZenkakuRomanUpper", "ZenkakuRomanLower", "ZenkakuUpper", "ZenkakuLower"]
UNITTEXT = {"part_text": "編", "chapter_text": "章", "section_text": "節", "subsection_text": "款", "division_text": "目", "article_text": "条"}
TOS = {"to_iroha_katakana": 1, "to_iroha_hiragana": 2, "to_zenkaku_num": 3, "to_zenkaku_roman_upper": 4, "to_zenkaku_roman_lower": 5, "to_zenkaku_alphabet_upper": 6, "to_zenkaku_alphabet_lower": 7}
C12KEYS = ["ArticleNumber::" + k for k in list(UNITTEXT) + ["gen_articles_text", "paragraph_text"]] + ["to_zenkaku_num"]
C13KEYS = ["ArticleNumber::item_text", "ItemPattern::num_to_str", "ItemPattern::num_to_str_no_paren"] + list(TOS) + ["parse_iroha_katakana", "parse_iroha_hiragana", "parse_zenkaku_num", "parse_roman", "parse_zenkaku_alphabet"]
KEYS = C12KEYS + C13KEYS
EXTRA_CONTRACTS += [k for k in KEYS if k not in EXTRA_CONTRACTS]

def table(name, ty, cases, dflt):
  return "pub open spec fn %s(%s) -> %s { " % (name, ty[0], ty[1]) + " ".join("if %s { %s } else" % c for c in cases) + " { %s } }" % dflt

SPEC = """
pub struct Kansuji { v: u128 }
pub struct KansujiError { v: u8 }
pub uninterp spec fn kan_far(n: int) -> Seq<char>;
pub uninterp spec fn kan_val(s: Seq<char>) -> Option<u128>;
pub open spec fn kd(d: int, u: char) -> Seq<char> { if d == 0 { Seq::empty() } else if d == 1 { seq![u] } else { seq![kdig(d), u] } }
pub open spec fn kan(n: int) -> Seq<char> {
  if 1 <= n <= 9999 { kd(n / 1000, '千') + kd(n / 100 % 10, '百') + kd(n / 10 % 10, '十') + (if n % 10 == 0 { Seq::empty() } else { seq![kdig(n % 10)] }) } else { kan_far(n) }
}
pub trait KNum { spec fn kn(&self) -> int; }
impl KNum for usize { open spec fn kn(&self) -> int { *self as int } }
impl<'a> KNum for &'a usize { open spec fn kn(&self) -> int { **self as int } }
impl Kansuji {
  pub uninterp spec fn kv(&self) -> int;
  #[verifier::external_body] pub fn from<T: KNum>(x: T) -> (r: Kansuji) ensures r.kv() == x.kn() { unimplemented!() }
  #[verifier::external_body] pub fn try_from<K: AsS>(s: K) -> (r: std::result::Result<Kansuji, KansujiError>)
    ensures match r { Ok(k) => kan_val(s.s()) is Some && k.kv() == kan_val(s.s())->Some_0, Err(_) => kan_val(s.s()) is None } { unimplemented!() }
  #[verifier::external_body] pub fn into(self) -> (r: u128) ensures r as int == self.kv() { unimplemented!() }
}
/// what the kansuji crate does for 1..9999 (compared with the crate on every run)
#[verifier::external_body] pub broadcast proof fn axiom_kansuji(n: int) requires 1 <= n <= 9999 ensures kan_val(#[trigger] kan(n)) == Some(n as u128) {}
impl VxToString for Kansuji { open spec fn tos(&self) -> Seq<char> { kan(self.kv()) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }

pub open spec fn rd(d: int, i: char, v: char, x: char) -> Seq<char> {
  if d == 0 { Seq::empty() } else if d == 1 { seq![i] } else if d == 2 { seq![i, i] } else if d == 3 { seq![i, i, i] } else if d == 4 { seq![i, v] }
  else if d == 5 { seq![v] } else if d == 6 { seq![v, i] } else if d == 7 { seq![v, i, i] } else if d == 8 { seq![v, i, i, i] } else { seq![i, x] }
}
/// roman numeral of 1..399 with the given digits
pub open spec fn rom(n: int, i: char, v: char, x: char, l: char, c: char) -> Seq<char> { rd(n / 100, c, c, c) + rd(n / 10 % 10, x, l, c) + rd(n % 10, i, v, x) }
pub open spec fn rom_a(n: int) -> Seq<char> { rom(n, 'I', 'V', 'X', 'L', 'C') }
pub uninterp spec fn rom_val(s: Seq<char>) -> Option<i32>;
pub mod roman { use super::*;
  #[verifier::external_body] pub fn to(n: i32) -> (r: Option<String>) ensures 1 <= n <= 399 ==> r is Some && r->Some_0@ == rom_a(n as int) { unimplemented!() }
  #[verifier::external_body] pub fn from<K: AsS + ?Sized>(s: &K) -> (r: Option<i32>) ensures r == rom_val(s.s()), r is Some ==> 1 <= r->Some_0 <= 3999 { unimplemented!() }
}
#[verifier::external_body] pub broadcast proof fn axiom_roman(n: int) requires 1 <= n <= 399 ensures rom_val(#[trigger] rom_a(n)) == Some(n as i32) {}

/// replacing every c of s
pub closed spec fn repl(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { repl(s.drop_last(), c, t) + (if s.last() == c { t } else { seq![s.last()] }) } }
pub broadcast proof fn lem_repl(s: Seq<char>, c: char, t: Seq<char>) requires t.len() == 1
  ensures (#[trigger] repl(s, c, t)).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] repl(s, c, t)[i] == (if s[i] == c { t[0] } else { s[i] }) decreases s.len()
{ if s.len() > 0 { lem_repl(s.drop_last(), c, t); } }
pub trait CharPat { spec fn pc(&self) -> Option<char>; }
impl CharPat for char { open spec fn pc(&self) -> Option<char> { Some(*self) } }
impl<'a> CharPat for &'a str { open spec fn pc(&self) -> Option<char> { if self@.len() == 1 { Some(self@[0]) } else { None } } }
pub trait VxReplace { spec fn vrs(&self) -> Seq<char>; fn vx_replace<P: CharPat>(&self, c: P, t: &str) -> (r: String) ensures c.pc() is Some ==> r@ == repl(self.vrs(), c.pc()->Some_0, t@); }
impl VxReplace for String { open spec fn vrs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace<P: CharPat>(&self, c: P, t: &str) -> (r: String) { unimplemented!() } }
impl VxReplace for str { open spec fn vrs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace<P: CharPat>(&self, c: P, t: &str) -> (r: String) { unimplemented!() } }

pub struct CharIter { pub v: Vec<char>, pub pos: usize }
impl CharIter {
  pub open spec fn wf(&self) -> bool { self.pos <= self.v@.len() }
  pub fn has_next(&self) -> (r: bool) ensures r == (self.pos < self.v@.len()) { self.pos < self.v.len() }
  pub fn take(&mut self) -> (r: char) requires old(self).pos < old(self).v@.len() ensures final(self).v == old(self).v, final(self).pos == old(self).pos + 1, r == old(self).v@[old(self).pos as int]
  { let n = self.v.len(); let r = self.v[self.pos]; self.pos = self.pos + 1; r }
}
pub trait VxChars { spec fn vcs(&self) -> Seq<char>; fn vx_chars(&self) -> (r: CharIter) ensures r.v@ == self.vcs(), r.pos == 0; }
impl VxChars for str { open spec fn vcs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: CharIter) { unimplemented!() } }
impl VxChars for String { open spec fn vcs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: CharIter) { unimplemented!() } }
pub struct CharRev { pub v: Vec<char> }
impl<'a> SliceIter<'a, char> { #[verifier::external_body] pub fn rev(self) -> (r: CharRev) requires self.pos == 0 ensures r.v@ == self.v@.reverse() { unimplemented!() } }
pub trait FromChars: Sized { spec fn fch(&self) -> Seq<char>; }
impl FromChars for String { open spec fn fch(&self) -> Seq<char> { self@ } }
impl CharRev { #[verifier::external_body] pub fn collect<S: FromChars>(self) -> (r: S) ensures r.fch() == self.v@ { unimplemented!() } }
pub assume_specification [char::from_u32](x: u32) -> (r: Option<char>) ensures (x < 0xD800 || 0xE000 <= x <= 0x10FFFF) ==> r is Some && r->Some_0 as u32 == x;

/// symbols
pub open spec fn zen(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| zch(s[i])) }
pub open spec fn unzen(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| azch(s[i])) }
pub open spec fn letters(n: int, up: bool) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { letters((n - 1) / 26, up).push(if up { up_ch((n - 1) % 26) } else { lo_ch((n - 1) % 26) }) } }
pub open spec fn sym(k: int, n: usize) -> Seq<char> {
  if k == 0 { kan(n as int) } else if k == 1 { seq![iro_k(n as int)] } else if k == 2 { seq![iro_h(n as int)] } else if k == 3 { zen(show_usize(n)) }
  else if k == 4 { rom(n as int, 'Ｉ', 'Ｖ', 'Ｘ', 'Ｌ', 'Ｃ') } else if k == 5 { rom(n as int, 'ｉ', 'ｖ', 'ｘ', 'ｌ', 'ｃ') } else { letters(n as int, k == 6) }
}
/// the numbers a style can express
pub open spec fn okn(k: int, n: usize) -> bool { if k == 0 { 1 <= n <= 9999 } else if k == 1 || k == 2 { 1 <= n <= 47 } else if k == 3 { true } else if k == 4 || k == 5 { 1 <= n <= 399 } else { 1 <= n } }
pub open spec fn okns(k: int, l: Seq<usize>) -> bool { forall|i: int| 0 <= i < l.len() ==> okn(k, #[trigger] l[i]) }
/// s, then の and the symbol of each of l[lo..hi]
pub closed spec fn app(s: Seq<char>, k: int, l: Seq<usize>, lo: int, hi: int) -> Seq<char> decreases hi { if hi <= lo || hi <= 0 { s } else { app(s, k, l, lo, hi - 1) + (seq!['の'] + sym(k, l[hi - 1])) } }
pub broadcast proof fn lem_app0(s: Seq<char>, k: int, l: Seq<usize>, lo: int) ensures #[trigger] app(s, k, l, lo, lo) == s {}
pub broadcast proof fn lem_appsub(s: Seq<char>, k: int, v: Seq<usize>, e: int, lo: int, hi: int) requires 0 <= lo <= hi < v.len(), e == v.len() ensures #[trigger] app(s, k, v.subrange(1, e), lo, hi) == app(s, k, v, lo + 1, hi + 1) decreases hi { if lo < hi { lem_appsub(s, k, v, e, lo, hi - 1); assert(v.subrange(1, e)[hi - 1] == v[hi]); } }
pub broadcast proof fn lem_app1(s: Seq<char>, k: int, l: Seq<usize>, lo: int, hi: int) requires 0 <= lo <= hi ensures #[trigger] app(s, k, l, lo, hi + 1) == app(s, k, l, lo, hi) + (seq!['の'] + sym(k, l[hi])) {}
/// the whole text; w: what stands around the first number of each end
pub open spec fn wrap(w: int, k: int, n: usize, u: Seq<char>) -> Seq<char> { if w == 0 { seq!['第'] + sym(k, n) + u } else if w == 1 { sym(k, n) } else { seq!['（'] + sym(k, n) + seq!['）'] } }
pub open spec fn wrap2(w: int, k: int, n: usize, u: Seq<char>) -> Seq<char> { if w == 0 { seq!['か', 'ら', '第'] + sym(k, n) + u } else { seq!['か', 'ら'] + wrap(w, k, n, u) } }
pub open spec fn text_of(w: int, k: int, u: Seq<char>, n: GArticleNumber) -> Seq<char> {
  let a = app(wrap(w, k, n.base_number, u), k, n.eda_numbers, 0, n.eda_numbers.len() as int);
  let r = n.range_end_numbers;
  if r.len() == 0 { a } else { app(a + wrap2(w, k, r[0], u), k, r, 1, r.len() as int) + seq!['ま', 'で'] }
}
pub broadcast proof fn lem_e0(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn lem_as(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }

/// reading one symbol
pub open spec fn rd_iro(k: int, s: Seq<char>) -> Option<usize> { if s.len() == 1 { if k == 1 { iro_kv(s[0]) } else { iro_hv(s[0]) } } else { None } }
pub open spec fn alpha_d(c: char) -> Option<int> { if 'Ａ' <= c && c <= 'Ｚ' { Some(c as int - 'Ａ' as int + 1) } else if 'ａ' <= c && c <= 'ｚ' { Some(c as int - 'ａ' as int + 1) } else { None } }
pub open spec fn alpha(s: Seq<char>) -> Option<int> decreases s.len() {
  if s.len() == 0 { Some(0) } else { match (alpha(s.drop_last()), alpha_d(s.last())) { (Some(v), Some(d)) => Some(v * 26 + d), _ => None } }
}
pub open spec fn rd_alpha(s: Seq<char>) -> Option<usize> { match alpha(s) { Some(v) if 0 < v <= usize::MAX => Some(v as usize), _ => None } }
pub open spec fn unwide(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| urch(s[i])) }
pub open spec fn rd_roman(s: Seq<char>) -> Option<usize> { match rom_val(unwide(s)) { Some(v) => Some(v as usize), None => None } }
"""

def spec_text(o):
  o(table("kdig", ("d: int", "char"), [("d == %d" % i, "'%s'" % "〇一二三四五六七八九"[i]) for i in range(1, 9)], "'九'"))
  for n, t in (("iro_k", IROHA), ("iro_h", HIRA)):
    o(table(n, ("n: int", "char"), [("n == %d" % (i + 1), "'%s'" % c) for i, c in enumerate(t[:-1])], "'%s'" % t[-1]))
    o(table(n + "v", ("c: char", "Option<usize>"), [("c == '%s'" % c, "Some(%dusize)" % (i + 1)) for i, c in enumerate(t)], "None"))
  Z = "０１２３４５６７８９"
  o(table("zch", ("c: char", "char"), [("c == '%d'" % i, "'%s'" % Z[i]) for i in range(10)], "c"))
  o(table("azch", ("c: char", "char"), [("c == '%s'" % Z[i], "'%d'" % i) for i in range(10)], "c"))
  U = [chr(0xFF21 + i) for i in range(26)]; L = [chr(0xFF41 + i) for i in range(26)]
  o(table("up_ch", ("d: int", "char"), [("d == %d" % i, "'%s'" % U[i]) for i in range(25)], "'Ｚ'"))
  o(table("lo_ch", ("d: int", "char"), [("d == %d" % i, "'%s'" % L[i]) for i in range(25)], "'ｚ'"))
  o(table("urch", ("c: char", "char"), [("c == '%s'" % chr(b + ord(x) - 65 + (32 if b == 0xFF21 and 0 else 0)), "'%s'" % x) for x in "IVXLC" for b in (0xFF21, 0xFF41, 0x61)], "c"))
  o(SPEC)

def lit_start(body):
  return " ".join('reveal_strlit("%s"); assert("%s"@ =~= seq![%s]);' % (x, x, ", ".join("'%s'" % c for c in x)) for x in body_lits(body))

PATTERNS = [("NoParen" + s, 1, k) for k, s in enumerate(STYLES)] + [("Paren" + s, 2, k) for k, s in enumerate(STYLES)]

def con_of(key, f):
  P = [p["name"] for p in f["params"] if "name" in p]
  n = key.split("::")[-1]
  r = "wf_r" 
  if key == "ArticleNumber::gen_articles_text":
    return dict(ensures=["numok(0, v_ArticleNumber(*self)) ==> r@ == text_of(0, 0, %s@, v_ArticleNumber(*self))" % P[0]])
  if n in UNITTEXT: return dict(ensures=["numok(0, v_ArticleNumber(*self)) ==> r@ == text_of(0, 0, seq!['%s'], v_ArticleNumber(*self))" % UNITTEXT[n]])
  if n == "paragraph_text": return dict(ensures=["r@ == text_of(1, 3, Seq::empty(), v_ArticleNumber(*self))"])
  if n == "item_text": return dict(requires=["numok(pk(%s), v_ArticleNumber(*self))" % P[0]], ensures=["r@ == text_of(pw(%s), pk(%s), Seq::empty(), v_ArticleNumber(*self))" % (P[0], P[0])])
  if n == "num_to_str": return dict(requires=["okn(pk(*self), %s)" % P[0]], ensures=["r@ == wrap(pw(*self), pk(*self), %s, Seq::empty())" % P[0]])
  if n == "num_to_str_no_paren": return dict(requires=["okn(pk(*self), %s)" % P[0]], ensures=["r@ == sym(pk(*self), %s)" % P[0]])
  if n in TOS:
    k = TOS[n]
    if k in (1, 2): return dict(ensures=["okn(%d, %s) ==> r is Some && r->Some_0@ =~= sym(%d, %s)" % (k, P[0], k, P[0])])
    if k in (4, 5): return dict(ensures=["okn(%d, %s) ==> r is Some && r->Some_0@ =~= sym(%d, %s)" % (k, P[0], k, P[0])])
    if k == 3: return dict(ensures=["r@ =~= sym(%d, %s)" % (k, P[0])])
    return dict(ensures=["okn(%d, %s) ==> r@ =~= sym(%d, %s)" % (k, P[0], k, P[0])])
  if n == "parse_iroha_katakana": return dict(ensures=["r == rd_iro(1, %s@)" % P[0]])
  if n == "parse_iroha_hiragana": return dict(ensures=["r == rd_iro(2, %s@)" % P[0]])
  if n == "parse_zenkaku_num": return dict(ensures=["r == parse_usize(unzen(%s@))" % P[0]])
  if n == "parse_roman": return dict(ensures=["r == rd_roman(%s@)" % P[0]])
  if n == "parse_zenkaku_alphabet": return dict(ensures=["r == rd_alpha(%s@)" % P[0]])
  raise Lost(key)

def nfn(f):
  fn = Fn(f)
  key = f["key"]; n = key.split("::")[-1]
  P = [p["name"] for p in f["params"] if "name" in p]
  fn.start = lit_start(fn.body)
  fn.body = fn.body.replace(".replace (", ".vx_replace (")
  if n.startswith("parse_iroha"): fn.start += " assert(%s@.len() == 1 ==> %s@ =~= seq![%s@[0]]);" % (P[0], P[0], P[0])
  con = con_of(key, f)
  for l in fn.loops:
    lp = fn.meta["loops"][str(l)]
    evs = [e for e in fn.meta["events"] if l in e["loops"]]
    try: it = fn.iter_of(l)
    except Lost: it = None
    if it is None:
      t = [e["base"] for e in evs if e["how"] == "assign" and re.search(r"\b26\b", e["val"])]
      a = [e["base"] for e in evs if e["how"] == "push"]
      if not t or not a or n not in TOS: raise Lost("loop %d of %s" % (l, key))
      up = "true" if TOS[n] == 6 else "false"
      fn.pre[l] = "let ghost g%d = %s; proof { assert(letters(g%d as int, %s) + %s@.reverse() =~= letters(g%d as int, %s)); }" % (l, t[0], l, up, a[0], l, up)
      fn.inv[l] = ["letters(g%d as int, %s) =~= letters(%s as int, %s) + %s@.reverse()" % (l, up, t[0], up, a[0]), "g%d >= 1 ==> %s@.len() + %s >= 1" % (l, a[0], t[0])]
      fn.dec[l] = t[0]
      continue
    fn.inv[l] = ["%s.wf()" % it]
    fn.dec[l] = "%s.v@.len() - %s.pos" % (it, it)
    fn.pre[l] = "let ghost i%d = %s;" % (l, it)
    fn.inv[l] += ["%s.v@ == i%d.v@" % (it, l), "i%d.pos <= %s.pos" % (l, it)]
    if n == "parse_zenkaku_alphabet":
      t = [e["base"] for e in evs if e["how"] == "assign"]
      if not t: raise Lost("loop %d of %s" % (l, key))
      fn.inv[l].append("alpha(%s.v@.take(%s.pos as int)) == Some(%s as int)" % (it, it, t[0]))
      fn.pre[l] += " proof { assert(%s.v@.take(0) =~= Seq::empty()); assert(%s.v@.take(%s.v@.len() as int) =~= %s.v@); }" % (it, it, it, it)
      fn.head[l] = "lem_alpha_step(%s.v@, %s.pos as int);" % (it, it)
      continue
    t = [e["target"] for e in evs if e["how"] in ("vx_push_str", "vx_push_char", "vx_push_any")]
    if not t: raise Lost("loop %d of %s" % (l, key))
    k = {"item_text": "pk(%s)" % P[0] if P else "", "paragraph_text": "3"}.get(n, "0")
    fn.pre[l] += " let ghost g%d = %s@;" % (l, t[0])
    ok = "okns(%s, %s.v@) ==> " % (k, it) if n != "item_text" else ""
    fn.inv[l].append("%s%s@ == app(g%d, %s, %s.v@, i%d.pos as int, %s.pos as int)" % ("" if n in ("item_text", "paragraph_text") else "", t[0], l, k, it, l, it))
  return fn, con

LEMS = """
pub open spec fn numok(k: int, n: GArticleNumber) -> bool { okn(k, n.base_number) && okns(k, n.eda_numbers) && okns(k, n.range_end_numbers) }
pub broadcast proof fn lem_unzen_eq(s: Seq<char>, t: Seq<char>) requires t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> t[i] == azch(s[i]) ensures #![trigger unzen(s), parse_usize(t)] t == unzen(s) { assert(t =~= unzen(s)); }
pub broadcast proof fn lem_unwide_eq(s: Seq<char>, t: Seq<char>) requires t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> t[i] == urch(s[i]) ensures #![trigger unwide(s), rom_val(t)] t == unwide(s) { assert(t =~= unwide(s)); }
pub proof fn lem_alpha_step(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures alpha(s.take(i + 1)) == (match (alpha(s.take(i)), alpha_d(s[i])) { (Some(v), Some(d)) => Some(v * 26 + d), _ => None }), alpha(s) is Some ==> alpha(s.take(i)) is Some, alpha(s) is Some ==> alpha(s.take(i+1)) is Some && alpha(s)->Some_0 >= alpha(s.take(i+1))->Some_0 >= 0
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); lem_alpha_mono(s, i + 1); lem_alpha_mono(s, i); }
pub proof fn lem_alpha_mono(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures alpha(s) is Some ==> alpha(s.take(i)) is Some && alpha(s)->Some_0 >= alpha(s.take(i))->Some_0 >= 0 decreases s.len()
{ if i == s.len() { assert(s.take(i) =~= s); if s.len() > 0 { lem_alpha_mono(s.drop_last(), s.len() - 1); assert(s.drop_last().take(s.len() - 1) =~= s.drop_last()); } } else { lem_alpha_mono(s.drop_last(), i); assert(s.drop_last().take(i) =~= s.take(i)); } }
"""
def pat_spec(vx):
  t = "pub open spec fn pk(p: ItemPattern) -> int { match p { " + ", ".join("ItemPattern::%s => %d" % (v, k) for v, w, k in PATTERNS) + " } }\n"
  return t + "pub open spec fn pw(p: ItemPattern) -> int { match p { " + ", ".join("ItemPattern::%s => %d" % (v, w) for v, w, k in PATTERNS) + " } }"

C13LEM = """
pub proof fn lem_letters(n: int, up: bool) requires n >= 0 ensures alpha(letters(n, up)) == Some(n), n > 0 ==> letters(n, up).len() > 0 decreases n
{ if n > 0 { let m = (n - 1) / 26; lem_letters(m, up); assert(letters(n, up).drop_last() =~= letters(m, up)); assert(n == m * 26 + (n - 1) % 26 + 1); } }
pub proof fn lem_unzen(n: usize) ensures unzen(zen(show_usize(n))) == show_usize(n) { lemma_usize_text(n); assert(unzen(zen(show_usize(n))) =~= show_usize(n)); }
pub proof fn lem_unwide(n: int) requires 1 <= n <= 399 ensures unwide(sym(4, n as usize)) == rom_a(n), unwide(sym(5, n as usize)) == rom_a(n)
{ assert(unwide(sym(4, n as usize)) =~= rom_a(n)); assert(unwide(sym(5, n as usize)) =~= rom_a(n)); }
/// what reading a symbol of style k gives
pub open spec fn rd_sym(k: int, s: Seq<char>) -> Option<usize> {
  if k == 0 { match kan_val(s) { Some(v) if v <= usize::MAX => Some(v as usize), _ => None } } else if k == 1 || k == 2 { rd_iro(k, s) } else if k == 3 { parse_usize(unzen(s)) } else if k == 4 || k == 5 { rd_roman(s) } else { rd_alpha(s) }
}
/// every symbol reads back: none is lost, no two numbers share one
pub proof fn lem_sym(k: int, n: usize) requires 0 <= k <= 7, okn(k, n) ensures rd_sym(k, sym(k, n)) == Some(n)
{
  if k == 0 { axiom_kansuji(n as int); } else if k == 3 { lem_unzen(n); lemma_usize_text(n); }
  else if k == 4 || k == 5 { lem_unwide(n as int); axiom_roman(n as int); } else if k >= 6 { lem_letters(n as int, k == 6); }
}
pub proof fn lem_sym_distinct(k: int, a: usize, b: usize) requires 0 <= k <= 7, okn(k, a), okn(k, b), sym(k, a) == sym(k, b) ensures a == b { lem_sym(k, a); lem_sym(k, b); }
"""
def rt_fns(c):
  out = []
  for k, (t, p) in {1: ("to_iroha_katakana", "parse_iroha_katakana"), 2: ("to_iroha_hiragana", "parse_iroha_hiragana"), 4: ("to_zenkaku_roman_upper", "parse_roman"), 5: ("to_zenkaku_roman_lower", "parse_roman")}.items():
    if c.has(t) and c.has(p): out.append("pub fn rt_%s(n: usize) -> (r: Option<usize>) requires okn(%d, n) ensures r == Some(n) { proof { lem_sym(%d, n); } let s = %s(n).unwrap(); assert(s@ == sym(%d, n)); %s(s.as_str()) }" % (t, k, k, t, k, p))
  for k, (t, p) in {3: ("to_zenkaku_num", "parse_zenkaku_num"), 6: ("to_zenkaku_alphabet_upper", "parse_zenkaku_alphabet"), 7: ("to_zenkaku_alphabet_lower", "parse_zenkaku_alphabet")}.items():
    if c.has(t) and c.has(p): out.append("pub fn rt_%s(n: usize) -> (r: Option<usize>) requires okn(%d, n) ensures r == Some(n) { proof { lem_sym(%d, n); } let s = %s(n); assert(s@ == sym(%d, n)); %s(s.as_str()) }" % (t, k, k, t, k, p))
  return "\n".join(out)
