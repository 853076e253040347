// ---------------------------------------------------------------------------
// Prelude of the generated Verus crate: the XML tree the readers and writers
// work on (the types of the `xmltree` crate), its mathematical mirror, and the
// contracts of the standard-library operations the extraction renames to vx_*.
// Everything marked external_body here is an assumption; check.py counts them.
// ---------------------------------------------------------------------------
use vstd::prelude::*;
verus! {

#[verifier::external_body]
pub struct AttrMap { m: std::collections::HashMap<String, String> }
impl AttrMap {
  pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
  #[verifier::external_body]
  pub fn get<K: AsS + ?Sized>(&self, k: &K) -> (r: Option<&String>)
    ensures r is Some <==> self@.contains_key(k.s()), r is Some ==> r.unwrap()@ == self@[k.s()]
  { self.m.get(k.as_s()) }
  #[verifier::external_body]
  pub fn contains_key<K: AsS + ?Sized>(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.s()) { self.m.contains_key(k.as_s()) }
  #[verifier::external_body]
  pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
    ensures final(self)@ == old(self)@.insert(k@, v@)
  { self.m.insert(k, v) }
}
pub struct Element { pub name: String, pub attributes: AttrMap, pub children: Vec<XMLNode> }
pub enum XMLNode { Element(Element), Text(String), Comment(String), CData(String), ProcessingInstruction(String, Option<String>) }

pub ghost struct El { pub name: Seq<char>, pub attrs: Map<Seq<char>, Seq<char>>, pub ch: Seq<Nd> }
pub ghost enum Nd { E(El), T(Seq<char>), O }
#[verifier::opaque]
pub open spec fn vE(e: Element) -> El decreases e {
  El { name: e.name@, attrs: e.attributes@,
       ch: Seq::new(e.children@.len(), |i: int| if 0 <= i < e.children@.len() { vN(e.children@[i]) } else { arbitrary() }) }
}
#[verifier::opaque]
pub open spec fn vN(n: XMLNode) -> Nd decreases n {
  match n { XMLNode::Element(e) => Nd::E(vE(e)), XMLNode::Text(s) => Nd::T(s@), _ => Nd::O }
}
#[verifier::opaque]
pub open spec fn vNs(s: Seq<XMLNode>) -> Seq<Nd> { Seq::new(s.len(), |i: int| vN(s[i])) }
pub open spec fn mkEl(name: Seq<char>) -> El { El { name: name, attrs: Map::empty(), ch: Seq::empty() } }

impl Element {
  #[verifier::external_body]
  pub fn new<K: AsS + ?Sized>(n: &K) -> (r: Element)
    ensures r.name@ == n.s(), r.attributes@ == Map::<Seq<char>, Seq<char>>::empty(), r.children@.len() == 0, vE(r) == mkEl(n.s())
  { unimplemented!() }
}
pub broadcast proof fn lemma_vE(e: Element)
  ensures #[trigger] vE(e) == (El { name: e.name@, attrs: e.attributes@, ch: vNs(e.children@) })
{ reveal(vE); reveal(vN); reveal(vNs); assert(vE(e).ch =~= vNs(e.children@)); }
pub broadcast proof fn lemma_vNs_push(s: Seq<XMLNode>, x: XMLNode)
  ensures #[trigger] vNs(s.push(x)) == vNs(s).push(vN(x))
{ reveal(vNs); assert(vNs(s.push(x)) =~= vNs(s).push(vN(x))); }
pub broadcast proof fn lemma_vNs_empty(s: Seq<XMLNode>)
  requires s.len() == 0
  ensures #[trigger] vNs(s) == Seq::<Nd>::empty()
{ reveal(vNs); assert(vNs(s) =~= Seq::<Nd>::empty()); }
pub broadcast proof fn lemma_vNs_index(s: Seq<XMLNode>, i: int)
  requires 0 <= i < s.len()
  ensures #[trigger] vNs(s)[i] == vN(s[i])
{ reveal(vNs); }
pub broadcast proof fn lemma_vNs_len(s: Seq<XMLNode>)
  ensures #[trigger] vNs(s).len() == s.len()
{ reveal(vNs); }
pub proof fn lemma_child(e: Element, i: int)
  ensures vE(e).ch.len() == e.children@.len(), vE(e) == (El { name: e.name@, attrs: e.attributes@, ch: vNs(e.children@) }),
    0 <= i < e.children@.len() ==> {
    &&& vE(e).ch[i] == vN(e.children@[i])
    &&& e.children@[i] is Element ==> vN(e.children@[i]) == Nd::E(vE(e.children@[i]->Element_0))
      && decreases_to!(vE(e) => vE(e.children@[i]->Element_0)) && decreases_to!(vE(e) => vNs(e.children@[i]->Element_0.children@))
    &&& e.children@[i] is Text ==> vN(e.children@[i]) == Nd::T(e.children@[i]->Text_0@)
    &&& !(e.children@[i] is Element || e.children@[i] is Text) ==> vN(e.children@[i]) is O
    }
{
  lemma_vE(e); lemma_vNs_len(e.children@);
  if 0 <= i < e.children@.len() { lemma_vNs_index(e.children@, i); lemma_vN(e.children@[i]); }
  if 0 <= i < e.children@.len() && e.children@[i] is Element {
    let c = e.children@[i]->Element_0;
    lemma_vE(c);
    assert(decreases_to!(vE(e) => vE(e).ch));
    assert(decreases_to!(vE(e).ch => vE(e).ch[i]));
    assert(vN(e.children@[i]) == Nd::E(vE(c)));
    let n = vE(e).ch[i];
    assert(n is E && n->E_0 == vE(c));
    assert(decreases_to!(n => n->E_0));
    assert(decreases_to!(vE(c) => vE(c).ch));
  }
}
pub proof fn lemma_node(s: Seq<XMLNode>, i: int)
  requires 0 <= i < s.len()
  ensures vNs(s)[i] == vN(s[i]), s[i] is Element ==> vN(s[i]) == Nd::E(vE(s[i]->Element_0)) && decreases_to!(vNs(s) => vE(s[i]->Element_0))
{
  lemma_vNs_len(s); lemma_vNs_index(s, i); lemma_vN(s[i]);
  if s[i] is Element {
    let n = vNs(s)[i];
    assert(decreases_to!(vNs(s) => n));
    assert(n is E && n->E_0 == vE(s[i]->Element_0));
    assert(decreases_to!(n => n->E_0));
  }
}
pub proof fn lemma_grand(e: Element, i: int)
  requires 0 <= i < e.children@.len(), e.children@[i] is Element
  ensures ({ let c = e.children@[i]->Element_0; &&& vE(c).ch.len() == c.children@.len()
    &&& c.children@.len() > 0 ==> vE(c).ch[0] == vN(c.children@[0])
    &&& c.children@.len() > 0 && c.children@[0] is Element ==> vN(c.children@[0]) == Nd::E(vE(c.children@[0]->Element_0)) && decreases_to!(vE(e) => vE(c.children@[0]->Element_0)) })
{ lemma_child(e, i); lemma_child(e.children@[i]->Element_0, 0); }
pub broadcast proof fn lemma_vN(n: XMLNode)
  ensures #[trigger] vN(n) == (match n { XMLNode::Element(e) => Nd::E(vE(e)), XMLNode::Text(s) => Nd::T(s@), _ => Nd::O }) { reveal(vN); reveal(vE); }
pub broadcast proof fn lemma_take_all(s: Seq<Nd>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
pub broadcast proof fn lemma_empty_add(a: Seq<Nd>, b: Seq<Nd>) requires a.len() == 0 ensures #[trigger] (a + b) == b { assert(a + b =~= b); }
pub broadcast group bgw_xml { lemma_vNs_len, lemma_take_all, lemma_empty_add, lemma_vN, lemma_vE, lemma_vNs_push, lemma_vNs_empty }
pub broadcast group bg_xml { lemma_vNs_index, lemma_vNs_len, lemma_take_all, lemma_empty_add, lemma_vN, lemma_vE, lemma_vNs_push, lemma_vNs_empty }

// ---- decimal text of numbers (what std's Display and FromStr for usize do) and splitting
pub mod dec { use super::*;
pub open spec fn dch(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }
pub closed spec fn show_nat(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dch(n as int)] } else { show_nat(n / 10).push(dch((n % 10) as int)) } }
pub closed spec fn nat_val(s: Seq<char>) -> Option<nat> decreases s.len() {
  if s.len() == 0 { Some(0) } else { match nat_val(s.drop_last()) { Some(v) if is_dig(s.last()) => Some((v * 10 + (s.last() as int - 48)) as nat), _ => None } }
}
pub closed spec fn show_usize(n: usize) -> Seq<char> { show_nat(n as nat) }
pub closed spec fn parse_usize(s: Seq<char>) -> Option<usize> {
  let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
  if t.len() == 0 { None } else { match nat_val(t) { Some(v) if v <= usize::MAX => Some(v as usize), _ => None } }
}
pub proof fn lemma_show_nat(n: nat) ensures nat_val(show_nat(n)) == Some(n), show_nat(n).len() > 0, forall|i: int| 0 <= i < show_nat(n).len() ==> is_dig(#[trigger] show_nat(n)[i]) decreases n
{
  let s = show_nat(n);
  if n < 10 { assert(s.drop_last() =~= Seq::empty()); assert(nat_val(s.drop_last()) == Some(0nat)); assert(s.last() == dch(n as int)); }
  else { lemma_show_nat(n / 10); assert(s.drop_last() =~= show_nat(n / 10)); assert(s.last() == dch((n % 10) as int)); assert(n == (n / 10) * 10 + n % 10); }
}
pub proof fn lemma_usize_text(n: usize) ensures parse_usize(show_usize(n)) == Some(n), show_usize(n).len() > 0, forall|i: int| 0 <= i < show_usize(n).len() ==> is_dig(#[trigger] show_usize(n)[i])
{ lemma_show_nat(n as nat); assert(is_dig(show_usize(n)[0])); }
pub proof fn lemma_nat_val_dig(s: Seq<char>) requires nat_val(s) is Some, s.len() > 0 ensures is_dig(s[0]) decreases s.len() { if s.len() > 1 { lemma_nat_val_dig(s.drop_last()); assert(s.drop_last()[0] == s[0]); } }
pub proof fn lemma_parse_nondigit(s: Seq<char>) requires s.len() > 0, !is_dig(s[0]), s[0] != '+' ensures parse_usize(s) is None { if nat_val(s) is Some { lemma_nat_val_dig(s); } }
pub proof fn lemma_show_one() ensures show_usize(1) == seq!['1'] {}
pub proof fn lemma_parse_empty() ensures parse_usize(Seq::<char>::empty()) is None {}
/// the parts of s between occurrences of c
pub open spec fn split_spec(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
  if s.len() == 0 { seq![Seq::<char>::empty()] } else { let p = split_spec(s.drop_last(), c); if s.last() == c { p.push(Seq::<char>::empty()) } else { p.update(p.len() - 1, p.last().push(s.last())) } }
}
pub proof fn lemma_split_len(s: Seq<char>, c: char) ensures split_spec(s, c).len() >= 1 decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.drop_last(), c); } }
pub proof fn lemma_split_more(a: Seq<char>, d: Seq<char>, c: char)
  requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] != c
  ensures split_spec(a + d, c) =~= split_spec(a, c).update(split_spec(a, c).len() - 1, split_spec(a, c).last() + d) decreases d.len()
{
  lemma_split_len(a, c);
  if d.len() == 0 { assert(a + d =~= a); assert(split_spec(a, c).last() + d =~= split_spec(a, c).last()); }
  else {
    let d0 = d.drop_last();
    assert(d.last() != c);
    lemma_split_more(a, d0, c);
    assert((a + d).drop_last() =~= a + d0);
    assert(split_spec(a, c).last() + d =~= (split_spec(a, c).last() + d0).push(d.last()));
  }
}
pub proof fn lemma_split_sep(a: Seq<char>, d: Seq<char>, c: char)
  requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] != c
  ensures split_spec(a.push(c) + d, c) == split_spec(a, c).push(d)
{
  lemma_split_more(a.push(c), d, c);
  assert(a.push(c).drop_last() =~= a);
  assert(Seq::<char>::empty() + d =~= d);
  assert(split_spec(a.push(c) + d, c) =~= split_spec(a, c).push(d));
}
pub proof fn lemma_split_one(d: Seq<char>, c: char)
  requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] != c
  ensures split_spec(d, c) == seq![d]
{ lemma_split_more(Seq::empty(), d, c); assert(Seq::<char>::empty() + d =~= d); assert(split_spec(d, c) =~= seq![d]); }
}

// ---- strings
pub trait AsS { spec fn s(&self) -> Seq<char>; fn as_s(&self) -> (r: &str) ensures r@ == self.s(); }
impl AsS for str { open spec fn s(&self) -> Seq<char> { self@ } fn as_s(&self) -> (r: &str) { self } }
impl AsS for String { open spec fn s(&self) -> Seq<char> { self@ } fn as_s(&self) -> (r: &str) { self.as_str() } }
impl<T: AsS + ?Sized> AsS for &T { open spec fn s(&self) -> Seq<char> { (**self).s() } fn as_s(&self) -> (r: &str) { (**self).as_s() } }
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub fn vx_eq<A: AsS + ?Sized, B: AsS + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.s() == b.s()) { vx_str_eq(a.as_s(), b.as_s()) }
#[verifier::external_body]
pub fn vx_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_cat<K: AsS + ?Sized>(a: String, b: &K) -> (r: String) ensures r@ == a@ + b.s() { a + b.as_s() }

pub trait VxStr {
  spec fn vxs(&self) -> Seq<char>;
  fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vxs().len() == 0);
}
impl VxStr for String { open spec fn vxs(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl VxStr for str { open spec fn vxs(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
pub trait VxPush { spec fn vxs2(&self) -> Seq<char>;
  fn vx_push_str<K: AsS + ?Sized>(&mut self, k: &K) ensures final(self).vxs2() == old(self).vxs2() + k.s();
  fn vx_push_any<K: AsS>(&mut self, k: K) ensures final(self).vxs2() == old(self).vxs2() + k.s();
  fn vx_push_char(&mut self, c: char) ensures final(self).vxs2() == old(self).vxs2().push(c); }
impl VxPush for String { open spec fn vxs2(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_push_str<K: AsS + ?Sized>(&mut self, k: &K) { self.push_str(k.as_s()) }
  #[verifier::external_body] fn vx_push_any<K: AsS>(&mut self, k: K) { self.push_str(k.as_s()) }
  #[verifier::external_body] fn vx_push_char(&mut self, c: char) { self.push(c) } }

pub use crate::dec::*;
pub open spec fn show_bool(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
pub open spec fn parse_bool(s: Seq<char>) -> Option<bool> { if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None } }
pub trait VxToString { spec fn tos(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.tos(); }
impl VxToString for str { open spec fn tos(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxToString for String { open spec fn tos(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxToString for usize { open spec fn tos(&self) -> Seq<char> { show_usize(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxToString for bool { open spec fn tos(&self) -> Seq<char> { show_bool(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxToString for char { open spec fn tos(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }

pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }

pub trait VFromStr: Sized {
  spec fn vok(s: Seq<char>) -> bool;
  spec fn vis(s: Seq<char>, r: Self) -> bool;
  fn vx_from_str(s: &str) -> (r: std::result::Result<Self, ()>)
    ensures match r { Ok(x) => Self::vok(s@) && Self::vis(s@, x), Err(_) => !Self::vok(s@) };
}
impl VFromStr for usize {
  open spec fn vok(s: Seq<char>) -> bool { parse_usize(s) is Some }
  open spec fn vis(s: Seq<char>, r: Self) -> bool { parse_usize(s) == Some(r) }
  #[verifier::external_body] fn vx_from_str(s: &str) -> (r: std::result::Result<Self, ()>) { s.parse::<usize>().map_err(|_| ()) }
}
impl VFromStr for bool {
  open spec fn vok(s: Seq<char>) -> bool { parse_bool(s) is Some }
  open spec fn vis(s: Seq<char>, r: Self) -> bool { parse_bool(s) == Some(r) }
  #[verifier::external_body] fn vx_from_str(s: &str) -> (r: std::result::Result<Self, ()>) { s.parse::<bool>().map_err(|_| ()) }
}
impl VFromStr for String {
  open spec fn vok(s: Seq<char>) -> bool { true }
  open spec fn vis(s: Seq<char>, r: Self) -> bool { r@ == s }
  #[verifier::external_body] fn vx_from_str(s: &str) -> (r: std::result::Result<Self, ()>) { Ok(s.to_string()) }
}
pub trait VxParse { spec fn vps(&self) -> Seq<char>;
  fn vx_parse<T: VFromStr>(&self) -> (r: std::result::Result<T, ()>)
    ensures match r { Ok(x) => T::vok(self.vps()) && T::vis(self.vps(), x), Err(_) => !T::vok(self.vps()) }; }
impl VxParse for str { open spec fn vps(&self) -> Seq<char> { self@ } fn vx_parse<T: VFromStr>(&self) -> (r: std::result::Result<T, ()>) { T::vx_from_str(self) } }
impl VxParse for String { open spec fn vps(&self) -> Seq<char> { self@ } fn vx_parse<T: VFromStr>(&self) -> (r: std::result::Result<T, ()>) { T::vx_from_str(self.as_str()) } }

#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unreachable!() }

// ---- splitting a string
pub struct SplitIter<'a> { pub v: Vec<&'a str>, pub pos: usize }
impl<'a> SplitIter<'a> {
  pub open spec fn parts(&self) -> Seq<Seq<char>> { Seq::new(self.v@.len(), |i: int| self.v@[i]@) }
  pub open spec fn wf(&self) -> bool { self.pos <= self.v@.len() }
  pub fn has_next(&self) -> (r: bool) ensures r == (self.pos < self.v@.len()) { self.pos < self.v.len() }
  pub fn take(&mut self) -> (r: &'a str)
    requires old(self).pos < old(self).v@.len()
    ensures final(self).v == old(self).v, final(self).parts() == old(self).parts(), final(self).pos == old(self).pos + 1, r@ == old(self).parts()[old(self).pos as int]
  { let n = self.v.len(); let r = self.v[self.pos]; self.pos = self.pos + 1; r }
  pub fn next(&mut self) -> (r: Option<&'a str>)
    ensures final(self).v == old(self).v, final(self).parts() == old(self).parts(),
      match r { Some(x) => old(self).pos < old(self).v@.len() && final(self).pos == old(self).pos + 1 && x@ == old(self).parts()[old(self).pos as int],
                None => old(self).pos >= old(self).v@.len() && final(self).pos == old(self).pos }
  { if self.pos < self.v.len() { let r = self.v[self.pos]; self.pos = self.pos + 1; Some(r) } else { None } }
  pub fn vx_iter(self) -> (r: SplitIter<'a>) ensures r == self { self }
}
pub trait VxSplit { spec fn vsp(&self) -> Seq<char>;
  fn vx_split<'a>(&'a self, c: char) -> (r: SplitIter<'a>) ensures r.parts() == split_spec(self.vsp(), c), r.v@.len() > 0, r.pos == 0; }
impl VxSplit for str { open spec fn vsp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: SplitIter<'a>) { SplitIter { v: self.split(c).collect(), pos: 0 } } }
impl VxSplit for String { open spec fn vsp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: SplitIter<'a>) { SplitIter { v: self.split(c).collect(), pos: 0 } } }

// ---- iteration over slices and vectors
pub struct SliceIter<'a, T> { pub v: &'a [T], pub pos: usize }
impl<'a, T> SliceIter<'a, T> {
  pub open spec fn wf(&self) -> bool { self.pos <= self.v@.len() }
  pub fn has_next(&self) -> (r: bool) ensures r == (self.pos < self.v@.len()) { self.pos < self.v.len() }
  pub fn take(&mut self) -> (r: &'a T)
    requires old(self).pos < old(self).v@.len()
    ensures final(self).v == old(self).v, final(self).pos == old(self).pos + 1, *r == old(self).v@[old(self).pos as int]
  { let r = &self.v[self.pos]; self.pos = self.pos + 1; r }
  pub fn next(&mut self) -> (r: Option<&'a T>)
    ensures final(self).v == old(self).v,
      match r { Some(x) => old(self).pos < old(self).v@.len() && final(self).pos == old(self).pos + 1 && *x == old(self).v@[old(self).pos as int],
                None => old(self).pos >= old(self).v@.len() && final(self).pos == old(self).pos }
  { if self.pos < self.v.len() { let r = &self.v[self.pos]; self.pos = self.pos + 1; Some(r) } else { None } }
  pub fn peek(&self) -> (r: Option<&'a T>)
    ensures match r { Some(x) => self.pos < self.v@.len() && *x == self.v@[self.pos as int], None => self.pos >= self.v@.len() }
  { if self.pos < self.v.len() { Some(&self.v[self.pos]) } else { None } }
  pub fn vx_iter(self) -> (r: SliceIter<'a, T>) ensures r == self { self }
}
pub struct OwnedIter<T> { pub v: Vec<T>, pub pos: usize }
impl<T: Clone> OwnedIter<T> {
  pub open spec fn wf(&self) -> bool { self.pos <= self.v@.len() }
  pub fn has_next(&self) -> (r: bool) ensures r == (self.pos < self.v@.len()) { self.pos < self.v.len() }
  #[verifier::external_body]
  pub fn take(&mut self) -> (r: T)
    requires old(self).pos < old(self).v@.len()
    ensures final(self).v == old(self).v, final(self).pos == old(self).pos + 1, r == old(self).v@[old(self).pos as int]
  { unimplemented!() }
}
pub trait VxIntoSlice<'a, T> { spec fn vis_(&self) -> Seq<T>; fn vx_into(self) -> (r: SliceIter<'a, T>) ensures r.v@ == self.vis_(), r.pos == 0; }
impl<'a, T> VxIntoSlice<'a, T> for &'a Vec<T> { open spec fn vis_(&self) -> Seq<T> { (**self)@ } fn vx_into(self) -> (r: SliceIter<'a, T>) { SliceIter { v: self.as_slice(), pos: 0 } } }
impl<'a, T> VxIntoSlice<'a, T> for &'a [T] { open spec fn vis_(&self) -> Seq<T> { (**self)@ } fn vx_into(self) -> (r: SliceIter<'a, T>) { SliceIter { v: self, pos: 0 } } }
pub trait VxIntoOwned<T> { spec fn vio_(&self) -> Seq<T>; fn vx_into(self) -> (r: OwnedIter<T>) ensures r.v@ == self.vio_(), r.pos == 0; }
impl<T> VxIntoOwned<T> for Vec<T> { open spec fn vio_(&self) -> Seq<T> { self@ } fn vx_into(self) -> (r: OwnedIter<T>) { OwnedIter { v: self, pos: 0 } } }

pub trait VxIter<T> { spec fn vit(&self) -> Seq<T>;
  fn vx_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) ensures r.v@ == self.vit(), r.pos == 0;
  fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) ensures match r { Some(x) => self.vit().len() > 0 && *x == self.vit()[0], None => self.vit().len() == 0 };
  fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) ensures match r { Some(x) => self.vit().len() > 0 && *x == self.vit().last(), None => self.vit().len() == 0 };
  fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vit().len() == 0);
}
impl<T> VxIter<T> for Vec<T> { open spec fn vit(&self) -> Seq<T> { self@ }
  fn vx_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) { SliceIter { v: self.as_slice(), pos: 0 } }
  fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() == 0 { None } else { Some(&self[0]) } }
  fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
  fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl<T> VxIter<T> for [T] { open spec fn vit(&self) -> Seq<T> { self@ }
  fn vx_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) { SliceIter { v: self, pos: 0 } }
  fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() == 0 { None } else { Some(&self[0]) } }
  fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
  fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
pub trait VxVecMut<T> { spec fn vvm(&self) -> Seq<T>;
  fn vx_append(&mut self, o: &mut Vec<T>) ensures final(self).vvm() == old(self).vvm() + old(o)@, final(o)@ == Seq::<T>::empty();
  fn vx_extend(&mut self, o: Vec<T>) ensures final(self).vvm() == old(self).vvm() + o@;
}
impl<T> VxVecMut<T> for Vec<T> { open spec fn vvm(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn vx_append(&mut self, o: &mut Vec<T>) { self.append(o) }
  #[verifier::external_body] fn vx_extend(&mut self, o: Vec<T>) { self.extend(o) }
}
// Option iteration (for v in opt.iter())
pub struct OptIter<'a, T> { pub v: Option<&'a T>, pub pos: usize }
impl<'a, T> OptIter<'a, T> {
  pub open spec fn wf(&self) -> bool { self.pos <= 1 }
  pub fn has_next(&self) -> (r: bool) ensures r == (self.v is Some && self.pos == 0) { self.v.is_some() && self.pos == 0 }
  pub fn take(&mut self) -> (r: &'a T)
    requires old(self).v is Some, old(self).pos == 0
    ensures final(self).v == old(self).v, final(self).pos == 1, Some(r) == old(self).v
  { self.pos = 1; self.v.unwrap() }
}
pub trait VxOptIter<T> { spec fn vot(&self) -> Option<T>;
  fn vx_iter<'a>(&'a self) -> (r: OptIter<'a, T>) ensures match r.v { Some(x) => self.vot() == Some(*x), None => self.vot() is None }, r.pos == 0; }
impl<T> VxOptIter<T> for Option<T> { open spec fn vot(&self) -> Option<T> { *self }
  fn vx_iter<'a>(&'a self) -> (r: OptIter<'a, T>) { OptIter { v: self.as_ref(), pos: 0 } } }
pub trait VxDefault: Sized { spec fn is_dflt(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::is_dflt(r); }
impl VxDefault for String { open spec fn is_dflt(r: Self) -> bool { r@ == Seq::<char>::empty() } fn vx_default() -> (r: Self) { vx_string_new() } }
impl<T> VxDefault for Vec<T> { open spec fn is_dflt(r: Self) -> bool { r@ == Seq::<T>::empty() } fn vx_default() -> (r: Self) { Vec::new() } }
impl VxDefault for bool { open spec fn is_dflt(r: Self) -> bool { r == false } fn vx_default() -> (r: Self) { false } }
impl VxDefault for usize { open spec fn is_dflt(r: Self) -> bool { r == 0 } fn vx_default() -> (r: Self) { 0 } }
#[verifier::external_body] pub fn vx_mem_take<T: VxTake>(x: &mut T) -> (r: T) ensures r == *old(x), T::taken(*final(x)) { unimplemented!() }
pub trait VxTake: Sized { spec fn taken(r: Self) -> bool; }
impl<T> VxTake for Vec<T> { open spec fn taken(r: Self) -> bool { r@ == Seq::<T>::empty() } }
impl<T> VxTake for Option<T> { open spec fn taken(r: Self) -> bool { r == None::<T> } }
impl VxTake for String { open spec fn taken(r: Self) -> bool { r@ == Seq::<char>::empty() } }
pub trait VxUnwrapDefault<T: VxDefault> { spec fn vud(&self) -> Option<T>;
  fn vx_unwrap_or_default(self) -> (r: T) ensures match self.vud() { Some(x) => r == x, None => T::is_dflt(r) }; }
impl<T: VxDefault> VxUnwrapDefault<T> for Option<T> { open spec fn vud(&self) -> Option<T> { *self }
  fn vx_unwrap_or_default(self) -> (r: T) { match self { Some(x) => x, None => T::vx_default() } } }

// ---- characters of literals: the name space of tags, attributes and values
#[verifier::opaque]
pub open spec fn tagid(s: Seq<char>) -> int { tagid_at(s, s.len() as int) }
#[verifier::opaque]
pub open spec fn tagid_at(s: Seq<char>, i: int) -> int decreases i { if i <= 0 { 1 } else { tagid_at(s, i - 1) * 131 + (s[i - 1] as int) } }

} // verus!
