"""Assembles the Verus crate for one mode."""
import json, subprocess, sys, os, re
from gen import *
from execgen import *
import hand

VX = os.path.join(HERE, "..", "vx", "target", "debug", "vx")

def extract(repo="/repo"):
  cj = "/tmp/vx_contracts_%d.json" % os.getpid()
  json.dump(EXTRA_CONTRACTS, open(cj, "w"))
  p = subprocess.run([VX, repo + "/src", cj], capture_output=True, text=True)
  os.unlink(cj)
  if p.returncode != 0: raise Exception("extraction failed: " + p.stderr[-400:])
  return json.loads(p.stdout)

UNIT_ENUMS = set(ENUMS)
def exec_types(vx, more=()):
  """definitions of the exec types: name -> text (P: where `pub` of a field goes)"""
  tx = {}
  want = set(TYPES) | set(UNIONS) | UNIT_ENUMS | set(HAND) | {"Error"} | set(more)
  seen = set()
  for t in vx["types"]:
    n = t["name"]
    if n not in want or n in seen: continue
    seen.add(n)
    if t["kind"] == "struct":
      d = "pub struct %s { %s }" % (n, ", ".join("@PUB@ %s: %s" % (f["name"], f["ty"]) for f in t["fields"]))
    else:
      vs = []
      for v in t["variants"]:
        if not v["tys"]: vs.append(v["name"])
        elif v["named"]: vs.append("%s { %s }" % (v["name"], ", ".join("%s: %s" % (a, b) for a, b in v["tys"])))
        else: vs.append("%s(%s)" % (v["name"], ", ".join(b for a, b in v["tys"])))
      der = "#[derive(PartialEq, Eq, Structural, Copy)] " if n in UNIT_ENUMS else ""
      d = "%spub enum %s { %s }" % (der, n, ", ".join(vs))
    tx[n] = d + ("\nimpl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % n)
  for n in ("Element", "XMLNode"):
    tx[n] = ("impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % n)
  tx["Result"] = "pub type Result<T> = std::result::Result<T, Error>;"
  return tx, want - seen

def closed(text):
  text = re.sub(r"^pub ghost struct ([GA]\w+) \{(.*)\}$", lambda m: m.group(0) if m.group(1) in OPENT else "pub ghost struct %s {%s}" % (m.group(1), m.group(2).replace("pub ", "")), text, flags=re.M)
  return re.sub(r"pub open spec fn ((?:v|aok|av|att|p|enc|dec|fold|init|wf|dec1)_(?!Text\b|text\b|TextElement)\w+)", lambda m: "pub closed spec fn " + m.group(1) if not is_open(m.group(1)) else m.group(0), text)
OPEN = set()
OPENT = {"GText", "GArticleNumber"}
def is_open(n):
  p, rest = n.split("_", 1)
  return (p in ("v", "wf", "nd") and (rest in UNIONS)) or (p == "v" and rest in ("ArticleNumber", "String")) or n in OPEN

class Crate:
  def __init__(s, vx, mode, external=()):
    """external: keys whose body is not verified (contract assumed)"""
    s.mods = []       # (module name, text)
    s.fn_mod = {}     # key -> module
    s.lost = {}       # key -> reason
    s.mode = mode
    s.vx = vx
    fns = {}
    for f in vx["fns"]: fns.setdefault(f["key"], []).append(f)
    s.fns = fns
    s.types, s.missing_types = exec_types(vx)
    s.external = set(external)
    s.emitted = []
  def emit(s, key, fn_con_maker, o, ty=None, name=None):
    """emit one function into o (inherent impl)"""
    fl = s.fns.get(key)
    if s.mode == "safe" and "::to_" in key: return
    if not fl or len(fl) != 1:
      s.lost[key] = "function not found" if not fl else "ambiguous"
      return
    f = fl[0]
    ext = key in s.external
    try:
      fn, con = fn_con_maker(f)
      bad = [n for n in f["notes"] if n.startswith("unsupported")]
      if bad: raise Lost("; ".join(bad))
      txt = print_fn(fn, con, name=name, external=ext)
    except (Lost, KeyError, IndexError, TypeError, ValueError) as ex:
      s.lost[key] = "%s: %s" % (type(ex).__name__, ex)
      try:
        txt = s.contract_only(f, fn_con_maker, name)
      except Exception as ex2:
        s.lost[key] += " / " + str(ex2)
        return
    s.emitted.append(key)
    o("// FN %s" % key)
    o("impl %s {" % ty if ty else "")
    o(txt)
    o("}" if ty else "")
    o("// ENDFN")
  def has(s, key): return key in s.emitted or key in s.lost and len(s.fns.get(key, [])) == 1
  def contract_only(s, f, maker, name):
    g = dict(f); g["meta"] = dict(f["meta"], loops={}); 
    fn, con = maker(g)
    return print_fn(fn, con, name=name, external=True)
  def module(s, name, deps, o):
    s.mods.append((name, deps, o.text()))

def struct_deps(X):
  d = []
  for g in TYPES[X]["body"]:
    if g.ty == "String": continue
    d.append(base(g.ty))
    if is_union(g.ty):
      for v, tag, ty in variants_n(g.ty):
        if ty: d.append(base(ty))
    if g.card in ("textc", "text", "dflt", "dfltomit"): d.append("TextElement")
  return d

def num_module(c, mode, lemmas):
  o = Out(); hand.spec_num(o)
  if lemmas:
    o('// LEM')
    if all(c.fns.get(k) for k in ('ArticleNumber::from_num_str', 'ArticleNumber::num_str')): hand.num_client(o)
    o('// ENDLEM')
  o("""impl VFromStr for ArticleNumber { open spec fn vok(s: Seq<char>) -> bool { parse_num(s) is Some } open spec fn vis(s: Seq<char>, r: Self) -> bool { parse_num(s) == Some(v_ArticleNumber(r)) }
  %s }""" % ("fn vx_from_str(s: &str) -> (r: std::result::Result<Self, ()>) { match ArticleNumber::from_str(s) { Ok(x) => Ok(x), Err(_) => Err(()) } }" if mode != "safe" else "#[verifier::external_body] fn vx_from_str(s: &str) -> (r: std::result::Result<Self, ()>) { unimplemented!() }"))
  for k in ("ArticleNumber::from_num_str", "ArticleNumber::num_str", "ArticleNumber::from_str"):
    c.emit(k, lambda f: hand.num_fn(f, mode), o, ty="ArticleNumber")
  c.module("t_Num", ["Num"], o)

def build_num(vx, external=(), lemmas=True):
  """the crate of C11 alone"""
  c = Crate(vx, "full", external)
  num_module(c, "full", lemmas)
  c.types = {k: v for k, v in c.types.items() if k in ("Error", "ArticleNumber", "Result")}
  return c

def build(vx, mode, external=(), lemmas=None):
  c = Crate(vx, mode, external)
  for e in ENUMS:
    o = Out(); gen_enum(o, e)
    if lemmas: o('// LEM'); lemmas.enum_lemma(o, e); o('// ENDLEM')
    for k in (e + "::from_attribute", e + "::to_attribute"):
      if k in c.fns: c.emit(k, lambda f: hand.enum_fn(e, f, mode), o, ty=e)
    c.module("t_e_" + e, [], o)
  num_module(c, mode, lemmas)
  o = Out()
  for k in ("get_attribute", "get_attribute_with_parse", "get_attribute_opt_with_parse"): c.emit(k, lambda f: hand.helpers(f, mode), o)
  for k in ("Error::missing_required_tag", "Error::wrong_tag_name", "Error::unexpected_tag"): c.emit(k, lambda f: hand.helpers(f, mode), o, ty="Error")
  c.module("t_Helpers", [], o)
  o = Out(); hand.spec_text(o)
  if lemmas: o('// LEM'); lemmas.text_lemmas(o); o('// ENDLEM')
  for k in ("Text::from_children", "Text::to_children", "Text::to_xml_element_with_name", "Ruby::parser", "Ruby::to_xml_element", "Sup::parser", "Sup::to_xml_element", "Sub::parser", "Sub::to_xml_element"):
    c.emit(k, lambda f: hand.text_fn(f, mode), o, ty=k.split("::")[0])
  c.module("t_Text", ["TextElement", "Text", "Ruby", "Sup", "Sub", "Line"], o)
  o = Out(); hand.spec_socot(o)
  if lemmas: o('// LEM'); lemmas.socot_lemmas(o); o('// ENDLEM')
  X = "SentenceOrColumnOrTable"
  for k in (X + "::from_element", X + "::to_xml_element_with_name"): c.emit(k, lambda f: hand.socot_fn(f, mode), o, ty=X)
  c.module("t_" + X, ["Sentence", "Column", "Table"], o)
  for u in UNIONS:
    o = Out(); gen_union(o, u)
    if u == "Struct":
      for k in ("Struct::parser", "Struct::to_xml_element"): c.emit(k, lambda f: hand.union_fns(f, mode), o, ty="Struct")
    c.module("t_" + u, [u] + [base(ty) for _, _, ty in variants_n(u) if ty], o)
  for X in TYPES:
    o = Out(); gen_struct(o, X)
    rk = X + "::parser"
    wk = X + ("::to_xml_element_with_name" if X in NAMED else "::to_xml_element")
    c.emit(rk, lambda f: reader(X, f, mode), o, ty=X)
    c.emit(wk, lambda f: writer(X, f, mode, X in NAMED), o, ty=X)
    if lemmas:
      o('// LEM'); lemmas.lemmas(o, X)
      if c.has(rk) and c.has(wk): lemmas.rt_exec(o, X)
      o('// ENDLEM')
    c.module("t_" + X, [X] + struct_deps(X), o)
  return c

def assemble(c, close=True):
  bg = set(re.findall(r"pub broadcast group (bg_\w+)", "\n".join(t for _, _, t in c.mods)))
  out = ["#![allow(warnings)]", open(os.path.join(HERE, "prelude.rs")).read(), "verus! {", None]
  placed = set()
  for name, deps, text in c.mods:
    if close: text = closed(text)
    # spec part must not broadcast-use its own group: put spec and exec in separate modules
    text, lem = split_lem(text)
    spec, ex = split(text)
    n = name[2:]
    if n in TYPES and n in c.types:
      spec = c.types[n].replace("@PUB@", "" if close else "pub") + "\n" + spec
      placed.add(n)
    sub = ""
    parts = [("x" + name, "bg_", ex)]
    if n in TYPES:
      rd, wr = split_rw(ex)
      parts = [("x" + name, "bg_", rd), ("w" + name, "bgw_", wr)]
    for xn, pre, ex in parts:
      if not ex.strip(): continue
      uses = [pre + "xml"] + sorted({pre + d for d in deps if "bg_" + d in bg})
      us = ["super::super::" + u for u in uses]
      if pre == "bg_": us += ["super::" + x for x in re.findall(r"broadcast proof fn (se_\w+)", spec)]
      sub += "pub mod " + xn + " { use super::super::*; use super::*; broadcast use {%s};\n%s\n}\n" % (", ".join(us), ex)
      if re.search(r"^pub fn |^fn ", ex, re.M): sub += "pub use self::%s::*;\n" % xn
    if lem.strip():
      sub += "pub mod l%s { use super::super::*; use super::*;\n%s\n}\npub use self::l%s::*;\n" % (name, lem, name)
    out.append("pub mod %s { use super::*;\n%s\n%s}\npub use %s::*;" % (name, spec, sub, name))
  out[3] = "\n".join(c.types[n].replace("@PUB@", "pub") for n in c.types if n not in placed)
  lits = ["pub mod lits { use super::*;"]
  for t, n in LITS.items():
    lits.append('pub proof fn %s() ensures tagid("%s"@) == %d { reveal_strlit("%s"); reveal(tagid); reveal_with_fuel(tagid_at, %d); }' % (n, t, th(t), t, len(t) + 2))
  lits.append('pub proof fn lit_empty() ensures ""@ == Seq::<char>::empty() { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }')
  lits.append("}")
  ids = {}
  for t in LITS: assert th(t) not in ids; ids[th(t)] = t
  out += lits + ["} // verus!", "fn main() {}"]
  return "\n".join(out)

def split_lem(text):
  spec, lem, inl = [], [], False
  for l in text.split("\n"):
    if l == "// LEM": inl = True
    (lem if inl else spec).append(l)
    if l == "// ENDLEM": inl = False
  return "\n".join(spec), "\n".join(lem)
def split_rw(ex):
  rd, wr, cur = [], [], None
  for l in ex.split("\n"):
    if l.startswith("// FN "): cur = wr if "::to_xml" in l else rd
    (rd if cur is None else cur).append(l)
  return "\n".join(rd), "\n".join(wr)

def split(text):
  spec, ex, inx = [], [], False
  for l in text.split("\n"):
    if l.startswith("// FN "): inx = True
    (ex if inx else spec).append(l)
    if l.startswith("// ENDFN"): inx = False
  return "\n".join(spec), "\n".join(ex)

if __name__ == "__main__":
  mode = sys.argv[1]
  vx = extract()
  lem = None
  if "lem" in sys.argv:
    import lemma as lem
  c = build(vx, mode, lemmas=lem)
  t = assemble(c, close=("open" not in sys.argv))
  open(sys.argv[2], "w").write(t)
  (c.lost or c.missing_types) and print("lost:", c.lost, "missing types:", c.missing_types)
