"""Executable reading of the schema: decode (tree -> value), encode (value -> tree),
random values and trees.  Used only to look for a concrete failing input against the
real library when an obligation fails, and as the bounded stand-in for functions the
verifier could not be given; it never decides a property on its own.

tree: {"n": name, "a": {attr: value}, "c": [tree | {"t": text} | {"o": 1}]}
value: the serde_json form of the library's types."""
import random, re
from schema import TYPES, UNIONS, ENUMS
from gen import variants_n, base, is_union, enum_parts, NAMED

U64 = 2 ** 64
class Fail(Exception): pass
NONE = object()

# ---------------------------------------------------------------- scalars
def parse_usize(s):
  if not re.fullmatch(r"\+?[0-9]+", s): return None
  n = int(s)
  return n if n < U64 else None
def parse_bool(s): return {"true": True, "false": False}.get(s)
def parse_num(s):
  ps = s.split(":")
  if len(ps) > 2: return None
  out = []
  for p in ps:
    ns = [parse_usize(x) for x in p.split("_")]
    if any(n is None for n in ns): return None
    out.append(ns)
  return {"base_number": out[0][0], "eda_numbers": out[0][1:], "range_end_numbers": out[1] if len(out) > 1 else []}
def show_num(n):
  s = "_".join(str(x) for x in [n["base_number"]] + n["eda_numbers"])
  return s + (":" + "_".join(map(str, n["range_end_numbers"])) if n["range_end_numbers"] else "")
def ep(e, s):
  for v, t in ENUMS[e][1]:
    if t == s: return v
  return None
def es(e, v): return dict(ENUMS[e][1])[v]

# ---------------------------------------------------------------- attributes
def attr_dec(a, m):
  k, s = a.kind, m.get(a.xml)
  def must(x):
    if x is None: raise Fail("attribute %s" % a.xml)
    return x
  if k == "str": return must(s)
  if k == "ostr": return s
  if k == "usize": return must(parse_usize(must(s)))
  if k == "usize?": return None if s is None else must(parse_usize(s))
  if k == "usize?empty": return None if not s else must(parse_usize(s))
  if k == "bool?": return None if s is None else must(parse_bool(s))
  if k in ("bool=false", "bool!"): return False if s is None else must(parse_bool(s))
  if k == "num": return must(parse_num(must(s)))
  if k == "num?": return None if s is None else must(parse_num(s))
  if k == "num?empty": return None if not s else must(parse_num(s))
  if k == "numlenient": return parse_num(must(s))
  e, how = enum_parts(k)
  if how == "req": return must(ep(e, must(s)))
  if how == "opt": return None if s is None else must(ep(e, s))
  if how == "lenient": return None if s is None else ep(e, s)
  d = how.split("=")[1]
  return d if s is None or ep(e, s) is None else ep(e, s)
def attr_enc(a, m, x):
  k = a.kind
  b = lambda v: "true" if v else "false"
  if k == "str": m[a.xml] = x
  elif k == "ostr":
    if x is not None: m[a.xml] = x
  elif k == "usize": m[a.xml] = str(x)
  elif k in ("usize?", "usize?empty"):
    if x is not None: m[a.xml] = str(x)
  elif k == "bool?":
    if x is not None: m[a.xml] = b(x)
  elif k == "bool=false":
    if x: m[a.xml] = "true"
  elif k == "bool!": m[a.xml] = b(x)
  elif k == "num": m[a.xml] = show_num(x)
  elif k in ("num?", "num?empty"):
    if x is not None: m[a.xml] = show_num(x)
  elif k == "numlenient": m[a.xml] = show_num(x) if x is not None else ""
  else:
    e, how = enum_parts(k)
    if how == "req" or how.startswith("deff"): m[a.xml] = es(e, x)
    elif how in ("opt", "lenient"):
      if x is not None: m[a.xml] = es(e, x)
    elif x != how.split("=")[1]: m[a.xml] = es(e, x)

# ---------------------------------------------------------------- decode
def cat(e): return "".join(c["t"] for c in e["c"] if "t" in c)
def dec_text(e):
  out = []
  for c in e["c"]:
    if "t" in c: out.append({"Text": c["t"]})
    elif c.get("n") in ("Ruby", "Line", "Sup", "Sub"):
      try: out.append({c["n"]: dec(c["n"], c)})
      except Fail: pass
  return {"contents": out}
def dec_socot(e):
  s, k, t = [], [], None
  for c in e["c"]:
    if "n" not in c: continue
    if c["n"] == "Sentence": s.append(dec("Sentence", c))
    elif c["n"] == "Column": k.append(dec("Column", c))
    elif c["n"] == "Table": t = {"Table": dec("Table", c)}
    else: raise Fail(c["n"])
  if k: return {"Column": k}
  if s: return {"Sentence": s}
  if t is None: raise Fail("nothing")
  return t
def dec(X, e):
  X = base(X)
  if X == "Text": return dec_text(e)
  if X == "SentenceOrColumnOrTable": return dec_socot(e)
  if X == "Ruby":
    if e["n"] != "Ruby": raise Fail("Ruby")
    t, r = [], None
    for c in e["c"]:
      if "t" in c: t.append({"Text": c["t"]})
      elif c.get("n") == "Rt": r = cat(c)
    return {"text": {"contents": t}, "ruby": r or ""}
  if X in ("Sup", "Sub"):
    if e["n"] != X: raise Fail(X)
    return {"text": e["c"][0]["t"] if e["c"] and "t" in e["c"][0] else ""}
  t = TYPES[X]
  if t["tag"] != "?" and not t.get("anytag") and e["n"] != t["tag"]: raise Fail("tag %s" % e["n"])
  r = {}
  for a in t["attrs"]: r[a.field] = attr_dec(a, e["a"])
  body = t["body"]
  kinds = [g.card for g in body]
  if not body: return r
  if kinds[0] in ("text", "textc"):
    v = dec_text(e)
    r[body[0].field] = v if kinds[0] == "text" else v["contents"]
    return r
  if kinds[0] == "whole":
    r[body[0].field] = dec("Contents", e)
    return r
  ch = e["c"]
  if X == "Law":
    if len(ch) < 2 or ch[0].get("n") != "LawNum" or "n" not in ch[1]: raise Fail("Law")
    r["law_num"] = cat(ch[0]); r["law_body"] = dec("LawBody", ch[1])
    return r
  if kinds[0] in ("first", "firstwrap"):
    g = body[0]
    if not ch or ch[0].get("n") != g.tag: raise Fail("first")
    if g.card == "first": r[g.field] = dec_text(ch[0])
    else: r[g.field] = dec_wrap(g.ty, ch[0], [])
    if len(body) > 1:
      g = body[1]
      out = []
      for c in ch[1:]:
        if "n" not in c: continue
        if g.card == "vec":
          if t["mod"] == "article" and c["n"] != g.tag: raise Fail(c["n"])
          out.append(dec(g.ty, c))
        else: out.append(dec_union(g.ty, c))
      r[g.field] = out
    return r
  acc = {}
  for g in body:
    if g.card in ("one", "opt", "optwrap1"): acc[g.field] = None
    elif g.card in ("dflt", "dfltomit"): acc[g.field] = {"contents": []}
    else: acc[g.field] = []
  inbody = False
  hasheads = any(g.kw.get("head") for g in body)
  for c in ch:
    if "n" not in c:
      if "t" in c:
        for g in body:
          if g.card == "uni":
            tv = [v for v, tag, ty in variants_n(g.ty) if ty is None]
            if tv: acc[g.field].append({tv[0]: c["t"]}); break
      continue
    done = False
    for g in body:
      if g.kw.get("head") and inbody: continue
      if g.card == "post": continue
      if g.card == "uni":
        m = [(v, ty) for v, tag, ty in variants_n(g.ty) if ty is not None and tag == c["n"]]
        if not m: continue
        acc[g.field].append({m[0][0]: dec(m[0][1], c)})
      elif g.card == "vec" and t.get("anychild"): acc[g.field].append(dec(g.ty, c))
      elif g.tag != c["n"]: continue
      elif g.card in ("one", "opt"): acc[g.field] = dec(g.ty, c)
      elif g.card == "vec": acc[g.field].append(dec(g.ty, c))
      elif g.card in ("dflt", "dfltomit"): acc[g.field] = dec_text(c)
      elif g.card in ("wrapvec", "unieach"): acc[g.field] = dec_wrap(g.ty, c, acc[g.field])
      elif g.card == "optwrap1":
        if not c["c"] or "n" not in c["c"][0]: raise Fail("wrap1")
        acc[g.field] = dec(g.ty, c["c"][0])
      elif g.card == "pre":
        try:
          v = dec("Remarks", c)
          (acc[g.field] if acc[g.kw["sep"]] is None else acc[g.kw["post"]]).append(v)
        except Fail: pass
      done = True
      if hasheads and not g.kw.get("head"): inbody = True
      break
    if not done and t.get("unknown") != "ignore": raise Fail("unexpected %s in %s" % (c["n"], X))
  for g in body:
    if g.card == "one" and acc[g.field] is None: raise Fail("missing %s" % g.tag)
  r.update(acc)
  return r
def dec_union(u, c):
  for v, tag, ty in variants_n(u):
    if ty is not None and tag == c["n"]: return {v: dec(ty, c)}
  raise Fail("unexpected %s" % c["n"])
def dec_wrap(T, c, acc):
  out = list(acc)
  for d in c["c"]:
    if "n" in d: out.append(dec_union(T, d) if is_union(T) else dec(T, d))
  return out

# ---------------------------------------------------------------- encode
def el(n, a=None, c=None): return {"n": n, "a": a or {}, "c": c or []}
def enc_union(u, v):
  (var, x), = v.items()
  for vn, tag, ty in variants_n(u):
    if vn == var: return {"t": x} if ty is None else enc(ty, x, tag)
  raise Exception(var)
def enc_contents(cs):
  out = []
  for x in cs: out.append({"t": x["Text"]} if "Text" in x else enc(list(x)[0], list(x.values())[0]))
  return out
def enc(X, x, tag=None):
  X = base(X)
  if X == "Text": return el(tag, {}, enc_contents(x["contents"]))
  if X == "SentenceOrColumnOrTable":
    (k, v), = x.items()
    return el(tag, {}, [enc(k, y) for y in v] if k != "Table" else [enc(k, v)])
  if X == "Ruby": return el("Ruby", {}, enc_contents(x["text"]["contents"]) + [el("Rt", {}, [{"t": x["ruby"]}])])
  if X in ("Sup", "Sub"): return el(X, {}, [{"t": x["text"]}])
  t = TYPES[X]
  m = {}
  for a in t["attrs"]: attr_enc(a, m, x[a.field])
  name = tag if X in NAMED else t["tag"]
  ch = []
  for g in t["body"]:
    v = x[g.field]
    if g.card in ("text",): ch += enc_contents(v["contents"])
    elif g.card == "textc": ch += enc_contents(v)
    elif g.card == "whole": ch += enc("Contents", v, name)["c"]
    elif g.card == "firsttext": ch.append(el(g.tag, {}, [{"t": v}]))
    elif g.card in ("one", "dflt", "first", "second"): ch.append(enc(g.ty, v, g.tag))
    elif g.card == "opt":
      if v is not None: ch.append(enc(g.ty, v, g.tag))
    elif g.card == "dfltomit":
      if v["contents"]: ch.append(enc("Text", v, g.tag))
    elif g.card in ("vec", "pre", "post"): ch += [enc(g.ty, y, g.tag) for y in v]
    elif g.card == "uni": ch += [enc_union(g.ty, y) for y in v]
    elif g.card in ("wrapvec", "firstwrap"): ch.append(el(g.tag, {}, [enc_union(g.ty, y) if is_union(g.ty) else enc(g.ty, y) for y in v]))
    elif g.card == "optwrap1":
      if v is not None: ch.append(el(g.tag, {}, [enc(g.ty, v)]))
    elif g.card == "unieach": ch += [el(g.tag, {}, [enc_union(g.ty, y)]) for y in v]
    else: raise Exception(g.card)
  return el(name, m, ch)

# ---------------------------------------------------------------- random values
WORDS = ["第一条", "この法律", "甲", "乙及び丙", "ア", "〔略〕", "x<y", "a&b", "前項　の規定", "2", "一二三", "\"q\"", " 前", "後 "]
EXTRA_WORDS, EXTRA_NUMS = [], []
def kids_of(X):
  """types directly reachable from X"""
  r = []
  if X in ("Text", "TextWithWritingMode", "Caption", "RemarksLabel", "LawTitle"): r += ["Ruby", "Line", "Sup", "Sub"]
  if X == "SentenceOrColumnOrTable": r += ["Sentence", "Column", "Table"]
  if X in TYPES:
    for g in TYPES[X]["body"]:
      if g.ty == "String": continue
      if is_union(g.ty): r += [base(ty) for _, _, ty in variants_n(g.ty) if ty]
      else: r.append(base(g.ty))
  return r
_DIST = {}
def dist(target):
  """distance from every type to target"""
  if target in _DIST: return _DIST[target]
  d = {target: 0}
  allT = list(TYPES) + ["Text", "SentenceOrColumnOrTable", "Ruby", "Sup", "Sub"]
  ks = {X: kids_of(X) for X in allT}
  ch = True
  while ch:
    ch = False
    for X in allT:
      for k in ks[X]:
        if k in d and d.get(X, 10 ** 6) > d[k] + 1: d[X] = d[k] + 1; ch = True
  _DIST[target] = d
  return d

class Gen:
  """random values; the spine leads to the target type, everything else stays small"""
  def __init__(s, rng, target, rich=0.35):
    s.r, s.t, s.d, s.rich = rng, target, dist(target), rich
  def text_str(s):
    if EXTRA_WORDS and s.r.random() < .3: return s.r.choice(EXTRA_WORDS)
    return s.r.choice(WORDS) + (str(s.r.randrange(100)) if s.r.random() < .3 else "")
  def num(s):
    r = s.r
    big = lambda: r.choice([0, 1, 2, 9, 10, 11, 99, 100, 12345, 2 ** 31, 2 ** 63, 2 ** 64 - 1, r.randrange(1000)] + [x + d for x in EXTRA_NUMS for d in (-1, 0, 1) if 0 <= x + d < U64])
    return {"base_number": big(), "eda_numbers": [big() for _ in range(r.choice([0, 0, 1, 2, 3]))], "range_end_numbers": [big() for _ in range(r.choice([0, 0, 0, 1, 2, 3]))]}
  def attr(s, a):
    r, k = s.r, a.kind
    if EXTRA_WORDS and k in ("str", "ostr") and r.random() < .3: return r.choice(EXTRA_WORDS)
    if EXTRA_NUMS and k.startswith("usize") and r.random() < .3: return r.choice(EXTRA_NUMS)
    if k == "str": return r.choice(["1", "x", "第一", "", "a b"])
    if k == "ostr": return r.choice([None, "1", "", "いろは"])
    if k == "usize": return r.choice([0, 1, 29, 2 ** 64 - 1])
    if k in ("usize?", "usize?empty"): return r.choice([None, 0, 1, 12, 2 ** 64 - 1])
    if k == "bool?": return r.choice([None, True, False])
    if k.startswith("bool"): return r.random() < .5
    if k == "num": return s.num()
    if k in ("num?", "num?empty", "numlenient"): return None if r.random() < .3 else s.num()
    e, how = enum_parts(k)
    v = [x for x, _ in ENUMS[e][1]]
    if how in ("opt", "lenient"): v = v + [None]
    return r.choice(v)
  def text(s, on, depth):
    n = s.r.choice([0, 1, 1, 2, 3])
    out = []
    for i in range(n):
      if out and "Text" in out[-1]: out.append({"Sup": {"text": s.text_str()}} if s.r.random() < .7 else {"Ruby": s.val("Ruby", False, depth + 1)})
      else: out.append({"Text": s.text_str()})
    if on:
      ks = [k for k in ("Ruby", "Line", "Sup", "Sub") if s.d.get(k, 99) < s.d.get("Text", 99)]
      if ks:
        k = s.r.choice(ks)
        out.insert(s.r.randrange(len(out) + 1), {k: s.val(k, True, depth + 1)})
        out = [x for i, x in enumerate(out) if not (i and "Text" in x and "Text" in out[i - 1])]
    return {"contents": out}
  def val(s, X, on, depth):
    """on: X lies on the spine"""
    X = base(X); r = s.r
    if on and s.t == X: on = False; here = True; rich = 0.85
    else: here = False; rich = s.rich if depth < 6 else 0.0
    if X == "Text": return s.text(on, depth)
    if X == "Ruby": return {"text": {"contents": [{"Text": s.text_str()}] if r.random() < .9 else []}, "ruby": s.text_str() if r.random() < .9 else ""}
    if X in ("Sup", "Sub"): return {"text": s.text_str()}
    if X == "SentenceOrColumnOrTable":
      ks = ["Sentence", "Column", "Table"]
      if on:
        m = min(s.d.get(k, 99) for k in ks)
        k = r.choice([k for k in ks if s.d.get(k, 99) == m])
      elif depth > 9: k = "Sentence"
      else: k = r.choice(ks)
      if k == "Table": return {k: s.val(k, on, depth + 1)}
      return {k: [s.val(k, on and i == 0, depth + 1) for i in range(1 if depth > 9 else r.choice([1, 1, 2]))]}
    t = TYPES[X]
    v = {a.field: s.attr(a) for a in t["attrs"]}
    best = None
    if on:
      cand = [(s.d.get(k, 999), k) for k in kids_of(X)]
      m = min(c[0] for c in cand)
      best = r.choice(sorted({k for d_, k in cand if d_ == m}))
    def has(g):
      if is_union(g.ty): return best in [base(ty) for _, _, ty in variants_n(g.ty) if ty]
      return best == base(g.ty) or (best in ("Ruby", "Line", "Sup", "Sub") and g.card in ("text", "textc"))
    spine = None
    if on:
      gs = [g for g in t["body"] if has(g)]
      if gs: spine = r.choice(gs)
    for g in t["body"]:
      o = g is spine
      if g.card == "firsttext": v[g.field] = s.text_str()
      elif g.card == "text": v[g.field] = s.text(o and True, depth)
      elif g.card == "textc": v[g.field] = s.text(o and True, depth)["contents"]
      elif g.card in ("one", "first", "second", "whole", "dflt"): v[g.field] = s.val(g.ty, o, depth + 1)
      elif g.card == "dfltomit": v[g.field] = s.val("Text", o, depth + 1) if o or r.random() < max(rich, .3) else {"contents": []}
      elif g.card in ("opt", "optwrap1"): v[g.field] = s.val(g.ty, o, depth + 1) if o or r.random() < rich else None
      else:
        n = 0
        if rich and r.random() < rich: n = r.choice([1, 1, 2, 3])
        xs = [s.elem(g.ty, None, False, depth + 1) for _ in range(n)]
        if o: xs.insert(r.randrange(len(xs) + 1), s.elem(g.ty, best, True, depth + 1))
        if is_union(g.ty):  # adjacent or blank text nodes cannot survive serialisation
          tv = [a for a, _, ty in variants_n(g.ty) if ty is None]
          if tv: xs = [x for i, x in enumerate(xs) if not (i and tv[0] in x and tv[0] in xs[i - 1])]
        v[g.field] = xs
    return v
  def elem(s, T, best, on, depth):
    if not is_union(T): return s.val(T, on, depth)
    vs = variants_n(T)
    if on: vs = [x for x in vs if x[2] and base(x[2]) == best]
    elif depth > 5: vs = [x for x in vs if x[2] is None] or sorted(vs, key=lambda x: heavy(x[2]))[:2]
    var, tag, ty = s.r.choice(vs)
    return {var: s.text_str() if ty is None else s.val(ty, on, depth)}
  def law(s): return s.val("Law", True, 0)

_H = {}
def heavy(ty):
  """size of the smallest value of a type"""
  if ty is None: return 0
  T = base(ty)
  if T in _H: return _H[T]
  _H[T] = 50
  if T not in TYPES: h = 1 if T != "SentenceOrColumnOrTable" else 3
  else:
    h = 1
    for g in TYPES[T]["body"]:
      if g.card in ("one", "first", "second", "whole") and g.ty != "String": h += heavy(g.ty)
  _H[T] = h
  return h

# ---------------------------------------------------------------- mutations of trees (reading exact and strict)
def nodes(e, path=()):
  yield e
  for c in e["c"]:
    if "n" in c: yield from nodes(c)
ALLTAGS = sorted({t["tag"] for t in TYPES.values() if t["tag"] != "?"} | {g.tag for t in TYPES.values() for g in t["body"] if g.tag})
def mutate(rng, tree):
  import copy
  t = copy.deepcopy(tree)
  for _ in range(rng.choice([1, 1, 2])):
    ns = list(nodes(t))
    e = rng.choice(ns)
    k = rng.randrange(12)
    els = [i for i, c in enumerate(e["c"]) if "n" in c]
    if k == 0 and e["a"]: del e["a"][rng.choice(sorted(e["a"]))]
    elif k == 1 and e["a"]: e["a"][rng.choice(sorted(e["a"]))] = rng.choice(["", "x", "true", "false", "1", "-1", "1_", "1:2:3", "+3", "1:", "18446744073709551616", "solid", "TRUE", " 1", "double", "vertical", "Vertical", "ja"] + EXTRA_WORDS)
    elif k == 2: e["n"] = rng.choice(ALLTAGS)
    elif k == 3: e["c"].insert(rng.randrange(len(e["c"]) + 1), el(rng.choice(ALLTAGS + ["Zzz"] + [w for w in EXTRA_WORDS if re.fullmatch("[A-Za-z][A-Za-z0-9]*", w)])))
    elif k == 4 and els: e["c"].pop(rng.choice(els))
    elif k == 5 and els:
      i = rng.choice(els); e["c"].insert(rng.randrange(len(e["c"]) + 1), copy.deepcopy(e["c"][i]))
    elif k == 6 and len(e["c"]) > 1: rng.shuffle(e["c"])
    elif k == 7: e["c"].insert(rng.randrange(len(e["c"]) + 1), {"o": 1})
    elif k == 8: e["c"].insert(rng.randrange(len(e["c"]) + 1), {"t": "余分"})
    elif k == 9: e["c"] = []
    elif k == 10: e["a"][rng.choice(["Num", "Zzz", "Delete", "WritingMode", "Align"])] = rng.choice(["1", "true", "left", "vertical", "horizontal"])
    elif k == 11 and els:
      i = rng.choice(els); f = rng.choice(ns)
      if f["c"]: e["c"][i] = copy.deepcopy(rng.choice(f["c"]))
  return merge(t)
def merge(t):
  """adjacent text nodes merge in serialised form"""
  out = []
  for c in t["c"]:
    if "t" in c:
      if not c["t"].strip(" \t\r\n"):
        if c["t"] == "": continue
      if out and "t" in out[-1]: out[-1] = {"t": out[-1]["t"] + c["t"]}; continue
    if "n" in c: c = merge(c)
    out.append(c)
  return {"n": t["n"], "a": t["a"], "c": out}
def to_xml(t):
  esc = lambda s: s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
  if "t" in t: return esc(t["t"])
  if "o" in t: return "<!--c-->"
  a = "".join(' %s="%s"' % (k, esc(v).replace('"', "&quot;")) for k, v in sorted(t["a"].items()))
  return "<%s%s>%s</%s>" % (t["n"], a, "".join(to_xml(c) for c in t["c"]), t["n"])
