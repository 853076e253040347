"""What a law built from plain text should hold (used by the bounded search only): the events the
lines stand for, worked out from the kinds of lines, and the events found in the built law.
The reading of the lines is that of the specification in tfn.py."""
import noracle as N
RANK = {"Part": 1, "Chapter": 2, "Section": 3, "Subsection": 4, "Division": 5}
UNIT = {"Part": "編", "Chapter": "章", "Section": "節", "Subsection": "款", "Division": "目", "Article": "条"}
TITLE = {"Part": "part_title", "Chapter": "chapter_title", "Section": "section_title", "Subsection": "subsection_title", "Division": "division_title"}
PATS = [p for p in N.PATTERNS if p not in ("NoParenZenkakuNum",)]
WORDS = ["総則", "通則", "この法律は、公布の日から施行する。", "ただし、この限りでない。", "削除", "（削除）", "次に掲げる者　次のとおり", "ああ　（見出し）附則", "第二条の規定", "第一編の章、節、款及び目の特則", "第三項第一号イ　（一）", "abc 123", "\"<&>'"]
LINES = ["この法律は、公布の日から施行する。", "ただし、この限りでない。", "前項の規定は 適用しない。", "削除", "ああ（いい）", "", "〽", "われらは、　ここに　宣言する。", "第二条の規定により処分する。", "１０人以上の場合", "一般に公正妥当", "イロハ", "第一編", "（一）のもの", "附則第二条の規定", "附則の 規定", "抄"]

class T:
  def __init__(s, ls): s.ls, s.m = ls, {}
  def k(s, j): return s.ls[j][0]
  def memo(f):
    def g(s, *a):
      key = (f.__name__,) + a
      if key not in s.m: s.m[key] = f(s, *a)
      return s.m[key]
    return g
  @memo
  def st(s, j):
    if j <= 0: return ()
    k = s.k(j - 1)
    if k == "Item": return istep(s.st(j - 1), s.ls[j - 1][3], s.ls[j - 1][1]["base_number"])
    return s.st(j - 1) if k == "Text" else ()
  @memo
  def nt(s, j):
    if j <= 0: return 1
    k = s.k(j - 1)
    return 2 if k in ("Article", "Paragraph", "Item") else s.nt(j - 1) + 1 if k == "Text" else 1
  @memo
  def pre(s, j): return j <= 0 or s.pre(j - 1) and s.k(j - 1) == "Text"
  @memo
  def art(s, j): return j > 0 and (s.k(j - 1) == "Article" or s.k(j - 1) in ("Paragraph", "Item", "Text") and s.art(j - 1))
  @memo
  def op(s, j, l):
    if j <= 0: return False
    k = s.k(j - 1); r = RANK.get(k, 0); o = lambda x: s.op(j - 1, x)
    if r: return r == l or r > l and o(l) and o(r - 1)
    if k == "SupplProvision": return False
    if k == "Paragraph": return s.art(j - 1) and o(l)
    if k == "Text": return s.nt(j - 1) > 1 and o(l)
    return o(l)
  def inner(s, j): return next((l for l in (5, 4, 3, 2, 1) if s.op(j, l)), 0)
  @memo
  def lsup(s, q): return -1 if q <= 0 else q - 1 if s.k(q - 1) == "SupplProvision" else s.lsup(q - 1)
  @memo
  def dis(s, q): return q > 0 and (s.dis(q - 1) or s.lsup(q - 1) >= 0 and (s.k(q - 1) == "Part" or s.k(q - 1) == "Section" and not s.op(q - 1, 2)))
  def bad(s, j):
    k = s.k(j)
    return k == "Item" and (s.nt(j) <= 1 or s.pre(j)) or k == "Subsection" and not s.op(j, 3) or k == "Division" and not s.op(j, 4)
  def stop(s): return next((j for j in range(len(s.ls)) if s.bad(j)), len(s.ls))
  def hasc(s, i):
    while i < len(s.ls) and s.k(i) == "Caption": i += 1
    return i < len(s.ls) and s.k(i) != "SupplProvision" and not s.bad(i)
  def events(s, e):
    o = []
    for j in range(e):
      l = s.ls[j]; k = l[0]
      if k in RANK: o.append(["Head", RANK[k], RANK[k] - 1 if RANK[k] > 1 and s.op(j, RANK[k] - 1) else 0, l[1], l[2], deleted(l[2])])
      elif k == "Article":
        if j and s.k(j - 1) == "Caption": o.append(["Cap", s.ls[j - 1][1]])
        o += [["Art", s.inner(j), l[1], deleted(l[2])], ["Para", True, one(1)], ["Txt", 1, l[2]]]
      elif k == "Paragraph": o += [["Para", s.art(j), l[1]], ["Txt", 1, l[2]]]
      elif k == "Item": o += [["Item", len(s.st(j + 1)) - 1, l[1], deleted(l[2])], ["Txt", 1, l[2]]]
      elif k == "Text":
        o += [["Para", False, one(j)], ["Txt", 0, l[1]]] if s.pre(j) else [["Para", False, one(1)], ["Txt", 1, l[1]]] if s.nt(j) == 1 else [["Txt", s.nt(j), l[1]]]
      elif k == "SupplProvision" and s.hasc(j + 1): o.append(["Suppl", "附則", l[1]])
    return o

def one(n): return {"base_number": n, "eda_numbers": [], "range_end_numbers": []}
def deleted(t): return t.strip() in ("削除", "（削除）")
def istep(s, p, b):
  if not s: return (p,)
  if s[-1] == p: return s
  if b == 1 and len(s) <= 10 and (len(s) < 2 or s[-2] != p): return s + (p,)
  while len(s) > 1 and s[-1] != p: s = s[:-1]
  return s if len(s) > 1 else (p,)

# ---- the events of a built law
def txt(t): return t["contents"][0]["Text"] if len(t["contents"]) == 1 and "Text" in t["contents"][0] else ["?", t]
def sents(ss): return [["Txt", s["num"], s["contents"][0]["String"]] if len(s["contents"]) == 1 and "String" in s["contents"][0] and s["function"] is None and s["indent"] is None else ["?", s] for s in ss]
def item(x, d):
  r = [["Item", d, x["num"], x["delete"]]] + (sents(x["sentence"]["Sentence"]) if "Sentence" in x["sentence"] else [["?", x["sentence"]]])
  if x["title"] is not None or x["struct_list"] or x["hide"]: r.append(["?", "item", x])
  for c in x.get("children", []): r += item(c, d + 1)
  return r
def para(x, c):
  r = [["Para", c == 6, x["num"]]] + sents(x["sentence"])
  if x["caption"] is not None or x["paragraph_num"]["contents"] or x["amend_provision"] or x["class"] or x["struct_list"] or x["old_style"] or x["old_num"] or x["hide"]: r.append(["?", "paragraph", x])
  for i in x["children"]: r += item(i, 0)
  return r
def node(k, x, c):
  if k == "Paragraph": return para(x, c)
  if k == "Article":
    r = [["Cap", txt(x["caption"]["text"])]] if x["caption"] is not None else []
    r.append(["Art", c, x["num"], x["delete"]])
    if x["suppl_note"] is not None or x["hide"]: r.append(["?", "article", x])
    for p in x["paragraph"]: r += para(p, 6)
    return r
  r = [["Head", RANK[k], c, x["num"], txt(x[TITLE[k]]), x["delete"]]]
  for y in x["children"]:
    a, b = ("Article", y) if k == "Division" else next(iter(y.items()))
    r += node(a, b, RANK[k])
  return r
def walk(law):
  b = law["law_body"]; r = []
  for p in (b["preamble"] or {"children": []})["children"]: r += para(p, 0)
  for y in b["main_provision"]["children"]: r += node(*next(iter(y.items())), 0)
  for s in b["suppl_provision"]:
    r.append(["Suppl", txt(s["label"]), s["amend_law_num"]])
    for y in s["children"]: r += node(*next(iter(y.items())), 0)
  return r

# ---- random texts
def text_of(l, rng):
  k = l[0]; gap = rng.choice(["　", " ", "　 "])
  ind = rng.choice(["", "", "  ", "　　"])
  if k in UNIT: return ind + N.articles_text(l[1], UNIT[k]) + gap + l[2]
  if k == "Paragraph": return ind + N.paragraph_text(l[1]) + gap + l[2]
  if k == "Item": return ind + N.item_text(l[1], l[3]) + gap + l[2]
  if k == "Caption": return ind + "（" + l[1] + "）"
  if k == "Text": return ind + l[1]
  return ind + rng.choice(["附則", "附　則"]) + ("（%s）" % l[1] if l[1] else "")
def lines(rng, words=()):
  num = lambda: rng.choice([one(rng.randrange(1, 40)), one(rng.randrange(1, 40)), {"base_number": rng.randrange(1, 40), "eda_numbers": [rng.randrange(1, 9)], "range_end_numbers": []}, {"base_number": 3, "eda_numbers": [], "range_end_numbers": [5]}])
  ex = [x for x in (y.strip(" \t　") for y in words) if x and len(x.splitlines()) == 1]   # texts the code speaks of
  w = lambda: rng.choice(WORDS) if not ex or rng.random() < .6 else rng.choice(["第一", "", "の"]) + rng.choice(ex)
  out = []; n = rng.choice([1, 3, 6, 12, 25]); st = []
  deep = rng.random() < .5
  for _ in range(n):
    t = T(out); j = len(out)
    ok = lambda: rng.random() < .93
    k = rng.choice(["Item"] * (12 if deep else 4) + ["Text"] * 3 + ["Paragraph"] * 2 + ["Article"] * 3 + ["Caption"] * 2 + ["SupplProvision"] + ["Part", "Chapter", "Section", "Subsection", "Division"])
    if k == "Item":
      if (t.nt(j) <= 1 or t.pre(j)) and ok(): k = rng.choice(["Article", "Paragraph"])
      else:
        st = list(t.st(j)); new = [p for p in PATS if p not in st]
        p = rng.choice(([rng.choice(new)] * (7 if deep else 2) if new else []) + st[-1:] + st)  if st else rng.choice(PATS)
        b = 1 if p not in st and rng.random() < .9 else rng.choice([1, 2, 3, 4])
        nn = one(b)
        if not p.endswith("Hiragana") and rng.random() < .1: nn["eda_numbers"] = [rng.randrange(1, 4)]
        if N.item_text(nn, p) is None or not N.readable(nn, p): nn = one(1)
        if not N.readable(nn, p): continue
        out.append(["Item", nn, w(), p]); continue
    if k == "Subsection" and not t.op(j, 3) and ok() or k == "Division" and not t.op(j, 4) and ok(): k = "Section" if k == "Subsection" else "Subsection" if t.op(j, 3) else "Section"
    if (k == "Part" or k == "Section" and not t.op(j, 2)) and t.lsup(j) >= 0 and ok(): k = "Chapter"
    if k in UNIT or k == "Paragraph": out.append([k, num(), w()])
    elif k == "Caption": out.append([k, rng.choice(["目的", "定義 等", "削除"])])
    elif k == "SupplProvision": out.append([k, rng.choice([None, "昭和三一年四月二日法律第六三号"])])
    else: out.append([k, rng.choice(LINES).strip(" 　")])
  while out and out[-1][:2] == ["Text", ""]: out.pop()   # a trailing line break ends a line, it does not start one
  return out
def differs(ls, law, title="題"):
  import harness
  t = T(ls); e = t.stop()
  if t.dis(e): return None
  if txt(law["law_body"]["law_title"]["text"]) != title: return ("/title", title, law["law_body"]["law_title"])
  return harness.first_diff(t.events(e), walk(law))
