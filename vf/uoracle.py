"""What the listing and text functions of src/utils.rs should return (used by the bounded search only)."""
from oracle import Gen
LV = ["part", "chapter", "section", "subsection", "division"]
TITLE = {"Part": "part_title", "Chapter": "chapter_title", "Section": "section_title", "Subsection": "subsection_title", "Division": "division_title"}
SPINES = ["Article", "Division", "Subsection", "Paragraph", "Item", "Table", "Column", "Subitem1", "Subitem2", "Subitem3", "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10", "QuoteStruct", "ArithFormula", "TableHeaderRow", "Ruby", "Sup"]

def cut(x):
  """keep numbers small enough to compare, nothing else"""
  return x
def deep(rng, n=10):
  """a paragraph whose items reach down to any subitem level, with any kind of sentence on the way"""
  p = Gen(rng, "Sentence").val("Paragraph", True, 4)
  def level(T, i):
    t = Gen(rng, rng.choice(["Sentence", "Column", "Table", "Ruby"]), .1).val(T, True, 4)
    if rng.random() < .5: t["sentence"] = Gen(rng, rng.choice(["Sentence", "Column", "Table", "TableColumn", "Ruby", "ArithFormula", "QuoteStruct"])).val("SentenceOrColumnOrTable", True, 5)
    if i < n and "children" in t: t["children"] = [level("Subitem%d" % (i + 1), i + 1) for _ in range(rng.choice([1, 1, 1, 2]) if i > 3 else 1)] if rng.random() < .93 else []
    return t
  p["children"] = [level("Item", 0) for _ in range(rng.choice([1, 2]))]
  return p
def case(rng):
  def prov(T):
    v = Gen(rng, rng.choice(SPINES)).val(T, True, 0)
    ks = []
    for _ in range(rng.choice([0, 1, 2, 4])): ks += Gen(rng, rng.choice(SPINES), rng.choice([.2, .5])).val(T, True, 0)["children"]
    for _ in range(rng.choice([0, 0, 1, 2])): ks.insert(rng.randrange(len(ks) + 1), {"Paragraph": Gen(rng, "Sentence").val("Paragraph", True, 4)})
    rng.shuffle(ks)
    if rng.random() < .6: ks.insert(0, {"Paragraph": deep(rng, rng.choice([2, 5, 8, 10, 10]))})
    v["children"] = (ks or v["children"])[:8]
    return v
  return dict(main=prov("MainProvision"), suppl=prov("SupplProvision"), text=Gen(rng, rng.choice(["Ruby", "Sup", "Text"])).val("Text", True, 0), table=Gen(rng, rng.choice(["Sentence", "Column", "TableColumn", "Table", "TableHeaderRow", "Ruby"])).val("Table", True, 3), sentence=Gen(rng, rng.choice(["ArithFormula", "QuoteStruct", "Sup", "Sentence"])).val("Sentence", True, 0)["contents"])

def kind(x): return next(iter(x)) if isinstance(x, dict) else x
def plain(t): return "".join(te(e) for e in t["contents"])
def te(e):
  k = kind(e)
  if k in ("Sup", "Sub"): return e[k]["text"]
  if k == "Ruby": return plain(e[k]["text"])
  if k == "Text": return e[k]
  return ""
def contents(cs):
  o = ""
  for c in cs:
    k = kind(c)
    if k == "String": o += c[k]
    elif k == "Ruby": o += plain(c[k]["text"])
    elif k == "Sub": o += "_{" + c[k]["text"] + "}"
    elif k == "Sup": o += "^{" + c[k]["text"] + "}"
    elif k in ("ArithFormula", "QuoteStruct"): o += contents(c[k]["contentes"]["contents"]) if "contentes" in c[k] else ""
  return o
def inner(cs): return contents([c for c in cs if kind(c) in ("String", "Ruby", "Sub", "Sup")])
def sent(cs):
  return "".join(inner(c[kind(c)]["contentes"]["contents"]) if kind(c) in ("ArithFormula", "QuoteStruct") else inner([c]) for c in cs)
def cell(c):
  k = kind(c)
  if k == "String": return c[k]
  if k == "Sentence": return sent(c[k]["contents"])
  if k == "Column": return "".join(sent(x["contents"]) for x in c[k]["sentence"])
  return ""
def table(t):
  return " ".join("".join(plain(x) for x in h["columns"]) for h in t["table_header_row"]) + "\n" + "\n".join(" ".join("".join(cell(c) for c in col["contents"]) for col in r["columns"]) for r in t["table_row"])
def socot(x):
  k = kind(x)
  if k == "Sentence": return "".join(sent(s["contents"]) for s in x[k])
  if k == "Column": return " ".join(sent(s["contents"]) for c in x[k] for s in c["sentence"])
  return table(x[k])
def infos(ps):
  out = []
  def item(p, path, it):
    path = path + [it["num"]]
    out.append([p["num"], path, socot(it["sentence"])])
    for c in it.get("children", []): item(p, path, c)
  for p in ps:
    out.append([p["num"], [], "".join(sent(s["contents"]) for s in p["sentence"])])
    for it in p["children"]: item(p, [], it)
  return out
def arts(cs, nums):
  out = []
  for c in cs:
    k = kind(c)
    v = c[k] if k in TITLE or k == "Article" else None
    if k == "Article": out.append([nums.get(l) for l in LV] + [v])
    elif k in TITLE: out += arts([{"Article": a} for a in v["children"]] if k == "Division" else v["children"], dict(nums, **{k.lower(): v["num"]}))
  return out
def tocs(cs, nums):
  out = []
  for c in cs:
    k = kind(c)
    if k == "Article": out.append([nums.get(l) for l in LV] + [c[k]["num"], plain(c[k]["title"])])
    elif k in TITLE:
      v = c[k]; n = dict(nums, **{k.lower(): v["num"]})
      out.append([n.get(l) for l in LV] + [None, plain(v[TITLE[k]])])
      out += tocs([{"Article": a} for a in v["children"]] if k == "Division" else v["children"], n)
  return out
def groups(cs):
  out = [[]]
  for c in cs:
    k = kind(c)
    if k == "Article" or k in TITLE: out.append([])
    elif k == "Paragraph": out[-1].append(c[k])
  return out
def expect(c, got):
  m, s = c["main"]["children"], c["suppl"]["children"]
  if c["part"] == "arts":
    a, b = arts(m, {}), arts(s, {})
    return {"with_number_article_list_from_main_provision": [a, groups(m)], "article_list_from_main_provision": [[x[5] for x in a], groups(m)], "with_number_article_list_from_suppl_provision": [b, groups(s)], "article_list_from_suppl_provision": [[x[5] for x in b], groups(s)]}
  if c["part"] == "toc": return {"toc_list_from_main_provision": tocs(m, {}), "toc_list_from_suppl_provision": tocs(s, {})}
  e = {"to_string": plain(c["text"]), "table_to_str": table(c["table"]), "sentence_element_to_str": sent(c["sentence"])}
  # relative to the paragraphs the library itself lists: which ones it lists is another property
  e["articles"] = [[infos(x["paragraph"]), "\n".join(i[2] for i in infos(x["paragraph"])), x] for _, _, x in got["articles"]]
  e["groups"] = [[infos(x), "\n".join(i[2] for i in infos(x)), x] for _, _, x in got["groups"]]
  return e
