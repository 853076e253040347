"""Schema of the law XML vocabulary, written from the XSD-level reading of the
format (tag and attribute names, cardinalities, order), independently of the
reader/writer bodies.  It drives the generation of the ghost mirror types, the
spec functions enc_X / dec_X / wf_X and the round-trip lemmas."""

# ---------------------------------------------------------------- enums
# unit enums used as attribute values: name -> [(variant, text)]
ENUMS = {
  "LineStyle": ("line", [("Dotted", "dotted"), ("Double", "double"), ("Solid", "solid"), ("None", "none")]),
  "Align": ("class", [("Left", "left"), ("Center", "center"), ("Right", "right"), ("Justify", "justify")]),
  "Position": ("table", [("Top", "top"), ("Middle", "middle"), ("Bottom", "bottom")]),
  "WritingMode": ("text", [("Vertical", "vertical"), ("Horizontal", "horizontal")]),
  "SentenceFunction": ("sentence", [("Main", "main"), ("Proviso", "proviso")]),
  "SentenceIndent": ("sentence", [(x, x) for x in ["Paragraph", "Item"] + ["Subitem%d" % i for i in range(1, 11)]]),
}

TYPES = {}   # name -> dict
UNIONS = {}  # name -> dict(mod, variants=[(variant, type, tag)])

class A:
  """attribute: kind in
     str         required string
     ostr        Option<String>
     usize?      Option<usize>, malformed -> error
     bool?       Option<bool>, malformed -> error
     bool=false  bool, default false, written only when true; malformed -> error
     bool!       bool, default false, always written
     num         required ArticleNumber
     num?        Option<ArticleNumber>, malformed -> error
     enum:E:req      required, unknown -> error
     enum:E:opt      Option<E>, missing -> None, unknown -> error
     enum:E:lenient  Option<E>, missing/unknown -> None
     enum:E:def=V    E, missing/unknown -> V; written only when != V
     enum:E:deff=V   E, missing/unknown -> V; always written
  """
  def __init__(s, field, xml, kind): s.field, s.xml, s.kind = field, xml, kind

class C:
  """children group, in emission order.
     card: one | opt | vec | first(one, must be the first node) | dflt (Text, default empty, always written)
     ty:   type name, 'Text' for inline text
     wrap: for card == 'wrapvec': vec of ty inside one element <tag>
  """
  def __init__(s, field, tag, card, ty, **kw):
    s.field, s.tag, s.card, s.ty, s.kw = field, tag, card, ty, kw

def S(name, mod, tag, attrs, body, **kw):
  TYPES[name] = dict(name=name, mod=mod, tag=tag, attrs=attrs, body=body, **kw)

def U(name, mod, variants):
  UNIONS[name] = dict(name=name, mod=mod, variants=variants)

def same(names): return [(n, n, n) for n in names]
SUBS = ["Subitem%d" % i for i in range(1, 11)]

# ---------------------------------------------------------------- inline text
# Text / TextElement / Ruby / Sup / Sub are hand-specified in spec_text.rs
S("RemarksLabel", "remarks", "RemarksLabel", [A("line_break", "LineBreak", "bool=false")], [C("text", None, "text", "Text")])
U("RemarksContents", "remarks", same(["Item", "Sentence"]))
S("Remarks", "remarks", "Remarks", [], [C("label", "RemarksLabel", "one", "RemarksLabel"), C("children", None, "uni", "RemarksContents")])
S("Fig", "fig", "Fig", [A("src", "src", "str")], [], anytag=True)
U("LineContents", "line", same(["QuoteStruct", "ArithFormula", "Ruby", "Sup", "Sub"]) + [("String", "#text", None)])
S("Line", "line", "Line", [A("style", "Style", "enum:LineStyle:req")], [C("contents", None, "uni", "LineContents")])

# ---------------------------------------------------------------- class.rs
S("Class", "class", "Class", [A("num", "Num", "str")],
  [C("class_title", "ClassTitle", "opt", "Text"), C("class_sentence", "ClassSentence", "one", "SentenceOrColumnOrTable"), C("children", "Item", "vec", "Item")])
S("Caption", "class", "?", [A("common_caption", "CommonCaption", "bool?")], [C("text", None, "text", "Text")])
S("Column", "class", "Column", [A("num", "Num", "usize?"), A("line_break", "LineBreak", "bool!"), A("align", "Align", "enum:Align:lenient")],
  [C("sentence", "Sentence", "vec", "Sentence")], anychild=True)

U("SentenceElement", "sentence", same(["Line", "QuoteStruct", "ArithFormula", "Ruby", "Sup", "Sub"]) + [("String", "#text", None)])
S("Sentence", "sentence", "Sentence",
  [A("num", "Num", "usize?"), A("function", "Function", "enum:SentenceFunction:opt"), A("indent", "Indent", "enum:SentenceIndent:opt"),
   A("writing_mode", "WritingMode", "enum:WritingMode:def=Vertical")],
  [C("contents", None, "uni", "SentenceElement")])

# ---------------------------------------------------------------- contents.rs
U("ContentsElement", "contents", same(["Table", "TableStruct", "Fig", "FigStruct", "QuoteStruct", "NoteStruct", "StyleStruct", "AppdxTable",
   "Ruby", "Line", "Sup", "Sub", "Paragraph", "Item"] + SUBS + ["List", "Sentence", "ArithFormula", "TOC", "TOCSection", "Remarks", "TableRow"])
   + [("String", "#text", None)])
S("Contents", "contents", "?", [], [C("contents", None, "uni", "ContentsElement")])
for n in ["Style", "Note", "Format"]:
  S(n, "contents", n, [], [C("contentes", None, "whole", "Contents")], anytag=True)
S("ArithFormula", "contents", "ArithFormula", [A("num", "Num", "usize?")], [C("contentes", None, "whole", "Contents")], anytag=True)

# ---------------------------------------------------------------- structs.rs
U("Struct", "structs", same(["TableStruct", "FigStruct", "StyleStruct", "List"]))
S("QuoteStruct", "structs", "QuoteStruct", [], [C("contentes", None, "whole", "Contents")], anytag=True)
for n, f, tt, vis in [("Note", "note", "Text", 1), ("Style", "style", "Text", 1), ("Format", "format", "Text", 0), ("Fig", "fig", "Text", 1), ("Table", "table", "TextWithWritingMode", 1)]:
  S(n + "Struct", "structs", n + "Struct", [],
    [C("title", n + "StructTitle", "opt", tt), C("title_remarks", "Remarks", "pre", "Remarks", sep=f, post=f + "_remarks"),
     C(f, n, "one", n), C(f + "_remarks", "Remarks", "post", "Remarks", sep=f)])
S("TextWithWritingMode", "text", "?", [A("writing_mode", "WritingMode", "enum:WritingMode:def=Vertical")], [C("contents", None, "textc", "Text")])

# ---------------------------------------------------------------- list.rs
U("ListSentence", "list", same(["Sentence", "Column"]))
S("List", "list", "List", [], [C("sentence", "ListSentence", "firstwrap", "ListSentence"), C("children", "Sublist1", "vec", "Sublist1")])
S("Sublist1", "list", "Sublist1", [], [C("sentence", "Sublist1Sentence", "firstwrap", "ListSentence"), C("children", "Sublist2", "vec", "Sublist2")])
S("Sublist2", "list", "Sublist2", [], [C("sentence", "Sublist2Sentence", "firstwrap", "ListSentence"), C("children", "Sublist3", "vec", "Sublist3")])
S("Sublist3", "list", "Sublist3", [], [C("sentence", "Sublist3Sentence", "firstwrap", "ListSentence")], tail="ignore")

# ---------------------------------------------------------------- table.rs
S("Table", "table", "Table", [A("writing_mode", "WritingMode", "enum:WritingMode:def=Vertical")],
  [C("table_header_row", "TableHeaderRow", "vec", "TableHeaderRow"), C("table_row", "TableRow", "vec", "TableRow")])
S("TableHeaderRow", "table", "TableHeaderRow", [], [C("columns", "TableHeaderColumn", "vec", "Text")], unknown="ignore")
S("TableRow", "table", "TableRow", [], [C("columns", "TableColumn", "vec", "TableColumn")], unknown="ignore")
U("TableColumnContents", "table", same(["Part", "Chapter", "Section", "Subsection", "Division", "Article", "Paragraph", "Item"] + SUBS +
   ["FigStruct", "Sentence", "Remarks", "Column"]) + [("String", "#text", None)])
S("TableColumn", "table", "TableColumn",
  [A("border_top", "BorderTop", "enum:LineStyle:deff=Solid"), A("border_bottom", "BorderBottom", "enum:LineStyle:deff=Solid"),
   A("border_left", "BorderLeft", "enum:LineStyle:deff=Solid"), A("border_right", "BorderRight", "enum:LineStyle:deff=Solid"),
   A("rowspan", "rowspan", "ostr"), A("colspan", "colspan", "ostr"), A("align", "Align", "enum:Align:lenient"), A("valign", "Valign", "enum:Position:lenient")],
  [C("contents", None, "uni", "TableColumnContents")])

# ---------------------------------------------------------------- paragraph.rs
S("Paragraph", "paragraph", "Paragraph",
  [A("num", "Num", "num"), A("old_style", "OldStyle", "bool=false"), A("old_num", "OldNum", "bool=false"), A("hide", "Hide", "bool=false")],
  [C("caption", "ParagraphCaption", "opt", "Caption"), C("paragraph_num", "ParagraphNum", "dflt", "Text"),
   C("sentence", "ParagraphSentence", "wrapvec", "Sentence"), C("amend_provision", "AmendProvision", "vec", "AmendProvision"),
   C("class", "Class", "vec", "Class"), C("struct_list", None, "uni", "Struct"), C("children", "Item", "vec", "Item")])
for n in ["Item"] + SUBS:
  nxt = {"Item": "Subitem1", "Subitem10": None}.get(n) if n in ("Item", "Subitem10") else "Subitem%d" % (int(n[7:]) + 1)
  S(n, "paragraph", n, [A("num", "Num", "numlenient"), A("delete", "Delete", "bool=false"), A("hide", "Hide", "bool=false")],
    [C("title", n + "Title", "opt", "Text"), C("sentence", n + "Sentence", "one", "SentenceOrColumnOrTable")]
    + ([C("children", nxt, "vec", nxt)] if nxt else []) + [C("struct_list", None, "uni", "Struct")])

# ---------------------------------------------------------------- article.rs
def unit(n, f, kids, union=True):
  S(n, "article", n, [A("num", "Num", "num"), A("delete", "Delete", "bool=false"), A("hide", "Hide", "bool=false")],
    [C(f, n + "Title", "first", "Text")] + ([C("children", None, "uni", n + "Contents")] if union else [C("children", "Article", "vec", "Article")]))
  if union: U(n + "Contents", "article", same(kids))
unit("Part", "part_title", ["Article", "Chapter"])
unit("Chapter", "chapter_title", ["Article", "Section"])
unit("Section", "section_title", ["Article", "Subsection", "Division"])
unit("Subsection", "subsection_title", ["Article", "Division"])
unit("Division", "division_title", ["Article"], union=False)
S("Article", "article", "Article", [A("num", "Num", "num"), A("delete", "Delete", "bool=false"), A("hide", "Hide", "bool=false")],
  [C("caption", "ArticleCaption", "opt", "Caption", head=True), C("title", "ArticleTitle", "dflt", "Text", head=True),
   C("paragraph", "Paragraph", "vec", "Paragraph"), C("suppl_note", "SupplNote", "opt", "Text")])

# ---------------------------------------------------------------- appdx.rs
TWM = "TextWithWritingMode"
def appdx(n, kids, union, remarks=True):
  S(n, "appdx", n, [A("num", "Num", "ostr")],
    [C("title", n + "Title", "opt", TWM), C("related_article_num", "RelatedArticleNum", "opt", "Text")]
    + ([C("children", None, "uni", n + "Contents")] if union else [C("children", kids[0], "vec", kids[0])])
    + ([C("remarks", "Remarks", "opt", "Remarks")] if remarks else []))
  if union: U(n + "Contents", "appdx", same(kids))
appdx("AppdxTable", ["TableStruct", "Item"], True)
appdx("AppdxNote", ["NoteStruct", "FigStruct", "TableStruct"], True)
appdx("AppdxStyle", ["StyleStruct"], False)
appdx("AppdxFormat", ["FormatStruct"], False)
appdx("AppdxFig", ["FigStruct", "TableStruct"], True, remarks=False)
S("Appdx", "appdx", "Appdx", [], [C("arith_formula_num", "ArithFormulaNum", "opt", "Text"), C("related_article_num", "RelatedArticleNum", "opt", "Text"),
   C("arith_formula", "ArithFormula", "vec", "ArithFormula"), C("remarks", "Remarks", "opt", "Remarks")])

# ---------------------------------------------------------------- suppl_provision.rs
ENUMS["SupplProvisionType"] = ("suppl_provision", [("New", "New"), ("Amend", "Amend")])
U("SupplProvisionChildrenElement", "suppl_provision", same(["Chapter", "Article", "Paragraph", "SupplProvisionAppdxTable", "SupplProvisionAppdxStyle", "SupplProvisionAppdx"]))
S("SupplProvision", "suppl_provision", "SupplProvision",
  [A("suppl_provision_type", "Type", "enum:SupplProvisionType:opt"), A("amend_law_num", "AmendLawNum", "ostr"), A("extract", "Extract", "bool?")],
  [C("label", "SupplProvisionLabel", "dfltomit", "Text"), C("children", None, "uni", "SupplProvisionChildrenElement")])
for n, f, k in [("SupplProvisionAppdxTable", "table_struct", "TableStruct"), ("SupplProvisionAppdxStyle", "style_struct", "StyleStruct")]:
  S(n, "suppl_provision", n, [A("num", "Num", "ostr")],
    [C("title", n + "Title", "one", TWM), C("related_article_num", "RelatedArticleNum", "opt", "Text"), C(f, k, "vec", k)])
S("SupplProvisionAppdx", "suppl_provision", "SupplProvisionAppdx", [A("num", "Num", "ostr")],
  [C("arith_formula_num", "ArithFormulaNum", "opt", "Text"), C("related_article_num", "RelatedArticleNum", "opt", "Text"),
   C("arith_formula", "ArithFormula", "vec", "ArithFormula")])

# ---------------------------------------------------------------- law.rs
ENUMS["Era"] = ("law", [(x, x) for x in ["Meiji", "Taisho", "Showa", "Heisei", "Reiwa"]])
ENUMS["LawType"] = ("law", [(x, x) for x in ["Constitution", "Act", "CabinetOrder", "ImperialOrder", "MinisterialOrdinance", "Rule", "Misc"]])
ENUMS["Lang"] = ("law", [("Ja", "ja"), ("En", "en")])
S("Law", "law", "Law",
  [A("era", "Era", "enum:Era:req"), A("year", "Year", "usize"), A("num", "Num", "num?empty"),
   A("promulgate_month", "PromulgateMonth", "usize?empty"), A("promulgate_day", "PromulgateDay", "usize?empty"),
   A("law_type", "LawType", "enum:LawType:req"), A("lang", "Lang", "enum:Lang:req")],
  [C("law_num", "LawNum", "firsttext", "String"), C("law_body", "LawBody", "second", "LawBody")])
S("LawBody", "law", "LawBody", [A("subject", "Subject", "ostr")],
  [C("law_title", "LawTitle", "opt", "LawTitle"), C("enact_statement", "EnactStatement", "vec", "Text"), C("toc", "TOC", "opt", "TOC"),
   C("preamble", "Preamble", "opt", "Preamble"), C("main_provision", "MainProvision", "one", "MainProvision"),
   C("suppl_provision", "SupplProvision", "vec", "SupplProvision"), C("appdx_table", "AppdxTable", "vec", "AppdxTable"),
   C("appdx_note", "AppdxNote", "vec", "AppdxNote"), C("appdx_style", "AppdxStyle", "vec", "AppdxStyle"), C("appdx", "Appdx", "vec", "Appdx"),
   C("appdx_fig", "AppdxFig", "vec", "AppdxFig"), C("appdx_format", "AppdxFormat", "vec", "AppdxFormat")])
S("LawTitle", "law", "LawTitle", [A("kana", "Kana", "ostr"), A("abbrev", "Abbrev", "ostr"), A("abbrev_kana", "AbbrevKana", "ostr")],
  [C("text", None, "text", "Text")])
S("Preamble", "law", "Preamble", [], [C("children", "Paragraph", "vec", "Paragraph")], unknown="ignore")
U("MainProvisionContents", "law", same(["Part", "Chapter", "Section", "Article", "Paragraph"]))
S("MainProvision", "law", "MainProvision", [A("extract", "Extract", "bool?")], [C("children", None, "uni", "MainProvisionContents")])
_T = lambda n: (n, n, "Text")
U("NewProvision", "law", same(["LawTitle", "Preamble", "TOC", "Part"]) + [_T("PartTitle")] + same(["Chapter"]) + [_T("ChapterTitle")]
  + same(["Section"]) + [_T("SectionTitle")] + same(["Subsection"]) + [_T("SubsectionTitle")] + same(["Division"]) + [_T("DivisionTitle")]
  + same(["Article"]) + [_T("SupplNote")] + same(["Paragraph", "Item"] + SUBS + ["List", "Sentence", "AmendProvision", "AppdxTable", "AppdxNote",
    "AppdxStyle", "Appdx", "AppdxFig", "AppdxFormat", "SupplProvisionAppdxStyle", "SupplProvisionAppdxTable", "SupplProvisionAppdx", "TableStruct",
    "TableRow", "TableColumn", "FigStruct", "NoteStruct", "StyleStruct", "FormatStruct", "Remarks"]) + [("LawBody", "LawBody", "Box<LawBody>")])
S("AmendProvision", "law", "AmendProvision", [],
  [C("sentence", "AmendProvisionSentence", "optwrap1", "Sentence"), C("new_provision", "NewProvision", "unieach", "NewProvision")])

# ---------------------------------------------------------------- table_of_contents.rs
TC = "table_of_contents"
U("TOCMainContents", TC, same(["TOCPart", "TOCChapter", "TOCSection", "TOCArticle"]))
S("TOC", TC, "TOC", [],
  [C("toc_label", "TOCLabel", "opt", "Text"), C("toc_preamble_label", "TOCPreambleLabel", "opt", "Text"),
   C("toc_main_contents", None, "uni", "TOCMainContents"), C("toc_suppl_provision", "TOCSupplProvision", "opt", "TOCSupplProvision"),
   C("toc_appdx_table_label", "TOCAppdxTableLabel", "vec", "Text")])
def toc(n, f, kids, union=None):
  S("TOC" + n, TC, "TOC" + n, [A("num", "Num", "num"), A("delete", "Delete", "bool=false")],
    [C(f, n + "Title", "dflt", "Text"), C("article_range", "ArticleRange", "opt", "Text")]
    + ([C("children", None, "uni", union)] if union else [C("children", kids, "vec", kids)] if kids else []))
toc("Part", "part_title", "TOCChapter")
toc("Chapter", "chapter_title", "TOCSection")
toc("Section", "section_title", None, "TOCSectionContents")
U("TOCSectionContents", TC, same(["TOCSubsection", "TOCDivision"]))
toc("Subsection", "subsection_title", "TOCDivision")
toc("Division", "division_title", None)
S("TOCArticle", TC, "TOCArticle", [A("num", "Num", "num"), A("delete", "Delete", "bool=false")],
  [C("article_title", "ArticleTitle", "dflt", "Text"), C("article_caption", "ArticleCaption", "one", "Caption")])
U("TOCSupplProvisionContents", TC, same(["TOCArticle", "TOCChapter"]))
S("TOCSupplProvision", TC, "TOCSupplProvision", [],
  [C("suppl_provision_label", "SupplProvisionLabel", "dflt", "Text"), C("article_range", "ArticleRange", "opt", "Text"),
   C("children", None, "uni", "TOCSupplProvisionContents")])
