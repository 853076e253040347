"""which property owns which type / function"""
from schema import TYPES, UNIONS, ENUMS
AREA_TYPES = {
  "C01": ["Law", "LawBody", "LawTitle", "Preamble", "MainProvision"],
  "C02": ["Part", "Chapter", "Section", "Subsection", "Division", "Article"],
  "C03": ["Paragraph", "Item"] + ["Subitem%d" % i for i in range(1, 11)] + ["Class", "Caption", "Column", "List", "Sublist1", "Sublist2", "Sublist3", "SentenceOrColumnOrTable"],
  "C04": ["Text", "TextElement", "Ruby", "Sup", "Sub", "Line", "Sentence", "Contents", "ArithFormula", "QuoteStruct", "TextWithWritingMode", "Fig", "Style", "Note", "Format"],
  "C05": ["Table", "TableHeaderRow", "TableRow", "TableColumn", "Remarks", "RemarksLabel", "TableStruct", "FigStruct", "StyleStruct", "FormatStruct", "NoteStruct", "Struct"],
  "C06": ["AppdxTable", "AppdxNote", "AppdxStyle", "AppdxFormat", "AppdxFig", "Appdx", "SupplProvision", "SupplProvisionAppdxTable", "SupplProvisionAppdxStyle", "SupplProvisionAppdx", "AmendProvision"],
}
AREA_TYPES["C07"] = [t for t in TYPES if TYPES[t]["mod"] == "table_of_contents"]
ENUM_AREA = {"LineStyle": "C04", "Align": "C05", "Position": "C05", "WritingMode": "C04", "SentenceFunction": "C04", "SentenceIndent": "C04",
  "SupplProvisionType": "C06", "Era": "C01", "LawType": "C01", "Lang": "C01"}
OWNER = {}
for a, ts in AREA_TYPES.items():
  for t in ts: OWNER[t] = a
for u in UNIONS:
  if u in OWNER: continue
  us = {OWNER[t] for t in TYPES for g in TYPES[t]["body"] if g.ty == u}
  OWNER[u] = sorted(us)[0]
OWNER.update(ENUM_AREA)
missing = [t for t in TYPES if t not in OWNER]
assert not missing, missing
RT = ("C01", "C02", "C03", "C04", "C05", "C06", "C07")
def owner_of(key):
  """area property of a function key `Type::fn`; None: shared helper"""
  return OWNER.get(key.split("::")[0]) if "::" in key else None
def is_reader(key):
  n = key.split("::")[-1]
  return n in ("parser", "from_children", "from_element", "from_attribute", "from_num_str", "from_str") or n.startswith("get_attribute") or key.startswith("Error::")
def is_writer(key):
  n = key.split("::")[-1]
  return n.startswith("to_") or n == "num_str"
def reachable(ts):
  return ts
