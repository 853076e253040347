"""How each property is decided."""
import re, time, json, random
import areas, execgen, build as B
from schema import TYPES, UNIONS, ENUMS
from gen import *

ALLT = list(TYPES) + ["Ruby", "Sup", "Sub"]

def crate_builder(vx, mode, lemmas=None):
  def go(external, var):
    execgen.HINTS = var.get("hints", True)
    c = B.build(vx, mode, external=external, lemmas=lemmas)
    t = B.assemble(c, close=not var["open"])
    return t, dict(c.lost), sorted(k for k in c.emitted if k not in c.external)
  return go

def mined(vx, keys):
  """literals of the failing functions: fed to the search"""
  w, n = [], []
  for f in vx["fns"]:
    if f["key"] in keys:
      w += re.findall(r'"((?:[^"\\]|\\.){1,30})"', f["body"])
      n += [int(x) for x in re.findall(r"\b(\d{1,19})(?:u\w+|i\w+)?\b", f["body"])]
  return sorted(set(w)), sorted(set(n))

def search(M, kinds, targets, seed, budget, words=(), nums=()):
  """first concrete violation among `kinds` on the real library"""
  import harness, oracle
  if not M.runner_join():
    M.EV.cov["notes"].append("runner: " + M._RUNNER.get("err", ""))
    return None
  oracle.EXTRA_WORDS[:] = list(words); oracle.EXTRA_NUMS[:] = [n for n in nums if n < 2 ** 64]
  res = None
  for k, kw in kinds:
    s = harness.Search(seed, budget / len(kinds))
    res = getattr(s, k)(targets, **kw)
    s.done()
    b = M.EV.cov["bounded"].setdefault(k, dict(evaluations=0, distinct_nontrivial=0, samples=[]))
    b["evaluations"] += s.n; b["distinct_nontrivial"] += len(s.distinct); b["samples"] += s.samples[:3]
    if res: break
  return res

def decide_xml(pid, tier, seed, M, vx):
  mode = "safe" if pid == "C10" else "full"
  EV = M.EV
  lem = None
  if pid in areas.RT:
    import lemma
    lem = lemma
  def relevant(k):
    if "/" in k:     # lemma or spec item in module
      mod = k.split("/")[0]
      T = re.sub(r"^[xwl]?t_(e_)?", "", mod)
      item = k.split("/")[1].replace("item:", "")
      if mod == "lits" or not mod: return True
      if pid in areas.RT: return areas.OWNER.get(T, pid) == pid
      if item.startswith(("lem_", "lv_", "lx_", "lw_", "lrt_")): return False
      return True
    o = areas.owner_of(k)
    if pid in areas.RT: return o == pid or o is None
    if pid == "C08": return areas.is_reader(k)
    if pid == "C09": return areas.is_writer(k)
    if pid == "C10": return areas.is_reader(k)
  kinds, targets = kinds_of(pid)
  fails, lost, r, text, keys = M.verify(crate_builder(vx, mode, lem), pid.lower(), relevant=relevant)
  lost = {k: v for k, v in lost.items() if relevant(k)}
  under = [k for k in keys if relevant(k) and k not in lost]
  EV.cov.update(obligations=r.verified + r.errors, discharged=r.verified, checker_cmd=r.cmd + "   # Verus 0.2026.09.13, Z3 back end; generated from /repo by vf/check.py",
    trusted_base=M.trusted(text), functions_under_contract=under, lost=["%s: %s" % kv for kv in sorted(lost.items())], solver_s=round(r.wall, 1))
  EV.assumptions = ASSUMPTIONS
  conclude(pid, tier, seed, M, vx, fails, lost, r, kinds, targets)

def decide_num(pid, tier, seed, M, vx):
  EV = M.EV
  def go(external, var):
    c = B.build_num(vx, external)
    return B.assemble(c, close=not var["open"]), dict(c.lost), sorted(k for k in c.emitted if k not in c.external)
  fails, lost, r, text, keys = M.verify(go, pid.lower())
  record(EV, M, r, text, keys, lost)
  conclude(pid, tier, seed, M, vx, fails, lost, r, *kinds_of(pid))

UTIL = {"C14": "arts", "C15": "toc", "C16": "text"}
def decide_util(pid, tier, seed, M, vx):
  import ufn
  EV = M.EV
  def go(external, var):
    c = ufn.build_util(pid, vx, external, var.get("iso"))
    return B.assemble(c, close=False), dict(c.lost), sorted(k for k in c.emitted if k not in c.external)
  fails, lost, r, text, keys = M.verify(go, pid.lower(), rlimit=30, alts=[dict(iso="all"), dict(iso="none")])
  record(EV, M, r, text, keys, lost)
  conclude(pid, tier, seed, M, vx, fails, lost, r, *kinds_of(pid))

TEXT = ("C12", "C13")
def decide_text(pid, tier, seed, M, vx):
  import nparse
  EV = M.EV
  def go(external, var):
    c = nparse.build_txt(pid, vx, external, assoc=var.get("assoc"))
    return B.assemble(c, close=False), dict(c.lost), sorted(k for k in c.emitted if k not in c.external)
  fails, lost, r, text, keys = M.verify(go, pid.lower(), rlimit=30, alts=[dict(assoc=True)])
  record(EV, M, r, text, keys, lost)
  EV.assumptions = TEXT_ASSUMPTIONS + ASSUMPTIONS
  stand_ins(M, vx, seed)
  conclude(pid, tier, seed, M, vx, fails, lost, r, *kinds_of(pid))

def decide_tree(pid, tier, seed, M, vx):
  """C17: proved, with a search in addition for what the contracts leave to other code"""
  import tfn
  EV = M.EV
  def go(external, var):
    c = tfn.build_tree(vx, external)
    return B.assemble(c, close=False), dict(c.lost), sorted(k for k in c.emitted if k not in c.external)
  fails, lost, r, text, keys = M.verify(go, pid.lower(), rlimit=40, alts=[dict()])
  record(EV, M, r, text, keys, lost)
  EV.assumptions = TREE_ASSUMPTIONS + ASSUMPTIONS
  line_stand_ins(M, seed)
  if fails is not None and not fails and not lost:
    kinds, targets = kinds_of(pid)
    v = search(M, kinds, targets, seed, 45 if tier == "quick" else 200, *mined(vx, {"parse_line_contents", "split_number", "parse_text"}))
    EV.cov["notes"].append("bounded, not proved: number texts as first words of lines (through C12 and C13's readers) and lib.rs parse_text around parse_body, searched with random texts")
    if v: M.violation(M.replay_file(v["kind"], v), True)
    if tier == "quick": M.finish()
  conclude(pid, tier, seed, M, vx, fails, lost, r, *kinds_of(pid))

def line_stand_ins(M, seed):
  """the patterns that tell lines apart: what the contracts assume about them, compared with the regex crate"""
  import harness, tfn
  if not M.runner_join(): return M.EV.cov["notes"].append("runner: " + M._RUNNER.get("err", ""))
  run = harness.Runner(60); rng = random.Random(seed); n = hits = 0
  for k, p in tfn.RX.items():
    ts = tfn.rx_texts(rng, 3000)
    for t, c in zip(ts, run(dict(op="regex", pat=p, texts=ts))["v"]):
      e = tfn.rx_expect(k, t)
      if e == 0: continue
      n += 1; hits += e is not None
      if c != e: raise Exception("the assumption about the pattern %s does not hold on %r: %s" % (p, t, c))
  run.stop()
  M.EV.cov["bounded"]["assumptions about crates"] = dict(evaluations=n, distinct_nontrivial=hits, samples=["%d texts on 3 patterns against the regex crate" % n])

TREE_ASSUMPTIONS = [
 "the three patterns of parse_line_contents and split_number find in a text what vf/tfn.py states (capt, suppl, first), and any other pattern there is out of reach; compared with the regex crate on random texts on every run",
 "parse_article_number and parse_item_number read some number from a text, always the same (their own contracts: C12, C13)",
 "str::lines yields a finite sequence of lines, str::trim some text (both left open)",
]

def stand_ins(M, vx, seed):
  """what is assumed about the crates kansuji, roman and regex, compared with the crates themselves"""
  import harness, nparse, regen, noracle as N
  if not M.runner_join(): return M.EV.cov["notes"].append("runner: " + M._RUNNER.get("err", ""))
  run = harness.Runner(60); rng = random.Random(seed); bad = []
  r = run(dict(op="crates"))
  bad += ["kansuji %d" % n for n, (t, b) in enumerate(r["kansuji"], 1) if t != N.kansuji(n) or b != n]
  bad += ["roman %d" % n for n, (t, b) in enumerate(r["roman"], 1) if t != N.roman(n).upper() or b != n]
  try: pats = list(nparse.regexes(vx, nparse.KEYS)[0].values())
  except Exception: pats = []
  n = agreed = 0
  for R in pats:
    ts = regen.texts(R.tree, rng, 1500)
    v = run(dict(op="regex", pat=R.pat, texts=ts))["v"]
    for t, c in zip(ts, v):
      n += 1
      e = regen.run(R.tree, t)
      if e is not None:
        agreed += 1
        if c != {g: e.get(g) for g in R.gs}: bad.append("the pattern %s on %r" % (R.K, t))
      if c is not None and not regen.part_holds(R, t, c): bad.append("the pattern %s on %r: groups" % (R.K, t))
  run.stop()
  M.EV.cov["bounded"]["assumptions about crates"] = dict(evaluations=len(r["kansuji"]) + len(r["roman"]) + n, distinct_nontrivial=len(r["kansuji"]) + len(r["roman"]) + agreed,
    samples=["kansuji 1..9999 and roman 1..399, all, both ways", "%d texts on %d patterns: committed run against the regex crate" % (n, len(pats))])
  if bad: raise Exception("an assumption about a dependency does not hold: %s" % bad[:3])

TEXT_ASSUMPTIONS = [
 "the crates kansuji (1..9999) and roman (1..399) convert as vf/nfn.py states and back; compared with the crates exhaustively over these ranges on every run",
 "a pattern run that commits to every choice and succeeds is what the regex crate reports (vf/regen.py: justified per pattern by disjoint first sets, else the function counts as lost; compared with the crate on random texts on every run); a captured group has the characters of its class",
 "str::split, trim, chars, push, parse::<usize> and to_string behave as specified in vf/prelude.rs, vf/nfn.py and vf/nparse.py; String length is below 2^64",
]

def record(EV, M, r, text, keys, lost):
  EV.cov.update(obligations=r.verified + r.errors, discharged=r.verified, checker_cmd=r.cmd + "   # Verus 0.2026.09.13, Z3 back end; generated from /repo by vf/check.py",
    trusted_base=M.trusted(text), functions_under_contract=[k for k in keys if k not in lost], lost=["%s: %s" % kv for kv in sorted(lost.items())], solver_s=round(r.wall, 1))
  EV.assumptions = ASSUMPTIONS

def own_targets(keys, targets):
  ts = []
  for k in keys:
    T = re.sub(r"^[xwl]?t_(e_)?", "", k.split("/")[0]) if "/" in k else k.split("::")[0]
    if T in ENUMS: ts += [X for X in TYPES if any((":%s:" % T) in a.kind for a in TYPES[X]["attrs"])]
    if T in UNIONS: ts += [X for X in TYPES if any(g.ty == T for g in TYPES[X]["body"])]
    if T in TYPES or T in ("Ruby", "Sup", "Sub", "Text"): ts.append(T)
    if T == "SentenceOrColumnOrTable": ts += ["Item", "Class", "Subitem3"]
  return ts or targets

def kinds_of(pid):
  """the searches that look for inputs breaking the property, and the types they concentrate on"""
  if pid == "C17": return [("trees", {})], ["LawBody"]
  if pid in UTIL: return [("utils", dict(part=UTIL[pid]))], ["MainProvision"]
  if pid == "C11": return [("numbers", {})], ["ArticleNumber"]
  if pid in TEXT:
    import noracle
    return [("texts", dict(units=noracle.PATTERNS if pid == "C13" else [u for u, _ in noracle.UNITS] + ["paragraph"]))], ["ArticleNumber"]
  kinds = {"C08": [("reading", {})], "C09": [("writing", {})], "C10": [("reading", dict(only_panic=True))]}.get(pid, [("roundtrip", {})])
  return kinds, [t for t in areas.AREA_TYPES.get(pid, ALLT) if t in TYPES or t in ("Ruby", "Sup", "Sub", "Text")]

def explore(pid, seed, M, budget=None):
  """bounded search only"""
  EV = M.EV
  EV.level = "exploration"
  kinds, targets = kinds_of(pid)
  if not M.runner_join(): raise Exception("the runner does not build: " + M._RUNNER.get("err", ""))
  v = search(M, kinds, targets, seed, budget or min(300, M.left() - 30))
  EV.cov.update(evaluations=sum(b["evaluations"] for b in EV.cov["bounded"].values()), distinct_nontrivial=sum(b["distinct_nontrivial"] for b in EV.cov["bounded"].values()),
    rule="random values, documents or texts against the oracles vf/*oracle.py", samples=[x for b in EV.cov["bounded"].values() for x in b["samples"]][:5])
  if v: M.violation(M.replay_file(v["kind"], v), True)
  M.finish()

def conclude(pid, tier, seed, M, vx, fails, lost, r, kinds, targets):
  EV = M.EV
  thorough = tier != "quick"
  if fails is None:   # nothing could be verified
    EV.cov["notes"].append("the verifier's front end rejected the generated crate: " + r.out[-600:])
    explore(pid, seed, M)
  if fails:
    M.log("failed obligations:", {k: [x["msg"][:60] for x in v] for k, v in fails.items()})
    w, n = mined(vx, set(fails))
    ts = own_targets(fails, targets)
    v = search(M, kinds, ts, seed, min(150, max(20, M.left() - 200)), w, n)
    if not v and set(ts) != set(targets): v = search(M, kinds, targets, seed + 1, min(60, max(10, M.left() - 100)), w, n)
    ob = {k: [x["text"] for x in v2] for k, v2 in fails.items()}
    if v:
      M.violation(M.replay_file(v["kind"], dict(v, failed_obligations=sorted(fails), verifier_output=ob)), True)
    # is the change visible, but only to another property?
    if M.left() > 60 and pid != "C10" and pid in areas.RT + ("C08", "C09"):
      other = [("reading", {}), ("writing", {})]
      v = search(M, other, ts, seed, min(80, M.left() - 30), w, n)
      if v and not concerns(pid, v):
        EV.cov["notes"].append("obligations %s fail; the code's behaviour did change (%s) but not in a way this property speaks about, on everything explored: bounded, not proved" % (sorted(fails), v["why"]))
        EV.level = "exploration"
        EV.cov.update(evaluations=sum(b["evaluations"] for b in EV.cov["bounded"].values()), distinct_nontrivial=sum(b["distinct_nontrivial"] for b in EV.cov["bounded"].values()),
          rule="random values/documents of the affected types against the schema oracle", samples=[x for b in EV.cov["bounded"].values() for x in b["samples"]][:5])
        M.finish()
    M.violation(M.replay_file("obligation", dict(why="the verifier does not accept these obligations", failed_obligations=sorted(fails), verifier_output=ob)), False)
  if lost:
    M.log("outside the verifier's reach, checked by bounded search instead:", sorted(lost))
    v = search(M, kinds, own_targets(lost, targets), seed, min(120, max(20, M.left() - 60)), *mined(vx, set(lost)))
    EV.cov["notes"].append("bounded stand-in for: " + ", ".join(sorted(lost)))
    if v: M.violation(M.replay_file(v["kind"], v), True)
  elif thorough:
    v = search(M, kinds, targets, seed, 240)
    if v: M.violation(M.replay_file(v["kind"], v), True)
  M.finish()

def concerns(pid, v):
  if pid == "C08": return v["kind"] in ("reading", "panic", "badjson")
  if pid == "C09": return v["kind"] in ("writing", "badjson")
  return v["kind"] in ("roundtrip", "badjson")

ASSUMPTIONS = [
 "xmltree::Element is a record (name, attributes map, ordered children); String/HashMap/Vec operations used by the code behave as specified in vf/prelude.rs (external_body stand-ins, scanned into trusted_base)",
 "str::parse for usize/bool and to_string for usize are inverse where defined (axioms in vf/prelude.rs)",
 "#[derive(Clone)] yields an equal value; #[derive(PartialEq)] is structural equality",
 "extraction (vx) drops: tracing/doc attributes, visibility, the construction of error payload strings; `for`, `?`, closures passed to map/ok_or/unwrap_or and iterator chains are rewritten to equivalent loops and matches",
 "text serialisation (xml-rs emitter/parser) is outside: the contracts speak about element trees; recursion depth (stack) and memory are unbounded in the model",
]

def decide(pid, tier, seed, M):
  if pid in UTIL: import ufn   # the functions under contract are not to be inlined
  if pid in TEXT: import nparse
  if pid == "C17": import tfn
  vx = B.extract()
  if pid in UTIL: return decide_util(pid, tier, seed, M, vx)
  if pid in areas.RT + ("C08", "C09", "C10"): return decide_xml(pid, tier, seed, M, vx)
  if pid in TEXT: return decide_text(pid, tier, seed, M, vx)
  if pid == "C17": return decide_tree(pid, tier, seed, M, vx)
  if pid == "C11": return decide_num(pid, tier, seed, M, vx)
  raise Exception("no decision procedure for " + pid)
