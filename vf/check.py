#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decides one property on /repo's current tree."""
import sys, os, json, time, re, subprocess, traceback, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
import areas
from schema import TYPES

PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
BUILD = os.path.join(ROOT, "build")
REPLAY = os.path.join(ROOT, "evidence", "replay")
T0 = time.time()
LIMIT = 840 if TIER == "quick" else 3000

def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)
def left(): return LIMIT - (time.time() - T0)

def known_findings():
  p = os.path.join(ROOT, "known-findings.txt")
  out = []
  if os.path.exists(p):
    for l in open(p):
      m = re.match(r"KNOWN-FINDING: property=(\S+) \[(\S+)\] (.*)", l.strip())
      if m: out.append((m.group(1), m.group(2), m.group(3)))
  return out

class Evidence:
  def __init__(s):
    s.cov = dict(obligations=0, discharged=0, checker_cmd="", trusted_base=[], functions_under_contract=[], lost=[], bounded={}, solver_s=0.0, notes=[])
    s.assumptions = []
    s.level = "proof"
    s.violations = []
  def write(s):
    d = dict(property=PID, tier=TIER, seed=SEED, level=s.level, coverage=s.cov, assumptions=s.assumptions, wall_s=round(time.time() - T0, 1), violations=s.violations)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(ROOT, "evidence", PID + ".json"), "w"), indent=1, ensure_ascii=False)

EV = Evidence()

def build_vx():
  p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "vx"), capture_output=True, text=True)
  if p.returncode != 0: raise Exception("vx does not build: " + p.stderr[-500:])

_RUNNER = {}
def runner_ready():
  """start building the runner in the background; join() before use"""
  if "t" not in _RUNNER:
    import threading, harness
    def go():
      try: harness.build_runner(); _RUNNER["ok"] = True
      except Exception as e: _RUNNER["err"] = str(e)
    t = threading.Thread(target=go); t.start(); _RUNNER["t"] = t
  return _RUNNER
def runner_join():
  runner_ready()["t"].join()
  return "ok" in _RUNNER

def trusted(text):
  """everything the generated crate assumes"""
  out = []
  for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?(?:proof )?fn (\w+)|#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?proof fn (\w+)|\bassume\(|assume_specification[^\[]*\[([^\]]*)\]|pub uninterp spec fn (\w+)", text):
    out.append(next((g for g in m.groups() if g), "assume"))
  c = {}
  for o in out: c[o] = c.get(o, 0) + 1
  return ["%s%s" % (k, " (x%d)" % v if v > 1 else "") for k, v in sorted(c.items())]

def verify(builder, name, rlimit=60, relevant=lambda k: True, alts=(dict(hints=False),)):
  """builder(external, variant) -> (text, lost dict, fn keys).  Returns (failures, lost, result)"""
  import verus
  external, is_open, tries = set(), False, 0
  lost = {}
  while True:
    tries += 1
    text, l2, keys = builder(external, dict(open=is_open))
    lost.update(l2)
    r = verus.run(text, os.path.join(BUILD, name + ".rs"), rlimit=rlimit, timeout=max(60, min(600, left() - 120)))
    log("verus %s: %s verified, %s errors, %.0fs%s" % (name, r.verified, r.errors, r.wall, "" if r.frontend_ok else " (front end)"))
    if r.frontend_ok or r.timeout: break
    bad = [k for k in r.fail if "/" not in k and k not in external]
    priv = "private" in r.out and not is_open
    if tries > 6: break
    if priv: is_open = True; continue
    if bad:
      for k in bad: lost[k] = "outside the verifier's reach: " + r.fail[k][0]["msg"]
      external |= set(bad)
    elif not is_open: is_open = True
    else: break
  if not r.frontend_ok:
    return None, lost, r, text, keys
  fails = {k: v for k, v in r.fail.items() if relevant(k)}
  # further opinions on failures: without the optional cut hints / with other loop encodings, larger budget
  for i, alt in enumerate(alts):
    if not fails or left() < 250: break
    text2, _, _ = builder(external, dict(open=is_open, **alt))
    mods = module_names(text2, fails)
    r2 = verus.run(text2, os.path.join(BUILD, "%s_%d.rs" % (name, i + 2)), rlimit=rlimit * 2, modules=mods, root=True, timeout=max(60, min(240, left() - 200)))
    log("further run %s on %s: %s verified, %s errors, %.0fs" % (alt, ",".join(sorted(fails)), r2.verified, r2.errors, r2.wall))
    if r2.frontend_ok and not r2.timeout: fails = {k: v for k, v in fails.items() if k in r2.fail}
  return fails, lost, r, text, keys

def module_names(text, fails):
  mods, stack = set(), []
  top = None
  for l in text.split("\n"):
    m = re.match(r"pub mod (\w+) \{ (.*)", l)
    if m:
      n = m.group(1)
      if l.startswith("pub mod t_") or n == "lits": top = n; cur = n
      else: cur = "%s::%s" % (top, n)
    m = re.match(r"// FN (\S+)", l)
    if m and m.group(1) in fails: mods.add(cur)
  for k in fails:
    if "/" in k:
      n = k.split("/")[0]
      mods.add(n if n.startswith("t_") or n == "lits" else "%s::%s" % (n[1:], n))
  return sorted(mods)

def replay_file(kind, data):
  os.makedirs(REPLAY, exist_ok=True)
  p = os.path.join(REPLAY, "%s.json" % PID)
  json.dump({**data, "property": PID, "kind": kind}, open(p, "w"), indent=1, ensure_ascii=False)
  return p

def violation(path, found):
  EV.violations.append(dict(replay=path, failing_input=found))
  EV.write()
  print("VIOLATION property=%s replay=%s%s" % (PID, path, "" if found else " no-failing-input-found"), flush=True)
  sys.exit(1)

def finish():
  for p, tag, what in known_findings():
    if p == PID: print("KNOWN-FINDING: property=%s %s" % (p, what))
  EV.write()
  log("property %s: held on everything explored" % PID)
  sys.exit(0)

def main():
  os.makedirs(BUILD, exist_ok=True)
  import props
  runner_ready()
  build_vx()
  props.decide(PID, TIER, SEED, sys.modules["__main__"])

if __name__ == "__main__":
  try: main()
  except SystemExit: raise
  except Exception:
    traceback.print_exc()
    EV.cov["notes"].append("no contracts could be generated, bounded search instead: " + traceback.format_exc()[-500:])
    try: import props; props.explore(PID, SEED, sys.modules["__main__"])
    except SystemExit: raise
    except Exception:
      traceback.print_exc()
      EV.cov["notes"].append("internal error: " + traceback.format_exc()[-500:])
      EV.write()
      sys.exit(3)
