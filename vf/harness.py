"""Search for concrete inputs on which the real library breaks a property (bounded; see oracle.py)."""
import json, os, random, subprocess, threading, queue, time, sys
import oracle
from oracle import *
HERE = os.path.dirname(os.path.abspath(__file__))
RUNNER = os.environ.get("RUNNER_DIR") or os.path.join(HERE, "..", "runner")

def build_runner():
  p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=RUNNER, capture_output=True, text=True)
  if p.returncode != 0: raise Exception("runner does not build: " + p.stderr[-600:])

class Runner:
  """feeds commands one by one; a command that does not answer in `limit` seconds counts as a hang"""
  def __init__(s, limit=20): s.p, s.limit = None, limit
  def start(s):
    s.p = subprocess.Popen([os.path.join(RUNNER, "target", "debug", "runner")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
    s.q = queue.Queue()
    def rd(p, q):
      for l in p.stdout:
        if l.startswith("\x01"): q.put(l[1:])   # the library itself may print
      q.put(None)
    threading.Thread(target=rd, args=(s.p, s.q), daemon=True).start()
  def __call__(s, cmd):
    if s.p is None: s.start()
    try:
      s.p.stdin.write(json.dumps(cmd) + "\n"); s.p.stdin.flush()
      l = s.q.get(timeout=s.limit)
    except queue.Empty:
      s.stop(); return {"r": "hang"}
    except BrokenPipeError: l = None
    if l is None:
      s.stop(); return {"r": "abort"}
    return json.loads(l)
  def stop(s):
    if s.p:
      s.p.kill(); s.p.wait(); s.p = None

def first_diff(a, b, path=""):
  if type(a) != type(b): return path, a, b
  if isinstance(a, dict):
    for k in sorted(set(a) | set(b)):
      if k not in a or k not in b: return path + "/" + k, a.get(k), b.get(k)
      d = first_diff(a[k], b[k], path + "/" + k)
      if d: return d
  elif isinstance(a, list):
    for i in range(max(len(a), len(b))):
      if i >= len(a) or i >= len(b): return "%s[%d]" % (path, i), a[i] if i < len(a) else None, b[i] if i < len(b) else None
      d = first_diff(a[i], b[i], "%s[%d]" % (path, i))
      if d: return d
  elif a != b: return path, a, b
  return None
def short(x, n=160):
  s = json.dumps(x, ensure_ascii=False); return s if len(s) <= n else s[:n] + "…"

def strip_o(t):
  """what xmltree hands over for the serialised tree: whitespace-only text is dropped"""
  return {"n": t["n"], "a": t["a"], "c": [strip_o(c) if "n" in c else c for c in t["c"] if not ("t" in c and not c["t"].strip(" \t\r\n"))]}

class Search:
  """runs cases until `budget` seconds are over; collects violations per kind"""
  def __init__(s, seed, budget):
    s.rng, s.budget, s.t0 = random.Random(seed), budget, time.time()
    s.run = Runner(); s.n = 0; s.distinct = set(); s.samples = []
  def over(s): return time.time() - s.t0 > s.budget
  def note(s, desc, nontrivial=True):
    s.n += 1
    if nontrivial: s.distinct.add(hash(desc))
    if len(s.samples) < 5: s.samples.append(desc[:200])
  # ---- round trip / writing of a value containing the target type
  def write_case(s, law):
    r = s.run({"op": "write", "law": law})
    return r
  def roundtrip(s, targets):
    """-> (violation dict or None)"""
    order = list(targets)
    while not s.over():
      s.rng.shuffle(order)
      for T in order:
        law = clean(Gen(s.rng, T).law())
        r = s.write_case(law)
        s.note("round trip through %s: %s" % (T, short(law)))
        if r["r"] == "badjson": return dict(kind="badjson", why="the library's types no longer accept the value: " + r["e"], law=law)
        if r["r"] != "ok": return dict(kind="roundtrip", why="writing ends with %s %s" % (r["r"], r.get("m", "")), law=law)
        if r["back"] != "same":
          d = first_diff(law, r["law2"]) if r["back"] == "differs" else ("", "read back", r["law2"])
          return dict(kind="roundtrip", why="read(write(law)) != law at %s: written %s, read back %s" % (d[0], short(d[1]), short(d[2])), law=law)
        if not r["file_same"]: return dict(kind="roundtrip", why="write_file and to_xml differ", law=law)
        if s.over(): break
    return None
  def writing(s, targets):
    order = list(targets)
    while not s.over():
      s.rng.shuffle(order)
      for T in order:
        law = clean(Gen(s.rng, T).law())
        r = s.write_case(law)
        s.note("written form of a law with %s: %s" % (T, short(law)))
        if r["r"] == "badjson": return dict(kind="badjson", why="the library's types no longer accept the value: " + r["e"], law=law)
        if r["r"] != "ok": return dict(kind="writing", why="writing ends with %s %s" % (r["r"], r.get("m", "")), law=law)
        exp = strip_o(merge(enc("Law", law)))
        d = first_diff(exp, r["tree"])
        if d: return dict(kind="writing", why="written XML differs from the format at %s: expected %s, written %s" % (d[0], short(d[1]), short(d[2])), law=law)
        if s.over(): break
    return None
  def reading(s, targets, only_panic=False, only_accept=False):
    order = list(targets)
    while not s.over():
      s.rng.shuffle(order)
      for T in order:
        law = clean(Gen(s.rng, T).law())
        t = merge(enc("Law", law))
        if s.rng.random() < .85: t = mutate(s.rng, t)
        r = s.run({"op": "read", "xml": to_xml(t)})
        s.note("reading a document around %s: %s" % (T, short(t)))
        if r["r"] in ("panic", "hang", "abort"): 
          if only_panic: return dict(kind="panic", why="reading ends with %s %s" % (r["r"], r.get("m", "")), xml=to_xml(t))
          return dict(kind="reading", why="reading ends with %s %s" % (r["r"], r.get("m", "")), xml=to_xml(t))
        if only_panic: continue
        try: exp = dec("Law", strip_o(t))
        except Fail as f: exp = None; why = str(f)
        if exp is None and r["r"] == "ok": return dict(kind="reading", why="accepted, although the format rejects it (%s)" % why, xml=to_xml(t))
        if exp is not None and r["r"] == "err": return dict(kind="reading", why="rejected, although the document follows the format", xml=to_xml(t), expected=exp)
        if exp is not None:
          d = first_diff(exp, r["law"])
          if d: return dict(kind="reading", why="read value differs at %s: expected %s, got %s" % (d[0], short(d[1]), short(d[2])), xml=to_xml(t))
        if s.over(): break
    return None
  def utils(s, targets, part):
    import uoracle
    while not s.over():
      c = dict(op="utils", part=part, **uoracle.case(s.rng))
      r = s.run(c); s.note("%s of %s" % (part, short(c)))
      if r["r"] == "badjson": return dict(kind="badjson", why="the library's types no longer accept the value: " + r["e"], case=c)
      if r["r"] != "ok": return dict(kind="utils", why="ends with %s" % short(r), case=c)
      e = uoracle.expect(c, r["v"])
      for k in e:
        d = first_diff(e[k], r["v"].get(k))
        if d: return dict(kind="utils", why="%s differs at %s: expected %s, got %s" % (k, d[0], short(d[1]), short(d[2])), case=c)
    return None
  def numbers(s, targets):
    rng = s.rng
    while not s.over():
      pick = lambda: rng.choice([0, 1, 2, 9, 10, 11, 99, 100, rng.randrange(1000), U64 - 1] + oracle.EXTRA_NUMS)
      n = {"base_number": pick(), "eda_numbers": [pick() for _ in range(rng.choice([0, 0, 1, 2, 5]))], "range_end_numbers": [pick() for _ in range(rng.choice([0, 0, 1, 2, 4]))]}
      r = s.run({"op": "num_str", "v": n}); s.note("number " + short(n))
      if r["r"] != "ok": return dict(kind="numbers", why="rendering ends with %s" % r, number=n)
      if not r["back"]: return dict(kind="numbers", why="rendered as %r, which does not read back as the same number" % r["s"], number=n)
      if r["s"] != show_num(n): return dict(kind="numbers", why="rendered as %r instead of %r" % (r["s"], show_num(n)), number=n)
      t = r["s"] if rng.random() < .4 else ""
      for _ in range(rng.choice([0, 1, 1, 2, 6])):
        i = rng.randrange(len(t) + 1)
        c = rng.choice(list("0123456789_:+- 　０x") + ["18446744073709551615", "18446744073709551616", "_", ":", ""] + oracle.EXTRA_WORDS)
        t = t[:i] + c + t[i + rng.choice([0, 0, 1]):]
      r = s.run({"op": "from_num_str", "s": t}); s.note("number text " + t)
      e = parse_num(t)
      if r["r"] not in ("ok", "err"): return dict(kind="numbers", why="reading %r ends with %s" % (t, r), text=t)
      if (r["r"] == "ok") != (e is not None) or e is not None and r["v"] != e: return dict(kind="numbers", why="%r reads as %s instead of %s" % (t, r.get("v", "an error"), e or "an error"), text=t)
    return None
  def texts(s, targets, render=True, parse=True, units=None):
    import noracle as N
    rng = s.rng
    us = units or [u for u, _ in N.UNITS] + ["paragraph"] + N.PATTERNS
    sweep = [dict(base_number=b, eda_numbers=[], range_end_numbers=[]) for b in range(1, 48)]
    todo = [(n, u) for n in sweep for u in us]
    rng.shuffle(todo)
    while not s.over():
      if todo: n, u = todo.pop()
      else: n, u = N.case(rng, oracle.EXTRA_NUMS), rng.choice(us)
      item = u in N.PATTERNS
      e = N.item_text(n, u) if item else N.paragraph_text(n) if u == "paragraph" else N.articles_text(n, dict(N.UNITS)[u])
      if e is not None:
        c = dict(op="text", v=n, unit=u)
        r = s.run(c); s.note("%s text of %s" % (u, short(n)))
        if r["r"] == "badjson": return dict(kind="badjson", why="the library's types no longer accept the value: " + r["e"], case=c)
        if r["r"] != "ok": return dict(kind="texts", why="the %s text ends with %s" % (u, short(r)), case=c)
        t, b = r["v"]
        if render and t != e: return dict(kind="texts", why="the %s text is %r instead of %r" % (u, t, e), case=c)
        if parse and t == e and (not item or N.readable(n, u)):
          x = dict(n, str=t, pattern=u) if item else n
          if b != x: return dict(kind="texts", why="%r reads as %s instead of %s" % (t, b and json.dumps(b, ensure_ascii=False), json.dumps(x, ensure_ascii=False)), case=c)
      if parse:
        t = N.noise(rng, e or "", oracle.EXTRA_WORDS)
        r = s.run(dict(op="parse_text", s=t)); s.note("reading number text " + t)
        if r["r"] != "ok": return dict(kind="texts", why="reading %r ends with %s" % (t, short(r)), text=t)
    return None
  def trees(s, targets):
    import toracle as O
    while not s.over():
      ls = O.lines(s.rng, oracle.EXTRA_WORDS)
      t = s.rng.choice(["\n", "\n", "\r\n"]).join(O.text_of(l, s.rng) for l in ls)
      r = s.run(dict(op="law_text", text=t, title="題")); s.note("a law from the text " + short(t))
      if r["r"] != "ok": return dict(kind="trees", why="building a law ends with %s" % short(r), text=t)
      d = O.differs(ls, r["law"])
      if d: return dict(kind="trees", why="the law built from the text differs at %s: expected %s, got %s" % (d[0], short(d[1]), short(d[2])), text=t)
    return None
  def done(s): s.run.stop()

def clean(law):
  """values that a serialised document can carry: no blank or adjacent text nodes"""
  return law

if __name__ == "__main__":
  "RUNNER_DIR" in os.environ or build_runner()
  kind, budget = sys.argv[1], float(sys.argv[2])
  T = sys.argv[3:] or list(TYPES) + ["Ruby", "Sup", "Sub"]
  s = Search(int(os.environ.get("VERIF_SEED", "1")), budget)
  v = getattr(s, kind)(T)
  s.done()
  print(s.n, len(s.distinct), json.dumps(v, ensure_ascii=False)[:1500] if v else None)
