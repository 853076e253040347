"""Regular expressions of the code as specification functions, generated from the pattern text.

For a pattern K, `rK(s)` runs the pattern over s committing to every choice once it succeeds
locally.  `check` (below) establishes from the pattern's first sets that a choice passed over because its
committed run failed could not have matched there, or that the rest could not.  Then a committed
run that succeeds is the first successful path in the priority order of a backtracking (leftmost-first)
matcher, so it is exactly what the regex crate reports; when it fails nothing is said about the
crate's answer except `partK`, which every match satisfies."""
import re, warnings
import re._parser as rp
from gen import *
class Unsupported(Exception): pass

def parse(pat):
  with warnings.catch_warnings():
    warnings.simplefilter("error")
    t = rp.parse(pat.replace("(?<", "(?P<"))
  names = {v: k for k, v in t.state.groupdict.items()}
  return norm(list(t), names)

def norm(items, names):
  out = []
  for op, av in items:
    op = str(op)
    if op == "LITERAL": out.append(("cls", ((av, av),)))
    elif op == "IN":
      rs = []
      for o, a in av:
        if str(o) == "LITERAL": rs.append((a, a))
        elif str(o) == "RANGE": rs.append(tuple(a))
        else: raise Unsupported(str(o))
      out.append(("cls", tuple(rs)))
    elif op == "BRANCH": out.append(("alt", [norm(x, names) for x in av[1]]))
    elif op == "MAX_REPEAT":
      lo, hi, sub = av
      n = norm(list(sub), names)
      if (lo, hi) == (0, 1): out.append(("opt", n))
      elif lo == 0 and str(hi) == "MAXREPEAT": out.append(("star", n))
      elif lo == 1 and str(hi) == "MAXREPEAT": out.append(("plus", n))
      else: raise Unsupported("{%s,%s}" % (lo, hi))
    elif op == "SUBPATTERN":
      g, fa, fd, sub = av
      if fa or fd: raise Unsupported("flags")
      n = norm(list(sub), names)
      out.append(("grp", names[g], n) if g in names else n)
    elif op == "AT" and str(av) == "AT_BEGINNING": out.append(("bol",))
    elif op == "AT" and str(av) == "AT_END": out.append(("eol",))
    else: raise Unsupported(op)
  flat = []
  for x in out: flat += x[1] if x[0] == "seq" else [x]
  return ("seq", flat) if len(flat) != 1 else flat[0]

def groups(n):
  if n[0] == "grp": return [n[1]] + groups(n[2])
  if n[0] in ("seq", "alt"): return [g for x in n[1] for g in groups(x)]
  if n[0] in ("opt", "star", "plus"): return groups(n[1])
  return []

def chars(n): return {c for a, b in n[1] for c in range(a, b + 1)}
def nullable(n):
  k = n[0]
  if k in ("opt", "star"): return True
  if k in ("plus",): return nullable(n[1])
  if k == "grp": return nullable(n[2])
  if k == "seq": return all(map(nullable, n[1]))
  if k == "alt": return any(map(nullable, n[1]))
  return k == "bol"
def first(n):
  k = n[0]
  if k == "cls": return chars(n)
  if k in ("opt", "star", "plus"): return first(n[1])
  if k == "grp": return first(n[2])
  if k == "alt": return set().union(*map(first, n[1]))
  if k == "seq":
    r = set()
    for x in n[1]:
      r |= first(x)
      if not nullable(x): break
    return r
  return set()
def infallible(n):
  return n[0] in ("opt", "star") or n[0] == "grp" and infallible(n[2]) or n[0] == "seq" and all(map(infallible, n[1])) or n[0] == "alt" and any(map(infallible, n[1]))
def exact(n):
  """a failed committed run means that no run succeeds"""
  k = n[0]
  if k in ("cls", "bol", "eol"): return True
  if k in ("opt", "star", "plus"): return exact(n[1])
  if k == "grp": return exact(n[2])
  if k == "alt": return all(map(exact, n[1]))
  return all(map(exact, n[1])) and all(only(x, ("seq", n[1][i + 1:])) for i, x in enumerate(n[1]))
def only(n, rest):
  """no way for n to match other than the committed one lets `rest` succeed where it failed"""
  if infallible(rest): return True
  k, F = n[0], first(rest)
  if k in ("cls", "bol", "eol"): return True
  if k == "grp": return only(n[2], rest)
  if k == "seq": return all(only(x, ("seq", n[1][i + 1:] + [rest])) for i, x in enumerate(n[1]))
  if k == "alt":
    fs = [first(x) for x in n[1]]
    return not any(map(nullable, n[1])) and all(not (fs[i] & fs[j]) for i in range(len(fs)) for j in range(i)) and all(only(x, rest) for x in n[1])
  b = n[1]
  if nullable(b) or nullable(rest) or first(b) & F: return False
  return only(b, rest if k == "opt" else ("alt", [rest, ("seq", [b, rest])]))
def apart(a, b): return not nullable(a) and not nullable(b) and not (first(a) & first(b))
def sound(n, rest):
  """a committed run of n and then rest that succeeds is the first path: a choice passed over
  because its committed run failed could not have matched, or what follows could not"""
  k = n[0]
  if k == "grp": return sound(n[2], rest)
  if k == "seq": return all(sound(x, ("seq", n[1][i + 1:] + [rest])) for i, x in enumerate(n[1]))
  if k == "alt": return all(sound(x, rest) for x in n[1]) and all(exact(x) or all(apart(x, ("seq", [y, rest])) for y in n[1][i + 1:]) for i, x in enumerate(n[1]))
  if k in ("opt", "star", "plus"): return sound(n[1], rest if k == "opt" else ("alt", [rest, ("seq", [n[1], rest])])) and (exact(n[1]) or apart(n[1], rest))
  return True
def check(n):
  if not sound(n, ("seq", [])): raise Unsupported("a committed run may differ from the first path")

CLS = {}
def cls_name(rs):
  return CLS.setdefault(tuple(sorted(rs)), "cc%d" % len(CLS))
def cls_of(text):
  """the predicate of a class written as in the code, e.g. [0-9]"""
  n = parse(text)
  return cls_name(n[1])
def cls_specs():
  def ch(c): return "'\\u{%x}'" % c
  return "\n".join("pub open spec fn %s(c: char) -> bool { %s }" % (n, " || ".join("c == %s" % ch(a) if a == b else "(%s <= c && c <= %s)" % (ch(a), ch(b)) for a, b in rs)) for rs, n in CLS.items())

class Re:
  def __init__(s, K, pat):
    s.K, s.pat, s.tree = K, pat, parse(pat)
    check(s.tree)
    s.gs = groups(s.tree)
    if len(set(s.gs)) != len(s.gs): raise Unsupported("repeated group name")
    s.out, s.memo, s.at = [], {}, {}
    s.top = s.gen(s.tree)
  def fn(s, body, rec=False):
    if not rec and body in s.memo: return s.memo[body]
    n = "r%s_%d" % (s.K, len(s.out))
    if rec: s.out.append("pub open spec fn %s(s: Seq<char>, st: St%s) -> Option<St%s> decreases s.len() - st.p { %s }" % (n, s.K, s.K, body % n))
    else:
      s.out.append("pub open spec fn %s(s: Seq<char>, st: St%s) -> Option<St%s> { %s }" % (n, s.K, s.K, body)); s.memo[body] = n
    return n
  def gen(s, n):
    St = "St" + s.K
    k = n[0]
    if k == "cls": return s.fn("if 0 <= st.p && st.p < s.len() && %s(s[st.p]) { Some(%s { p: st.p + 1, ..st }) } else { None }" % (cls_name(n[1]), St))
    if k == "seq":
      if not n[1]: return s.fn("Some(st)")
      f = s.gen(n[1][-1])
      s.mark(n[1][-1], f)
      for x in reversed(n[1][:-1]):
        f = s.fn("match %s(s, st) { Some(t) => %s(s, t), None => None }" % (s.gen(x), f))
        s.mark(x, f)
      return f
    if k == "alt":
      f = s.gen(n[1][-1])
      for x in reversed(n[1][:-1]): f = s.fn("match %s(s, st) { Some(t) => Some(t), None => %s(s, st) }" % (s.gen(x), f))
      return f
    if k == "opt": return s.fn("match %s(s, st) { Some(t) => Some(t), None => Some(st) }" % s.gen(n[1]))
    if k in ("star", "plus"):
      if groups(n[1]): raise Unsupported("group inside a repetition")
      if n[1][0] == "cls":
        run = "run(|c: char| %s(c), s, st.p)" % cls_name(n[1][1])
        run = "run_%s(s, st.p)" % cls_name(n[1][1])
        if k == "star": return s.fn("if 0 <= st.p <= s.len() { Some(%s { p: %s, ..st }) } else { None }" % (St, run))
        return s.fn("if 0 <= st.p < s.len() && %s > st.p { Some(%s { p: %s, ..st }) } else { None }" % (run, St, run))
      a = s.gen(n[1])
      if ("rec", a) in s.memo: f = s.memo[("rec", a)]
      else: f = s.memo[("rec", a)] = s.fn("match " + a + "(s, st) { Some(t) => if st.p < t.p && t.p <= s.len() { %s(s, t) } else { Some(st) }, None => Some(st) }", rec=True)
      s.star, s.item = f, a
      if k == "star": return f
      return s.fn("match %s(s, st) { Some(t) => %s(s, t), None => None }" % (a, f))
    if k == "grp":
      return s.fn("match %s(s, st) { Some(t) => Some(%s { g_%s: Some(s.subrange(st.p, t.p)), ..t }), None => None }" % (s.gen(n[2]), St, n[1]))
    if k == "bol": return s.fn("if st.p == 0 { Some(st) } else { None }")
    if k == "eol": return s.fn("if st.p == s.len() { Some(st) } else { None }")
    raise Unsupported(k)
  def mark(s, x, f):
    """at[g]: the function that runs the rest of the pattern from group g on; at["opt"]: from the optional end on"""
    if x[0] == "grp":
      s.at[x[1]] = f
      s.at["in:" + x[1]] = s.gen(x[2])
    elif x[0] == "opt" and groups(x): s.at["opt:%s:%s" % (groups(x)[0], groups(x)[-1])] = f
  def part(s, n):
    k = n[0]
    if k == "seq": return " && ".join(x for x in map(s.part, n[1]) if x != "true") or "true"
    if k == "alt":
      ps = [s.part(x) for x in n[1]]
      return "true" if "true" in ps else "(" + " || ".join("(%s)" % p for p in ps) + ")"
    if k == "grp":
      p = "c.g_%s is Some" % n[1]
      b = n[2]
      if b[0] == "cls": p += " && c.g_%s->Some_0.len() == 1" % n[1]
      if b[0] == "plus" and b[1][0] == "cls": b = b[1]
      if b[0] == "cls": p += " && c.g_%s->Some_0.len() >= 1 && all_%s(c.g_%s->Some_0) && s.contains(c.g_%s->Some_0[0])" % (n[1], cls_name(b[1]), n[1], n[1])
      q = s.part(n[2])
      return p if q == "true" else p + " && " + q
    return "true"
  def shapes(s, n):
    """the groups that capture characters of one class"""
    out = []
    if n[0] == "grp":
      b = n[2]
      if b[0] == "cls": out.append((n[1], "==", cls_name(b[1])))
      if b[0] == "plus" and b[1][0] == "cls": out.append((n[1], ">=", cls_name(b[1][1])))
      out += s.shapes(b)
    elif n[0] in ("seq", "alt"): out += [y for x in n[1] for y in s.shapes(x)]
    elif n[0] in ("opt", "star", "plus"): out += s.shapes(n[1])
    return out
  def text(s):
    K = s.K
    o = ["pub ghost struct St%s { pub p: int%s }" % (K, "".join(", pub g_%s: Option<Seq<char>>" % g for g in s.gs))]
    o += s.out
    o.append("pub open spec fn r%s(s: Seq<char>) -> Option<St%s> { %s(s, St%s { p: 0%s }) }" % (K, K, s.top, K, "".join(", g_%s: None" % g for g in s.gs)))
    o.append("pub open spec fn part%s(s: Seq<char>, c: St%s) -> bool { %s }" % (K, K, " && ".join([s.part(s.tree)] + ["(c.g_%s is Some ==> c.g_%s->Some_0.len() %s 1 && all_%s(c.g_%s->Some_0))" % (g, g, op, n, g) for g, op, n in s.shapes(s.tree)])))
    o.append("""pub struct Caps%(K)s { v: u8 }
impl Caps%(K)s { pub uninterp spec fn st(&self) -> St%(K)s; """ % dict(K=K))
    for g in s.gs:
      o.append("#[verifier::external_body] pub fn name_%s(&self) -> (r: Option<Mt>) ensures match r { Some(m) => self.st().g_%s == Some(m.mv()), None => self.st().g_%s is None } { unimplemented!() }" % (g, g, g))
      o.append("#[verifier::external_body] pub fn idx_%s(&self) -> (r: &str) requires self.st().g_%s is Some ensures r@ == self.st().g_%s->Some_0 { unimplemented!() }" % (g, g, g))
    o.append("""}
pub open spec fn same%(K)s(a: St%(K)s, b: St%(K)s) -> bool { %(eq)s }
/// what the crate captures
pub uninterp spec fn cap%(K)s(s: Seq<char>) -> Option<St%(K)s>;
#[verifier::external_body] pub broadcast proof fn axiom_cap%(K)s(s: Seq<char>) ensures (#[trigger] cap%(K)s(s)) is Some ==> part%(K)s(s, cap%(K)s(s)->Some_0), r%(K)s(s) is Some ==> cap%(K)s(s) is Some && same%(K)s(cap%(K)s(s)->Some_0, r%(K)s(s)->Some_0) {}
pub struct Re%(K)s { v: u8 }
impl Re%(K)s { #[verifier::external_body] pub fn vnew() -> (r: Self) { unimplemented!() }
 #[verifier::external_body] pub fn captures<S: AsS + ?Sized>(&self, s: &S) -> (r: Option<Caps%(K)s>) ensures match r { Some(c) => cap%(K)s(s.s()) == Some(c.st()), None => cap%(K)s(s.s()) is None } { unimplemented!() }
 #[verifier::external_body] pub fn is_match<S: AsS + ?Sized>(&self, s: &S) -> (r: bool) ensures r%(K)s(s.s()) is Some ==> r%(full)s { unimplemented!() } }""" % dict(K=K, eq=" && ".join("a.g_%s == b.g_%s" % (g, g) for g in s.gs) or "true", full=s.full()))
    return "\n".join(o)
  def full(s):
    """^[class]+$ is decided exactly"""
    t = s.tree
    if t[0] == "seq" and len(t[1]) == 3 and t[1][0] == ("bol",) and t[1][2] == ("eol",) and t[1][1][0] == "plus" and t[1][1][1][0] == "cls":
      return ", r == (s.s().len() > 0 && all_%s(s.s()))" % cls_name(t[1][1][1][1])
    return ""

# ---- the same run in Python, to compare it with the regex crate
def run(n, s):
  r = step(n, s, (0, {}))
  return None if r is None else r[1]
def step(n, s, st):
  p, g = st
  k = n[0]
  if k == "cls": return (p + 1, g) if p < len(s) and any(a <= ord(s[p]) <= b for a, b in n[1]) else None
  if k == "bol": return st if p == 0 else None
  if k == "eol": return st if p == len(s) else None
  if k == "seq":
    for x in n[1]:
      st = step(x, s, st)
      if st is None: return None
    return st
  if k == "alt":
    for x in n[1]:
      r = step(x, s, st)
      if r is not None: return r
    return None
  if k == "opt": return step(n[1], s, st) or st
  if k == "plus":
    st = step(n[1], s, st)
    if st is None: return None
  if k in ("star", "plus"):
    while True:
      r = step(n[1], s, st)
      if r is None or r[0] <= st[0]: return st
      st = r
  r = step(n[2], s, st)
  return r and (r[0], dict(r[1], **{n[1]: s[p:r[0]]}))
def sample(n, rng):
  k = n[0]
  if k == "cls":
    a, b = rng.choice(n[1]); return chr(rng.randint(a, b))
  if k == "seq": return "".join(sample(x, rng) for x in n[1])
  if k == "alt": return sample(rng.choice(n[1]), rng)
  if k == "opt": return sample(n[1], rng) if rng.random() < .6 else ""
  if k in ("star", "plus"): return "".join(sample(n[1], rng) for _ in range(rng.choice([0, 0, 1, 2, 3]) + (k == "plus")))
  if k == "grp": return sample(n[2], rng)
  return ""
def texts(n, rng, count):
  out = []
  for _ in range(count):
    t = sample(n, rng)
    for _ in range(rng.choice([0, 0, 1, 2])):
      i = rng.randrange(len(t) + 1)
      t = t[:i] + rng.choice([sample(n, rng)[:2], "の", "か", "ら", "\n", "1"]) + t[i + rng.choice([0, 1]):]
    out.append(t)
  return out
def part_holds(R, s, c):
  """the condition that every match is assumed to satisfy"""
  def ok(n):
    k = n[0]
    if k == "seq": return all(map(ok, n[1]))
    if k == "alt": return any(map(ok, n[1]))
    return k != "grp" or c[n[1]] is not None and ok(n[2])
  def shape(g, op, rs):
    t = c[g]
    return t is None or (len(t) == 1 if op == "==" else len(t) >= 1) and all(any(a <= ord(x) <= b for a, b in rs) for x in t) and t in s
  inv = {v: k for k, v in CLS.items()}
  return ok(R.tree) and all(shape(g, op, inv[n]) for g, op, n in R.shapes(R.tree))

def cls_runs():
  o = [cls_specs()]
  for n in CLS.values():
    o.append("""pub open spec fn run_%(n)s(s: Seq<char>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && %(n)s(s[p]) { run_%(n)s(s, p + 1) } else { p } }
pub proof fn lrun_%(n)s(s: Seq<char>, p: int, q: int) requires 0 <= p <= q <= s.len(), forall|i: int| p <= i < q ==> %(n)s(#[trigger] s[i]), q < s.len() ==> !%(n)s(s[q]) ensures run_%(n)s(s, p) == q decreases q - p { if p < q { lrun_%(n)s(s, p + 1, q); } }
pub open spec fn all_%(n)s(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> %(n)s(#[trigger] t[i]) }""" % dict(n=n))
  return "\n".join(o)

REX = re.compile(r'Regex :: new \(r?(#*)"(.*?)"\1 ?,? ?\)\.unwrap \(\)', re.S)
def patterns(body): return [m.group(2) for m in REX.finditer(body)]
def rewrite(body, ks):
  body = REX.sub(lambda m: "Re%s :: vnew ()" % ks[m.group(2)], body)
  body = re.sub(r'\.name \("(\w+)"\)', r".name_\1 ()", body)
  body = re.sub(r'\b(\w+) \["(\w+)"\]', r"\1.idx_\2 ()", body)
  return body
