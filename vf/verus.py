"""Runs Verus on a generated crate and maps its messages to functions and lemmas."""
import os, re, subprocess, time, json

def regions(text):
  """line (1-based) -> (module, fn key or item name)"""
  mod, fn, item, out = [], None, None, [None]
  depthmod = None
  for l in text.split("\n"):
    m = re.match(r"pub mod (\w+) \{", l)
    if m: depthmod = m.group(1)
    m = re.match(r"// FN (\S+)", l)
    if m: fn = m.group(1)
    if l.startswith("// ENDFN"): out.append((depthmod, None)); fn = None; item = None; continue
    m = re.match(r"(?:pub )?(?:broadcast )?(?:proof|open spec|closed spec|uninterp spec|spec) ?fn (\w+)|(?:pub )?(?:open|closed) spec fn (\w+)|impl (\w+)", l)
    if m and not fn: item = "item:" + (m.group(1) or m.group(2) or m.group(3))
    out.append((depthmod, fn or item))
  return out

class Result:
  pass

def run(text, path, rlimit=60, modules=None, threads=8, timeout=600, root=False, extra=()):
  open(path, "w").write(text)
  cmd = ["verus", os.path.basename(path), "--num-threads", str(threads), "--rlimit", str(rlimit), "--multiple-errors", "3"] + list(extra)
  for m in modules or (): cmd += ["--verify-module", m]
  if modules and root: cmd += ["--verify-root"]
  t0 = time.time()
  r = Result()
  r.cmd = " ".join(cmd)
  try:
    p = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=timeout)
    out = p.stdout + p.stderr
    r.timeout = False
  except subprocess.TimeoutExpired as e:
    out = "".join((x.decode() if isinstance(x, bytes) else x) or "" for x in (e.stdout, e.stderr))
    subprocess.run(["pkill", "-f", os.path.basename(path)], capture_output=True)
    r.timeout = True
  r.wall = time.time() - t0
  r.out = out
  m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
  r.verified, r.errors = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
  r.frontend_ok = bool(m)
  reg = regions(text)
  r.fail = {}     # key -> list of messages
  r.unmapped = []
  for b in re.split(r"\n(?=(?:error|warning|note)\b)", out):
    m = re.match(r"\s*error(?:\[\w+\])?: (.*)", b)
    if not m or m.group(1).startswith("aborting") or "previous error" in m.group(1): continue
    ns = [int(x) for x in re.findall(r"--> \S+?:(\d+)", b)] + [int(x) for x in re.findall(r"^\s*(\d+) \|", b, re.M)]
    ks = [reg[n] for n in ns if n < len(reg)]
    # prefer a function; otherwise the item
    f = next((k[1] for k in ks if k and k[1] and not k[1].startswith("item:")), None)
    if f is None:
      k = next((k for k in ks if k and k[1]), None) or next((k for k in ks if k), None)
      f = "%s/%s" % (k[0], k[1]) if k else None
    if f is None: r.unmapped.append(m.group(1))
    else: r.fail.setdefault(f, []).append(dict(msg=m.group(1), text=b[:1500]))
  return r
