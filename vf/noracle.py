"""what the Japanese text form of a number has to be (oracle for C12, C13, C18)"""
KD = "〇一二三四五六七八九"
IROHA = "イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス"
HIRA = "いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす"
UNITS = [("part", "編"), ("chapter", "章"), ("section", "節"), ("subsection", "款"), ("division", "目"), ("article", "条")]
STYLES = ["Kansuji", "IrohaKatakana", "IrohaHiragana", "ZenkakuNum", "ZenkakuRomanUpper", "ZenkakuRomanLower", "ZenkakuUpper", "ZenkakuLower"]
PATTERNS = ["NoParen" + s for s in STYLES] + ["Paren" + s for s in STYLES]
MAXN = {"Kansuji": 9999, "IrohaKatakana": 47, "IrohaHiragana": 47, "ZenkakuNum": 2**64 - 1, "ZenkakuRomanUpper": 399, "ZenkakuRomanLower": 399, "ZenkakuUpper": 2**64 - 1, "ZenkakuLower": 2**64 - 1}
ROMAN_LETTERS = set("ivxlc")

def kansuji(n):
  if not 1 <= n <= 9999: return None
  s = ""
  for u, p in (("千", 1000), ("百", 100), ("十", 10), ("", 1)):
    d = n // p % 10
    if d: s += ("" if d == 1 and u else KD[d]) + u
  return s
def zen(n): return "".join(chr(0xFF10 + int(c)) for c in str(n))
def roman(n):
  s = ""
  for t, v in (("m", 1000), ("cm", 900), ("d", 500), ("cd", 400), ("c", 100), ("xc", 90), ("l", 50), ("xl", 40), ("x", 10), ("ix", 9), ("v", 5), ("iv", 4), ("i", 1)):
    while n >= v: s += t; n -= v
  return s
def letters(n):
  s = ""
  while n > 0: s = chr(ord("a") + (n - 1) % 26) + s; n = (n - 1) // 26
  return s
wide = lambda s: "".join(chr(ord(c) + 0xFEE0) for c in s)
def symbol(style, n):
  """the style's own symbol, None outside the style's range"""
  if not 1 <= n <= MAXN[style] and not (style == "ZenkakuNum" and n == 0): return None
  return {"Kansuji": kansuji, "IrohaKatakana": lambda n: IROHA[n - 1], "IrohaHiragana": lambda n: HIRA[n - 1], "ZenkakuNum": zen,
    "ZenkakuRomanUpper": lambda n: wide(roman(n).upper()), "ZenkakuRomanLower": lambda n: wide(roman(n)),
    "ZenkakuUpper": lambda n: wide(letters(n).upper()), "ZenkakuLower": lambda n: wide(letters(n))}[style](n)
def split(p): return (False, p[7:]) if p.startswith("NoParen") else (True, p[5:])
def join(nums, first, rest, paren=lambda s: s):
  return paren(first(nums[0])) + "".join("の" + rest(x) for x in nums[1:])
def articles_text(n, unit):
  k = kansuji
  t = lambda l: "第" + k(l[0]) + unit + "".join("の" + k(x) for x in l[1:])
  l = [n["base_number"]] + n["eda_numbers"]; r = n["range_end_numbers"]
  if any(k(x) is None for x in l + r): return None
  return t(l) + ("から" + t(r) + "まで" if r else "")
def paragraph_text(n):
  t = lambda l: "の".join(zen(x) for x in l)
  l = [n["base_number"]] + n["eda_numbers"]; r = n["range_end_numbers"]
  return t(l) + ("から" + t(r) + "まで" if r else "")
def item_text(n, p):
  paren, st = split(p)
  l = [n["base_number"]] + n["eda_numbers"]; r = n["range_end_numbers"]
  if any(symbol(st, x) is None for x in l + r): return None
  w = (lambda s: "（" + s + "）") if paren else (lambda s: s)
  t = lambda l: w(symbol(st, l[0])) + "".join("の" + symbol(st, x) for x in l[1:])
  return t(l) + ("から" + t(r) + "まで" if r else "")
def readable(n, p):
  """item numbers whose text can be told apart from others: letters that spell roman digits
  read as roman numerals, and の, か, ら cannot be told from iroha in hiragana"""
  paren, st = split(p)
  l = [n["base_number"]] + n["eda_numbers"]; r = n["range_end_numbers"]
  if st in ("ZenkakuUpper", "ZenkakuLower") and any(set(letters(x)) <= ROMAN_LETTERS for x in l + r): return False
  if st == "IrohaHiragana" and (len(l) > 1 or r): return False
  return True
def case(rng, extra=()):
  pick = lambda: rng.choice([1, 2, 3, 4, 5, 9, 10, 11, 12, 19, 20, 21, 26, 27, 40, 46, 47, 90, 99, 100, 101, 110, 111, 399, 999, 1000, 1001, 1010, 1100, 1111, 9999, rng.randrange(1, 48), rng.randrange(1, 400), rng.randrange(1, 10000)] + [x for x in extra if 1 <= x <= 9999])
  small = lambda: rng.randrange(1, 48)
  f = rng.choice([pick, small, small])
  n = {"base_number": f(), "eda_numbers": [f() for _ in range(rng.choice([0, 0, 0, 1, 2, 3, 4, 7]))], "range_end_numbers": [f() for _ in range(rng.choice([0, 0, 0, 1, 2, 3, 5, 8]))]}
  return n
ALPHA = list("第編章節款目条項号のノからまで（）() 　\n-_:0123456789９０１２一二三十百千万〇零イロンァあんいＡＺａｚｉＩｖＶａbiIVzZ") + ["99999999999999999999999", "９９９９９９９９９９９９９９９９９９９９９９", "から第", "まで", "ｉｉｉｉ", "百百", "千千", "十十十", "（", "条の", "編ノ", "ＡＢＣＤＥＦＧＨＩＪＫＬＭＮＯＰＱＲＳＴ"]
def noise(rng, base, words=()):
  t = base
  for _ in range(rng.choice([0, 1, 1, 2, 4])):
    i = rng.randrange(len(t) + 1)
    t = t[:i] + rng.choice(ALPHA + list(words)) + t[i + rng.choice([0, 0, 1]):]
  return t
