//! Runs inputs against the real library: one JSON command per line on stdin, one JSON
//! answer per line on stdout.  Every call is isolated with catch_unwind.
use japanese_law_xml_schema as jl;
use jl::article_number as an;
use jl::law::Law;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use xmltree::{Element, XMLNode};

fn tree(e: &Element) -> Value {
  let mut a = serde_json::Map::new();
  for (k, v) in e.attributes.iter() { a.insert(k.clone(), json!(v)); }
  let c: Vec<Value> = e.children.iter().map(|n| match n {
    XMLNode::Element(e) => tree(e),
    XMLNode::Text(t) => json!({"t": t}),
    _ => json!({"o": 1}),
  }).collect();
  json!({"n": e.name, "a": a, "c": c})
}

fn wna(l: &[jl::utils::WithNumberArticle]) -> Value {
  json!(l.iter().map(|w| json!([w.get_part(), w.get_chapter(), w.get_section(), w.get_subsection(), w.get_division(), w.get_article()])).collect::<Vec<_>>())
}
fn toc(l: &[jl::utils::Toc]) -> Value {
  json!(l.iter().map(|t| json!([t.get_part(), t.get_chapter(), t.get_section(), t.get_subsection(), t.get_division(), t.get_article(), t.get_title()])).collect::<Vec<_>>())
}
fn infos(p: &[jl::paragraph::Paragraph]) -> Value {
  json!(jl::utils::text_info_list_from_paragraph(p).iter().map(|(i, s)| json!([i.paragraph, i.items, s])).collect::<Vec<_>>())
}
fn utils(v: &Value) -> Value {
  use jl::utils::*;
  let m: jl::law::MainProvision = match serde_json::from_value(v["main"].clone()) { Ok(l) => l, Err(e) => return json!({"r": "badjson", "e": e.to_string()}) };
  let sp: jl::suppl_provision::SupplProvision = match serde_json::from_value(v["suppl"].clone()) { Ok(l) => l, Err(e) => return json!({"r": "badjson", "e": e.to_string()}) };
  let t: jl::text::Text = match serde_json::from_value(v["text"].clone()) { Ok(l) => l, Err(e) => return json!({"r": "badjson", "e": e.to_string()}) };
  let tb: jl::table::Table = match serde_json::from_value(v["table"].clone()) { Ok(l) => l, Err(e) => return json!({"r": "badjson", "e": e.to_string()}) };
  let se: Vec<jl::sentence::SentenceElement> = match serde_json::from_value(v["sentence"].clone()) { Ok(l) => l, Err(e) => return json!({"r": "badjson", "e": e.to_string()}) };
  match v["part"].as_str().unwrap_or("") {
    "arts" => {
      let (a, g) = with_number_article_list_from_main_provision(&m);
      let (a1, g1) = article_list_from_main_provision(&m);
      let (b, h) = with_number_article_list_from_suppl_provision(&sp);
      let (b1, h1) = article_list_from_suppl_provision(&sp);
      json!({"r": "ok", "v": {"with_number_article_list_from_main_provision": [wna(&a), g], "article_list_from_main_provision": [a1, g1], "with_number_article_list_from_suppl_provision": [wna(&b), h], "article_list_from_suppl_provision": [b1, h1]}})
    }
    "toc" => json!({"r": "ok", "v": {"toc_list_from_main_provision": toc(&toc_list_from_main_provision(&m)), "toc_list_from_suppl_provision": toc(&toc_list_from_suppl_provision(&sp))}}),
    _ => {
      let (a, g) = article_list_from_main_provision(&m);
      json!({"r": "ok", "v": {"to_string": t.to_string(), "table_to_str": table_to_str(&tb), "sentence_element_to_str": sentence_element_to_str(&se),
        "articles": a.iter().map(|x| json!([infos(&x.paragraph), text_from_article(x), x])).collect::<Vec<_>>(),
        "groups": g.iter().map(|x| json!([infos(x), text_from_paragraph_list(x), x])).collect::<Vec<_>>()}})
    }
  }
}

fn run(v: &Value) -> Value {
  let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
  match v["op"].as_str().unwrap() {
    "read" => match jl::parse_xml(s("xml").as_bytes()) {
      Ok(l) => json!({"r": "ok", "law": l}),
      Err(_) => json!({"r": "err"}),
    },
    "write" => {
      let law: Law = match serde_json::from_value(v["law"].clone()) { Ok(l) => l, Err(e) => return json!({"r": "badjson", "e": e.to_string()}) };
      let x = match jl::to_xml(&law) { Ok(x) => x, Err(_) => return json!({"r": "err"}) };
      let mut buf: Vec<u8> = Vec::new();
      let wok = jl::write_file(&law, &mut buf).is_ok();
      let t = match Element::parse(x.as_bytes()) { Ok(e) => tree(&e), Err(_) => Value::Null };
      let wf = wok && match Element::parse(&buf[..]) { Ok(e) => tree(&e) == t, Err(_) => false };
      let (back, law2) = match jl::parse_xml(x.as_bytes()) { Ok(l) => if l == law { ("same", Value::Null) } else { ("differs", json!(l)) }, Err(e) => ("err", json!(format!("{e:?}"))) };
      json!({"r": "ok", "tree": t, "back": back, "law2": law2, "file_same": wf})
    }
    "utils" => utils(v),
    "num_str" => {
      let n: an::ArticleNumber = serde_json::from_value(v["v"].clone()).unwrap();
      let t = n.num_str();
      let b = an::ArticleNumber::from_num_str(&t).ok();
      json!({"r": "ok", "s": t, "back": b == Some(n)})
    }
    "text" => {
      let n: an::ArticleNumber = match serde_json::from_value(v["v"].clone()) { Ok(n) => n, Err(e) => return json!({"r": "badjson", "e": e.to_string()}) };
      let one = |t: String| { let b = an::parse_article_number(&t); json!([t, b]) };
      match v["unit"].as_str().unwrap_or("") {
        "part" => json!({"r": "ok", "v": one(n.part_text())}),
        "chapter" => json!({"r": "ok", "v": one(n.chapter_text())}),
        "section" => json!({"r": "ok", "v": one(n.section_text())}),
        "subsection" => json!({"r": "ok", "v": one(n.subsection_text())}),
        "division" => json!({"r": "ok", "v": one(n.division_text())}),
        "article" => json!({"r": "ok", "v": one(n.article_text())}),
        "paragraph" => json!({"r": "ok", "v": one(n.paragraph_text())}),
        p => {
          let p: an::ItemPattern = match serde_json::from_value(json!(p)) { Ok(n) => n, Err(e) => return json!({"r": "badjson", "e": e.to_string()}) };
          let t = n.item_text(p);
          let b = an::parse_item_number(&t);
          json!({"r": "ok", "v": [t, b]})
        }
      }
    }
    "parse_text" => json!({"r": "ok", "v": [an::parse_article_number(&s("s")), an::parse_item_number(&s("s"))]}),
    "law_text" => match jl::parse_text(&s("text"), 2020, Some(1), Some(1), jl::law::LawType::Act, jl::law::Lang::Ja, None, String::new(), &s("title")) {
      Ok(l) => json!({"r": "ok", "law": l}),
      Err(_) => json!({"r": "err"}),
    },
    // the crates behind the number texts, as they are
    "crates" => {
      let k: Vec<_> = (1..=9999usize).map(|n| { let t = kansuji::Kansuji::from(n).to_string(); let b = kansuji::Kansuji::try_from(t.as_str()).ok().map(|k| { let x: u128 = k.into(); x as u64 }); json!([t, b]) }).collect();
      let r: Vec<_> = (1..=399i32).map(|n| { let t = roman::to(n); let b = t.as_ref().and_then(|t| roman::from(t)); json!([t, b]) }).collect();
      json!({"r": "ok", "kansuji": k, "roman": r})
    }
    "regex" => {
      let re = regex::Regex::new(&s("pat")).unwrap();
      let v: Vec<_> = v["texts"].as_array().unwrap().iter().map(|t| re.captures(t.as_str().unwrap()).map(|m| re.capture_names().flatten().map(|g| (g.to_string(), json!(m.name(g).map(|x| x.as_str())))).collect::<serde_json::Map<_, _>>())).collect();
      json!({"r": "ok", "v": v})
    }
    "from_num_str" => match an::ArticleNumber::from_num_str(&s("s")) { Ok(n) => json!({"r": "ok", "v": n}), Err(_) => json!({"r": "err"}) },
    _ => json!({"r": "unknown"}),
  }
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let th = std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
      let l = l.unwrap();
      let v: Value = serde_json::from_str(&l).unwrap();
      let r = catch_unwind(AssertUnwindSafe(|| run(&v))).unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        json!({"r": "panic", "m": m})
      });
      let mut o = out.lock();
      writeln!(o, "\n\u{1}{r}").unwrap();
      o.flush().unwrap();
    }
  }).unwrap();
  th.join().unwrap();
}
