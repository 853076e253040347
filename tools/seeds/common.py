HEAD = r'''
#![allow(dead_code, unused_imports)]
use japanese_law_xml_schema::*;
fn doc(body: &str) -> String { format!("<Law Era=\"Reiwa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>x</LawNum><LawBody><MainProvision>{body}</MainProvision></LawBody></Law>") }
fn read(body: &str) -> Result<law::Law, result::Error> { parse_xml(doc(body).as_bytes()) }
fn rt(body: &str) { let l = read(body).expect("the input is valid"); let s = to_xml(&l).expect("writing"); let l2 = parse_xml(s.as_bytes()).expect("the written document is readable"); assert!(l == l2, "the document changed"); }
fn para(inner: &str) -> String { format!("<Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>s</Sentence></ParagraphSentence>{inner}</Paragraph>") }
'''
