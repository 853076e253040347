from common import *
ID="s03-empty-list-panic"; PROPERTY="C10"
NEEDS="a List element without any child node"
BREAKS="reading an empty List panics instead of returning an error"
EDITS=[("src/list.rs",'''      let mut children = element.children.iter();
      let list_sentence = children.next();
      let mut sentence = Vec::new();
      if let Some("ListSentence") =''','''      let list_sentence = element.children.first();
      let mut children = element.children[1..].iter();
      let mut sentence = Vec::new();
      if let Some("ListSentence") =''')]
DEMO=HEAD+r'''fn main() { assert!(read(&para("<List/>")).is_err()); assert!(read(&para("<List><ListSentence><Sentence>a</Sentence></ListSentence></List>")).is_ok()); }'''
