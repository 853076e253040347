from common import *
ID="s10-abbrev-empty"; PROPERTY="C01"
NEEDS="a law title whose abbreviation is present but empty"
BREAKS="an empty abbreviation of a law title is not written, so it is lost"
EDITS=[("src/law.rs",'''    if let Some(s) = &self.abbrev {
''','''    if let Some(s) = self.abbrev.as_ref().filter(|s| !s.is_empty()) {
''')]
DEMO=HEAD+r'''fn main() {
 let x = "<Law Era=\"Reiwa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>x</LawNum><LawBody><LawTitle Abbrev=\"\">t</LawTitle><MainProvision></MainProvision></LawBody></Law>";
 let l = parse_xml(x.as_bytes()).unwrap();
 let l2 = parse_xml(to_xml(&l).unwrap().as_bytes()).unwrap();
 assert!(l == l2);
}'''
