from common import *
ID="s08-repeat-row"; PROPERTY="C05"
NEEDS="a table row that equals the row before it"
BREAKS="of equal consecutive table rows only the first is read"
EDITS=[("src/table.rs","              table_row.push(v)\n","              if table_row.last() != Some(&v) {\n                table_row.push(v)\n              }\n")]
DEMO=HEAD+r'''fn main() {
 rt(&para("<TableStruct><Table><TableRow><TableColumn><Sentence>a</Sentence></TableColumn></TableRow><TableRow><TableColumn><Sentence>a</Sentence></TableColumn></TableRow></Table></TableStruct>"));
 let l = read(&para("<TableStruct><Table><TableRow><TableColumn><Sentence>a</Sentence></TableColumn></TableRow><TableRow><TableColumn><Sentence>a</Sentence></TableColumn></TableRow></Table></TableStruct>")).unwrap();
 let s = to_xml(&l).unwrap();
 assert_eq!(s.matches("<TableRow").count(), 2);
}'''
