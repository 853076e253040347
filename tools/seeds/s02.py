from common import *
ID="s02-colspan-else"; PROPERTY="C09"
NEEDS="a TableColumn that has both a rowspan and a colspan"
BREAKS="the colspan of a table column is not written when it also has a rowspan"
EDITS=[("src/table.rs",'''    }
    if let Some(s) = &self.colspan {''','''    } else if let Some(s) = &self.colspan {''')]
DEMO=HEAD+r'''fn main() {
 let b = para("<TableStruct><Table><TableRow><TableColumn rowspan=\"2\" colspan=\"3\"><Sentence>a</Sentence></TableColumn></TableRow></Table></TableStruct>");
 let s = to_xml(&read(&b).unwrap()).unwrap();
 assert!(s.contains("colspan=\"3\"") && s.contains("rowspan=\"2\""), "{s}");
}'''
