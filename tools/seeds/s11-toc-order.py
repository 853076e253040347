from common import *
ID="s11-toc-order"; PROPERTY="C07"
NEEDS="a table-of-contents section that lists a division before a subsection"
BREAKS="subsections of a table-of-contents section are written before its divisions"
EDITS=[("src/table_of_contents.rs",'''        TOCSectionContents::TOCDivision(v) => e.children.push(XMLNode::Element(v.to_xml_element())),
        TOCSectionContents::TOCSubsection(v) => {
          e.children.push(XMLNode::Element(v.to_xml_element()))
        }
''','''        TOCSectionContents::TOCDivision(v) => e.children.push(XMLNode::Element(v.to_xml_element())),
        TOCSectionContents::TOCSubsection(v) => {
          let at = e.children.iter().take_while(|c| c.as_element().map_or(true, |c| c.name != "TOCDivision")).count();
          e.children.insert(at, XMLNode::Element(v.to_xml_element()))
        }
''')]
DEMO=HEAD+r'''fn main() {
 let x = "<Law Era=\"Reiwa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>x</LawNum><LawBody><TOC><TOCChapter Num=\"1\"><ChapterTitle>c</ChapterTitle><TOCSection Num=\"1\"><SectionTitle>s</SectionTitle><TOCDivision Num=\"1\"><DivisionTitle>d</DivisionTitle></TOCDivision><TOCSubsection Num=\"1\"><SubsectionTitle>d</SubsectionTitle></TOCSubsection></TOCSection></TOCChapter></TOC><MainProvision></MainProvision></LawBody></Law>";
 let l = parse_xml(x.as_bytes()).unwrap();
 let l2 = parse_xml(to_xml(&l).unwrap().as_bytes()).unwrap();
 assert!(l == l2);
}'''
