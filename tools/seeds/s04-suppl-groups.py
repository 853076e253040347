from common import *
ID="s04-suppl-groups"; PROPERTY="C14"
NEEDS="a supplementary provision with a chapter and paragraphs both before and after it, read through article_list_from_suppl_provision"
BREAKS="paragraphs before and after a chapter of a supplementary provision are merged into one group"
EDITS=[("src/utils.rs",'''        para_v.push(para_v_tmp);
        para_v_tmp = Vec::new();
        let mut v2 = article_list_from_chapter(t)
          .iter()''','''        let mut v2 = article_list_from_chapter(t)
          .iter()''')]
DEMO=HEAD+r'''fn main() {
 let b = format!("</MainProvision><SupplProvision><SupplProvisionLabel>x</SupplProvisionLabel>{}<Chapter Num=\"1\"><ChapterTitle>c</ChapterTitle></Chapter>{}</SupplProvision><MainProvision>", para(""), para(""));
 let l = read("").unwrap(); let _ = l;
 let x = format!("<Law Era=\"Reiwa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>x</LawNum><LawBody><MainProvision></MainProvision><SupplProvision><SupplProvisionLabel>x</SupplProvisionLabel>{}<Chapter Num=\"1\"><ChapterTitle>c</ChapterTitle></Chapter>{}</SupplProvision></LawBody></Law>", para(""), para(""));
 let _ = b;
 let l = parse_xml(x.as_bytes()).unwrap();
 let (_, g) = utils::article_list_from_suppl_provision(&l.law_body.suppl_provision[0]);
 assert_eq!(g.iter().map(|p| p.len()).collect::<Vec<_>>(), vec![1, 1]);
}'''
