from common import *
ID="s06-subitem-path"; PROPERTY="C16"
NEEDS="items nested down to the eighth subitem level"
BREAKS="the eighth level of subitems is listed under the path of its grandparent"
EDITS=[("src/utils.rs",'''text_list_from_subitem8(para_num, l.clone(), &t.children)''','''text_list_from_subitem8(para_num, items.clone(), &t.children)''')]
DEMO=HEAD+r'''fn main() {
 let mut b = String::new();
 for i in (1..=8).rev() { b = format!("<Subitem{i} Num=\"{i}\"><Subitem{i}Title/><Subitem{i}Sentence><Sentence>t{i}</Sentence></Subitem{i}Sentence>{b}</Subitem{i}>"); }
 let b = para(&format!("<Item Num=\"9\"><ItemTitle/><ItemSentence><Sentence>i</Sentence></ItemSentence>{b}</Item>"));
 let l = read(&b).unwrap();
 let (_, g) = utils::article_list_from_main_provision(&l.law_body.main_provision);
 let v = utils::text_info_list_from_paragraph(&g[0]);
 let p: Vec<usize> = v.last().unwrap().0.items.iter().map(|n| n.as_ref().unwrap().base_number).collect();
 assert_eq!(p, vec![9, 1, 2, 3, 4, 5, 6, 7, 8]);
}'''
