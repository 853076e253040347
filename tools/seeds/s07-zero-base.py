from common import *
ID="s07-zero-base"; PROPERTY="C11"
NEEDS="a number whose base is 0 with branch numbers"
BREAKS="0_3 reads as 3"
EDITS=[("src/article_number.rs",'''          if base_number.is_none() {
            base_number = Some(n);''','''          if base_number.unwrap_or_default() == 0 {
            base_number = Some(n);''')]
DEMO=HEAD+r'''fn main() {
 let n = article_number::ArticleNumber::from_num_str("0_3").unwrap();
 assert_eq!(n.num_str(), "0_3");
}'''
