from common import *
ID="s01-article-late-title"; PROPERTY="C08"
NEEDS="a document with an unknown child element after the title of an Article"
BREAKS="an unknown child of an Article is silently dropped instead of being reported"
EDITS=[("src/article.rs",'''            "SupplNote" => suppl_note = Some(Text::from_children(&e.children)),

            s => return Err(Error::unexpected_tag(element, s)),''','''            "SupplNote" => suppl_note = Some(Text::from_children(&e.children)),

            s if suppl_note.is_none() => return Err(Error::unexpected_tag(element, s)),
            _ => (),''')]
DEMO=HEAD+r'''fn main() {
 let a = |x: &str| format!("<Article Num=\"1\"><ArticleTitle>t</ArticleTitle>{}<SupplNote>n</SupplNote>{x}</Article>", para(""));
 assert!(read(&a("")).is_ok());
 assert!(read(&a("<Item Num=\"1\"><ItemSentence><Sentence>a</Sentence></ItemSentence></Item>")).is_err(), "an Item under an Article was dropped silently");
}'''
