From 4e2378f90cdf1b524da8fe3a8b7286f6b3a7661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 01/34] fix: write the end of a number range once, also when
 there is no branch number

---
 src/article_number.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 65b3a53..c77100c 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -25,15 +25,15 @@ impl ArticleNumber {
     for n in self.eda_numbers.iter() {
       s.push('_');
       s.push_str(&n.to_string());
-      if !self.range_end_numbers.is_empty() {
-        let l = &self.range_end_numbers;
-        let mut l = l.iter();
-        s.push(':');
-        s.push_str(&l.next().unwrap().to_string());
-        for n in l {
-          s.push('_');
-          s.push_str(&n.to_string());
-        }
+    }
+    if !self.range_end_numbers.is_empty() {
+      let l = &self.range_end_numbers;
+      let mut l = l.iter();
+      s.push(':');
+      s.push_str(&l.next().unwrap().to_string());
+      for n in l {
+        s.push('_');
+        s.push_str(&n.to_string());
       }
     }
     s
-- 
2.43.0


From 33f8015185ae600fa588c72b37f0575fbf43dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 02/34] fix: do not panic on a Law element without a Num
 attribute

---
 src/law.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 6a8c383..fbff3ce 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -61,11 +61,9 @@ impl Parser for Law {
         }
       };
       let year = get_attribute_with_parse(element, "Year")?;
-      let num_str = element.attributes.get("Num").unwrap();
-      let num = if num_str.is_empty() {
-        None
-      } else {
-        Some(ArticleNumber::from_str(num_str)?)
+      let num = match element.attributes.get("Num") {
+        Some(num_str) if !num_str.is_empty() => Some(ArticleNumber::from_str(num_str)?),
+        _ => None,
       };
       let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
         if s.is_empty() {
-- 
2.43.0


From 69231f67aec48da81a54c332b9676134a5d4bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 03/34] fix: read the line style "double" as a double line, not
 a dotted one

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 9d4a2cb..0191e5c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -105,7 +105,7 @@ impl LineStyle {
       Some("solid") => Some(LineStyle::Solid),
       Some("none") => Some(LineStyle::None),
       Some("dotted") => Some(LineStyle::Dotted),
-      Some("double") => Some(LineStyle::Dotted),
+      Some("double") => Some(LineStyle::Double),
       _ => None,
     }
   }
-- 
2.43.0


From b9b6c887deec3c6e43494256778bc8df3eb9647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 04/34] fix: write the label of Remarks

---
 src/remarks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/remarks.rs b/src/remarks.rs
index 3cc1b79..3ce447c 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -56,6 +56,8 @@ impl Parser for Remarks {
 impl ToXmlElement for Remarks {
   fn to_xml_element(&self) -> Element {
     let mut e = Element::new("Remarks");
+    e.children
+      .push(XMLNode::Element(self.label.to_xml_element()));
     for n in self.children.iter() {
       match n {
         RemarksContents::Item(v) => {
-- 
2.43.0


From c925f282318ce0516d1720733bcbdedcfce90ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 05/34] fix: write the Num attribute of ArithFormula

---
 src/contents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/contents.rs b/src/contents.rs
index bde732d..0006ffa 100644
--- a/src/contents.rs
+++ b/src/contents.rs
@@ -312,6 +312,10 @@ impl Parser for ArithFormula {
 
 impl ToXmlElement for ArithFormula {
   fn to_xml_element(&self) -> Element {
-    self.contentes.to_xml_element_with_name("ArithFormula")
+    let mut e = self.contentes.to_xml_element_with_name("ArithFormula");
+    if let Some(n) = self.num {
+      e.attributes.insert("Num".to_string(), n.to_string());
+    }
+    e
   }
 }
-- 
2.43.0


From 9d8a8404866d0718f5c2fe683afbdecd1d29abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 06/34] fix: write Align and Valign of TableColumn under their
 own names

---
 src/table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 9a9c7b7..b1cab15 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -309,10 +309,10 @@ impl ToXmlElement for TableColumn {
       e.attributes.insert("colspan".to_string(), s.clone());
     }
     if let Some(a) = &self.align {
-      e.attributes.insert("rowspan".to_string(), a.to_attribute());
+      e.attributes.insert("Align".to_string(), a.to_attribute());
     }
     if let Some(v) = &self.valign {
-      e.attributes.insert("rowspan".to_string(), v.to_attribute());
+      e.attributes.insert("Valign".to_string(), v.to_attribute());
     }
     for n in self.contents.iter() {
       match n {
-- 
2.43.0


From 3bf4c559e32979cdb1a74d0ed99adfb708a8b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 07/34] fix: write the preamble label of a TOC as
 TOCPreambleLabel

---
 src/table_of_contents.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 8417bf2..9fffb87 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -89,8 +89,9 @@ impl ToXmlElement for TOC {
         .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
     }
     if let Some(label) = &self.toc_preamble_label {
-      e.children
-        .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
+      e.children.push(XMLNode::Element(
+        label.to_xml_element_with_name("TOCPreambleLabel"),
+      ));
     }
     for v in self.toc_main_contents.iter() {
       match v {
-- 
2.43.0


From 0ee6b089b17054487ff18e838b8dfc2d370cd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 08/34] fix: correct the tag name written for
 SupplProvisionAppdxTableTitle

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index c7c5f69..5ce3b42 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -210,7 +210,7 @@ impl ToXmlElement for SupplProvisionAppdxTable {
     e.children.push(XMLNode::Element(
       self
         .title
-        .to_xml_element_with_name("SupplProvisionAppdxTableitle"),
+        .to_xml_element_with_name("SupplProvisionAppdxTableTitle"),
     ));
     if let Some(t) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-- 
2.43.0


From b46fe75976facb10d1821150774ce5b5db09e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 09/34] fix: write SupplProvisionAppdx and its
 RelatedArticleNum under their own tag names

---
 src/suppl_provision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 5ce3b42..a013743 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -347,7 +347,7 @@ impl Parser for SupplProvisionAppdx {
 
 impl ToXmlElement for SupplProvisionAppdx {
   fn to_xml_element(&self) -> Element {
-    let mut e = Element::new("Appdx");
+    let mut e = Element::new("SupplProvisionAppdx");
     if let Some(v) = &self.arith_formula_num {
       e.children.push(XMLNode::Element(
         v.to_xml_element_with_name("ArithFormulaNum"),
@@ -355,7 +355,7 @@ impl ToXmlElement for SupplProvisionAppdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From e5c8bf4e679fef256281489aff98fec563b10e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 10/34] fix: write the RelatedArticleNum of Appdx under its own
 tag name

---
 src/appdx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index 6d17c9b..d739d31 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -401,7 +401,7 @@ impl ToXmlElement for Appdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From 9d999d5d33a979432ad3b165e7f4d66c726790a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 11/34] fix: write new provisions inside NewProvision, not
 AmendProvisionSentence

---
 src/law.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/law.rs b/src/law.rs
index fbff3ce..b5c2ff2 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -890,7 +890,7 @@ impl ToXmlElement for AmendProvision {
       e.children.push(XMLNode::Element(se));
     }
     for v in self.new_provision.iter() {
-      let mut se = Element::new("AmendProvisionSentence");
+      let mut se = Element::new("NewProvision");
       match v {
         NewProvision::LawTitle(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
         NewProvision::Preamble(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
-- 
2.43.0


From bc2e20da12825cbf4e2cfcd6f5166e6e7dddbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 12/34] fix: always write the required Num attribute of items
 and subitems

---
 src/paragraph.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index baa7a5e..eb8c017 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -291,6 +291,8 @@ impl ToXmlElement for Item {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -435,6 +437,8 @@ impl ToXmlElement for Subitem1 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -579,6 +583,8 @@ impl ToXmlElement for Subitem2 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -723,6 +729,8 @@ impl ToXmlElement for Subitem3 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -867,6 +875,8 @@ impl ToXmlElement for Subitem4 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1011,6 +1021,8 @@ impl ToXmlElement for Subitem5 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1155,6 +1167,8 @@ impl ToXmlElement for Subitem6 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1299,6 +1313,8 @@ impl ToXmlElement for Subitem7 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1443,6 +1459,8 @@ impl ToXmlElement for Subitem8 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1587,6 +1605,8 @@ impl ToXmlElement for Subitem9 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1719,6 +1739,8 @@ impl ToXmlElement for Subitem10 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
-- 
2.43.0


From 8cb2dcc509eb62374463f44da7e3056eef91c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 13/34] fix: do not panic on an Article without paragraphs

---
 src/article.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/article.rs b/src/article.rs
index 5316e62..baec35f 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -651,7 +651,9 @@ impl Parser for Article {
             break;
           }
         }
-        let next = children.next().unwrap();
+        let Some(next) = children.next() else {
+          break;
+        };
         if let XMLNode::Element(e) = next {
           match e.name.as_str() {
             "ArticleCaption" => {
-- 
2.43.0


From 6836cfe8af537d4d722e1bf3948b19f0b99ab885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 14/34] fix: reject a number string with more than one range
 end instead of ignoring the rest

---
 src/article_number.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/article_number.rs b/src/article_number.rs
index c77100c..22b4075 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -74,6 +74,12 @@ impl ArticleNumber {
             Err(e) => return Err(e),
           }
         }
+        if num_s_lst.next().is_some() {
+          return Err(Error::ParsingError(
+            "ArticleNumber".to_string(),
+            s.to_string(),
+          ));
+        }
       }
       Ok(ArticleNumber {
         base_number,
-- 
2.43.0


From bd4733fca1389c7715204bd86970a17f7dd33768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 15/34] fix: tag listed articles with the numbers of their
 containers

---
 src/utils.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6b1029d..6582825 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -211,7 +211,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_part(Some(t.num.clone()));
+            w.set_part(Some(part.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -219,7 +219,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
       }
       PartContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_part(Some(t.num.clone()));
+        w.set_part(Some(part.num.clone()));
         v.push(w)
       }
     }
@@ -227,16 +227,16 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
+fn article_list_from_chapter(chapter: &Chapter) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in chapter.children.iter() {
     match contents {
       ChapterContents::Section(t) => {
         let mut v2 = article_list_from_section(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_chapter(Some(t.num.clone()));
+            w.set_chapter(Some(chapter.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -244,7 +244,7 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
       }
       ChapterContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_chapter(Some(t.num.clone()));
+        w.set_chapter(Some(chapter.num.clone()));
         v.push(w)
       }
     }
@@ -252,16 +252,16 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
+fn article_list_from_section(section: &Section) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in section.children.iter() {
     match contents {
       SectionContents::Subsection(t) => {
         let mut v2 = article_list_from_subsection(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -272,7 +272,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -280,7 +280,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
       }
       SectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_section(Some(t.num.clone()));
+        w.set_section(Some(section.num.clone()));
         v.push(w)
       }
     }
@@ -289,16 +289,16 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
 }
 
 #[allow(clippy::too_many_arguments)]
-fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
+fn article_list_from_subsection(subsection: &Subsection) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in subsection.children.iter() {
     match contents {
       SubsectionContents::Division(t) => {
         let mut v2 = article_list_from_division(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_subsection(Some(t.num.clone()));
+            w.set_subsection(Some(subsection.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -306,7 +306,7 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
       }
       SubsectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_subsection(Some(t.num.clone()));
+        w.set_subsection(Some(subsection.num.clone()));
         v.push(w)
       }
     }
-- 
2.43.0


From 8187b48b4c4387699316fbd547d0887056c3683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 16/34] fix: set the article number of a heading entry

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6582825..19f4296 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -940,7 +940,7 @@ impl Toc {
     self.division_number = num;
   }
   pub fn set_article(&mut self, num: Option<ArticleNumber>) {
-    self.division_number = num;
+    self.article_number = num;
   }
   pub fn set_title(&mut self, title: Option<String>) {
     self.title = title;
-- 
2.43.0


From 0db7d2fd89188a17b6258863d450dde3c1e1fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 17/34] fix: do not carry article and chapter numbers over to
 later headings

---
 src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 19f4296..86644e9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1029,12 +1029,13 @@ fn toc_list_from_part(t: &Part) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       PartContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
         v.push(toc.clone());
       }
       PartContents::Chapter(t) => {
-        let mut toc_list = toc_list_from_chapter(t, &mut toc);
+        let mut toc_list = toc_list_from_chapter(t, &mut toc.clone());
         v.append(&mut toc_list);
       }
     }
@@ -1051,6 +1052,7 @@ fn toc_list_from_chapter(t: &Chapter, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       ChapterContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
         v.push(toc.clone());
@@ -1073,6 +1075,7 @@ fn toc_list_from_section(t: &Section, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
         v.push(toc.clone());
@@ -1099,6 +1102,7 @@ fn toc_list_from_subsection(t: &Subsection, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SubsectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
         v.push(toc.clone());
@@ -1119,6 +1123,7 @@ fn toc_list_from_division(t: &Division, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.division_title.to_string()));
   v.push(toc.clone());
   for t in t.children.iter() {
+    let mut toc = toc.clone();
     toc.set_article(Some(t.num.clone()));
     toc.set_title(Some(t.title.to_string()));
     v.push(toc.clone());
-- 
2.43.0


From 17b6e5fcc533e493e6bdb0e2f7d77b408bace0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:05 +0000
Subject: [PATCH 18/34] fix: keep the text of tables in subitems of level 6

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 86644e9..daa662f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -629,7 +629,7 @@ fn text_list_from_subitem6(
         })
         .collect::<Vec<_>>()
         .join(" "),
-      SentenceOrColumnOrTable::Table(_) => String::new(),
+      SentenceOrColumnOrTable::Table(table) => table_to_str(table),
     };
     v.push((
       TextIndex {
-- 
2.43.0


From 27e3050a253d2ec57b4d7458b6c5e5112a24670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:56 +0000
Subject: [PATCH 19/34] fix: upper and lower case roman items in parentheses
 were swapped

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 22b4075..a2e1cef 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -397,10 +397,10 @@ impl ItemPattern {
       }
       ItemPattern::ParenZenkakuNum => format!("（{}）", to_zenkaku_num(n)),
       ItemPattern::ParenZenkakuRomanUpper => {
-        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
       }
       ItemPattern::ParenZenkakuRomanLower => {
-        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
       }
       ItemPattern::ParenZenkakuUpper => {
         format!("（{}）", to_zenkaku_alphabet_upper(n))
-- 
2.43.0


From 8287c921f41685d636e99d4c7af27752a100b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:57 +0000
Subject: [PATCH 20/34] fix: roman item numbers containing V were not converted

---
 src/article_number.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/article_number.rs b/src/article_number.rs
index a2e1cef..cfb9261 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -863,14 +863,17 @@ fn parse_roman(str: &str) -> Option<usize> {
   roman::from(
     &str
       .replace('i', "I")
+      .replace('v', "V")
       .replace('x', "X")
       .replace('l', "L")
       .replace('c', "C")
       .replace('ｉ', "I")
+      .replace('ｖ', "V")
       .replace('ｘ', "X")
       .replace('ｌ', "L")
       .replace('ｃ', "C")
       .replace('Ｉ', "I")
+      .replace('Ｖ', "V")
       .replace('Ｘ', "X")
       .replace('Ｌ', "L")
       .replace('Ｃ', "C"),
@@ -881,6 +884,7 @@ fn parse_roman(str: &str) -> Option<usize> {
 fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "Ｉ")
+      .replace('V', "Ｖ")
       .replace('X', "Ｘ")
       .replace('L', "Ｌ")
       .replace('C', "Ｃ")
@@ -890,6 +894,7 @@ fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
 fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "ｉ")
+      .replace('V', "ｖ")
       .replace('X', "ｘ")
       .replace('L', "ｌ")
       .replace('C', "ｃ")
-- 
2.43.0


From 2edfcfb5f3820c6534c54d32255a593945dfa300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 21/34] fix: alphabet item numbers panicked when rendered and
 were ambiguous when read

---
 src/article_number.rs | 56 +++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index cfb9261..42d9935 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -902,41 +902,41 @@ fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
 }
 
 fn parse_zenkaku_alphabet(str: &str) -> Option<usize> {
-  let s = str
-    .chars()
-    .map(|c| {
-      let v = c as u32;
-      let n =
-    // 大文字
-    if v < 0xFF41 {
-      v - 0xFF20
-    } else {
-      v - 0xFF40
+  let mut n: usize = 0;
+  for c in str.chars() {
+    let d = match c {
+      // 大文字
+      'Ａ'..='Ｚ' => c as usize - 0xFF20,
+      // 小文字
+      'ａ'..='ｚ' => c as usize - 0xFF40,
+      _ => return None,
     };
-      n.to_string()
-    })
-    .collect::<String>();
-  s.parse::<usize>().ok()
+    n = n.checked_mul(26)?.checked_add(d)?;
+  }
+  if n == 0 {
+    None
+  } else {
+    Some(n)
+  }
+}
+
+fn to_zenkaku_alphabet(n: usize, first: char) -> String {
+  let mut cs = Vec::new();
+  let mut n = n;
+  while n > 0 {
+    let d = ((n - 1) % 26) as u32;
+    cs.push(char::from_u32(first as u32 + d).unwrap());
+    n = (n - 1) / 26;
+  }
+  cs.iter().rev().collect::<String>()
 }
 
 fn to_zenkaku_alphabet_upper(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF20, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 'Ａ')
 }
 
 fn to_zenkaku_alphabet_lower(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF40, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 'ａ')
 }
 
 #[test]
-- 
2.43.0


From d52c667b7d89babda0bc2ab67f9998a0f3d0df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 22/34] fix: a letter sequence is a roman numeral only if all
 its letters are roman digits

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 42d9935..9e4647f 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -442,7 +442,7 @@ impl ItemPattern {
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
   let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン]+)|(?<paren_iroha_hiragana>[あ-ん]+)|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン]+)|(?<no_paren_iroha_hiragana>[あ-ん]+)|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
-  let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
+  let re_is_roman = Regex::new(r"^[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+$").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
       (
-- 
2.43.0


From fa6e767202256d87c53460d960563e643611d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 23/34] fix: reading an item number that has no value panicked

---
 src/article_number.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 9e4647f..90d33d7 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -447,35 +447,35 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
       (
         ParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
+        parse_iroha_katakana(s.as_str())?,
       )
     } else if let Some(s) = caps.name("paren_iroha_hiragana") {
       (
         ParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
+        parse_iroha_hiragana(s.as_str())?,
       )
     } else if let Some(s) = caps.name("paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (ParenKansuji, n as usize)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
-      (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
         (
           ParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
+          parse_zenkaku_alphabet(s.as_str())?,
         )
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
         (
           ParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
+          parse_zenkaku_alphabet(s.as_str())?,
         )
       }
     }
@@ -483,35 +483,35 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
     else if let Some(s) = caps.name("no_paren_iroha_katakana") {
       (
         NoParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
+        parse_iroha_katakana(s.as_str())?,
       )
     } else if let Some(s) = caps.name("no_paren_iroha_hiragana") {
       (
         NoParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
+        parse_iroha_hiragana(s.as_str())?,
       )
     } else if let Some(s) = caps.name("no_paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (NoParenKansuji, n as usize)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
-      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
         (
           NoParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
+          parse_zenkaku_alphabet(s.as_str())?,
         )
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
         (
           NoParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
+          parse_zenkaku_alphabet(s.as_str())?,
         )
       }
     } else {
-- 
2.43.0


From 1533423040eafba02b67db5cbc9d6f3c356b059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 24/34] fix: the end of an item number range was ignored

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 90d33d7..8c94da6 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -583,12 +583,12 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
-      if let Some(m) = &caps.name("base_number_2") {
+      if let Some(m) = &caps.name("base_number2") {
         if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
           range_end_numbers.push(base_number2);
         }
       }
-      if let Some(m) = &caps.name("eda_number_2") {
+      if let Some(m) = &caps.name("eda_numbers2") {
         let eda_numbers2 = &m
           .as_str()
           .split('の')
-- 
2.43.0


From 4fec470e11cb4a4dfb67864338e83a3dc3e8a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 25/34] fix: reading an article number too large for usize
 panicked

---
 src/article_number.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 8c94da6..a9deb78 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -223,7 +223,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
   if let Some(caps) = re_article.captures(str) {
     // 編-条
     let base_number = if let Some(arabic_num) = caps.name("arabic_num") {
-      arabic_num.as_str().parse::<usize>().unwrap()
+      arabic_num.as_str().parse::<usize>().ok()?
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
@@ -255,7 +255,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     }
     let mut range_end_numbers = Vec::new();
     if let Some(arabic_num) = caps.name("arabic_num_2") {
-      range_end_numbers.push(arabic_num.as_str().parse::<usize>().unwrap())
+      range_end_numbers.push(arabic_num.as_str().parse::<usize>().ok()?)
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
@@ -291,19 +291,19 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     let base_number = if let Ok(n) = &caps["num"].parse::<usize>() {
       *n
     } else {
-      parse_zenkaku_num(&caps["num"]).unwrap()
+      parse_zenkaku_num(&caps["num"])?
     };
-    let eda_numbers = &caps["eda_str"]
+    let eda_numbers = caps["eda_str"]
       .split('の')
       .filter(|s| !s.is_empty())
       .map(|s| {
         if let Ok(n) = s.parse::<usize>() {
-          n
+          Some(n)
         } else {
-          parse_zenkaku_num(s).unwrap()
+          parse_zenkaku_num(s)
         }
       })
-      .collect::<Vec<usize>>();
+      .collect::<Option<Vec<usize>>>()?;
     let mut range_end_numbers = Vec::new();
     if let Some(m) = caps.name("num_2") {
       if let Ok(n) = m.as_str().parse::<usize>() {
@@ -314,7 +314,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     }
     Some(ArticleNumber {
       base_number,
-      eda_numbers: eda_numbers.clone(),
+      eda_numbers,
       range_end_numbers,
     })
   } else {
-- 
2.43.0


From 11c326d186f159aa026f67ce5f07e77502d5f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:05 +0000
Subject: [PATCH 26/34] =?UTF-8?q?fix:=20=E3=83=8E=20between=20branch=20num?=
 =?UTF-8?q?bers=20was=20read=20only=20before=20a=20range?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index a9deb78..0224d29 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -266,7 +266,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
         .as_str()
-        .split('の')
+        .split(['の', 'ノ'])
         .filter(|s| !s.is_empty())
         .collect::<Vec<_>>();
       for s in eda_numbers_2.iter() {
@@ -294,7 +294,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
       parse_zenkaku_num(&caps["num"])?
     };
     let eda_numbers = caps["eda_str"]
-      .split('の')
+      .split(['の', 'ノ'])
       .filter(|s| !s.is_empty())
       .map(|s| {
         if let Ok(n) = s.parse::<usize>() {
-- 
2.43.0


From 63521aec89dbdcb0b8b780ca512a7ced2f79b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:06 +0000
Subject: [PATCH 27/34] fix: branch numbers of the end of a paragraph range
 were dropped

---
 src/article_number.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/article_number.rs b/src/article_number.rs
index 0224d29..0b990e6 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -312,6 +312,19 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         range_end_numbers.push(parse_zenkaku_num(m.as_str())?);
       }
     }
+    if let Some(m) = caps.name("eda_str_2") {
+      for s in m
+        .as_str()
+        .split(['の', 'ノ'])
+        .filter(|s| !s.is_empty())
+      {
+        if let Ok(n) = s.parse::<usize>() {
+          range_end_numbers.push(n);
+        } else {
+          range_end_numbers.push(parse_zenkaku_num(s)?);
+        }
+      }
+    }
     Some(ArticleNumber {
       base_number,
       eda_numbers,
-- 
2.43.0


From 561bde62a0ac04b5977bb4a615c17f0d35dabef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:31 +0000
Subject: [PATCH 28/34] =?UTF-8?q?fix:=20a=20=E9=99=84=E5=89=87=20line=20wa?=
 =?UTF-8?q?s=20not=20passed=20over=20when=20reading=20a=20text?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/parse_from_text.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index af25bc6..29cd8bf 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -808,6 +808,9 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         }
       }
       LineContents::SupplProvision(law_num) => {
+        lines.next();
+        caption_opt = None;
+        is_preamble = false;
         if let Some(amend_law_num) = suppl_provision_law_num_opt {
           if !suppl_provision_children.is_empty() {
             suppl_provision.push(suppl_provision::SupplProvision {
-- 
2.43.0


From 12d938706c2168b05540c62a69e7a6028ce29add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:31 +0000
Subject: [PATCH 29/34] fix: reading text directly under a heading never ended

---
 src/parse_from_text.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 29cd8bf..c908749 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -805,6 +805,17 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         if is_preamble {
           preamble_text_list.push(s.to_string());
           lines.next();
+        } else {
+          lines.next();
+          let num = ArticleNumber::from_num_str("1").unwrap();
+          let para = parse_paragraph(&num, s, &mut lines);
+          if suppl_provision_law_num_opt.is_some() {
+            suppl_provision_children
+              .push(suppl_provision::SupplProvisionChildrenElement::Paragraph(para))
+          } else {
+            main_provision_children.push(law::MainProvisionContents::Paragraph(para));
+          }
+          caption_opt = None;
         }
       }
       LineContents::SupplProvision(law_num) => {
-- 
2.43.0


From 08ef9e29e7b5916dc25096f809a478ce4c904994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:31 +0000
Subject: [PATCH 30/34] fix: a paragraph directly under a provision ended the
 reading

---
 src/parse_from_text.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index c908749..8669d7c 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -801,6 +801,18 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
+      LineContents::Paragraph(n, text) => {
+        lines.next();
+        let para = parse_paragraph(n, text, &mut lines);
+        if suppl_provision_law_num_opt.is_some() {
+          suppl_provision_children
+            .push(suppl_provision::SupplProvisionChildrenElement::Paragraph(para))
+        } else {
+          main_provision_children.push(law::MainProvisionContents::Paragraph(para));
+        }
+        caption_opt = None;
+        is_preamble = false;
+      }
       LineContents::Text(s) => {
         if is_preamble {
           preamble_text_list.push(s.to_string());
-- 
2.43.0


From 2b875a8722a854c449e4bf463cd3cff786a1aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:31 +0000
Subject: [PATCH 31/34] fix: returning over several item levels panicked

---
 src/parse_from_text.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 8669d7c..aa60fed 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -333,7 +333,7 @@ fn parse_subitem1(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -377,7 +377,7 @@ fn parse_subitem2(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -421,7 +421,7 @@ fn parse_subitem3(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -465,7 +465,7 @@ fn parse_subitem4(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -509,7 +509,7 @@ fn parse_subitem5(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -553,7 +553,7 @@ fn parse_subitem6(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -597,7 +597,7 @@ fn parse_subitem7(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -641,7 +641,7 @@ fn parse_subitem8(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -685,7 +685,7 @@ fn parse_subitem9(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -722,7 +722,7 @@ fn parse_subitem10(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
-- 
2.43.0


From f11318b22d92b6c5238758c0cca8ed562891040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:31 +0000
Subject: [PATCH 32/34] fix: an item after nested subitems was taken for a
 deeper level

---
 src/parse_from_text.rs | 47 +++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index aa60fed..11e2afd 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -258,7 +258,7 @@ fn parse_paragraph(
     }
     let mut subitem1 = Vec::new();
     if let Some(LineContents::Item(item_number_sub1, _)) = lines.peek() {
-      if item_number_sub1.pattern != item_number.pattern {
+      if item_number_sub1.pattern != item_number.pattern && item_number_sub1.base_number == 1 {
         subitem1 = parse_subitem1(item_number.pattern, item_number_sub1.pattern, lines);
       }
     }
@@ -313,7 +313,10 @@ fn parse_subitem1(
       }
       let mut subitem2 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
+        if item_number.pattern != now_pat
+          && item_number.pattern != parent_pattern
+          && item_number.base_number == 1
+        {
           subitem2 = parse_subitem2(now_pat, item_number.pattern, lines);
         }
       }
@@ -357,7 +360,10 @@ fn parse_subitem2(
       }
       let mut subitem3 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
+        if item_number.pattern != now_pat
+          && item_number.pattern != parent_pattern
+          && item_number.base_number == 1
+        {
           subitem3 = parse_subitem3(now_pat, item_number.pattern, lines);
         }
       }
@@ -401,7 +407,10 @@ fn parse_subitem3(
       }
       let mut subitem4 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
+        if item_number.pattern != now_pat
+          && item_number.pattern != parent_pattern
+          && item_number.base_number == 1
+        {
           subitem4 = parse_subitem4(now_pat, item_number.pattern, lines);
         }
       }
@@ -445,7 +454,10 @@ fn parse_subitem4(
       }
       let mut subitem5 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
+        if item_number.pattern != now_pat
+          && item_number.pattern != parent_pattern
+          && item_number.base_number == 1
+        {
           subitem5 = parse_subitem5(now_pat, item_number.pattern, lines);
         }
       }
@@ -489,7 +501,10 @@ fn parse_subitem5(
       }
       let mut subitem6 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
+        if item_number.pattern != now_pat
+          && item_number.pattern != parent_pattern
+          && item_number.base_number == 1
+        {
           subitem6 = parse_subitem6(now_pat, item_number.pattern, lines);
         }
       }
@@ -533,7 +548,10 @@ fn parse_subitem6(
       }
       let mut subitem7 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
+        if item_number.pattern != now_pat
+          && item_number.pattern != parent_pattern
+          && item_number.base_number == 1
+        {
           subitem7 = parse_subitem7(now_pat, item_number.pattern, lines);
         }
       }
@@ -577,7 +595,10 @@ fn parse_subitem7(
       }
       let mut subitem8 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
+        if item_number.pattern != now_pat
+          && item_number.pattern != parent_pattern
+          && item_number.base_number == 1
+        {
           subitem8 = parse_subitem8(now_pat, item_number.pattern, lines);
         }
       }
@@ -621,7 +642,10 @@ fn parse_subitem8(
       }
       let mut subitem9 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
+        if item_number.pattern != now_pat
+          && item_number.pattern != parent_pattern
+          && item_number.base_number == 1
+        {
           subitem9 = parse_subitem9(now_pat, item_number.pattern, lines);
         }
       }
@@ -665,7 +689,10 @@ fn parse_subitem9(
       }
       let mut subitem10 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
+        if item_number.pattern != now_pat
+          && item_number.pattern != parent_pattern
+          && item_number.base_number == 1
+        {
           subitem10 = parse_subitem10(now_pat, item_number.pattern, lines);
         }
       }
-- 
2.43.0


From 328e66ee0ad393f79e2a19d41c2d69b2886a9c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:36 +0000
Subject: [PATCH 33/34] =?UTF-8?q?fix:=20a=20=E9=99=84=E5=89=87=20line=20wa?=
 =?UTF-8?q?s=20read=20as=20plain=20text?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/parse_from_text.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 11e2afd..001cd7e 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -994,9 +994,12 @@ fn parse_line_contents(line: &str) -> LineContents {
   let line = line.trim();
   let re_caption = Regex::new("^（(?<caption>[^）]+)）$").unwrap();
   let re_suppl_provision =
-    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?[^（）]*$").unwrap();
+    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?([　\s]*)抄?$").unwrap();
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
+  } else if let Some(caps) = re_suppl_provision.captures(line) {
+    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
+    SupplProvision(law_num)
   } else if let Some((s, text)) = split_number(line) {
     println!("{s}: {text}");
     if let Some(article_number) = article_number::parse_article_number(&s) {
@@ -1021,9 +1024,6 @@ fn parse_line_contents(line: &str) -> LineContents {
       println!("text!!!{s}: {text}");
       Text(line.to_string())
     }
-  } else if let Some(caps) = re_suppl_provision.captures(line) {
-    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
-    SupplProvision(law_num)
   } else {
     Text(line.to_string())
   }
-- 
2.43.0


From d3ecf2e7bf4ff9011addd5223c3fe25cd2bc4a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 34/34] fix: a line without a space after its number lost its
 text

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 0b990e6..d90b3cb 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -537,7 +537,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
 }
 
 pub fn split_number(str: &str) -> Option<(String, String)> {
-  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]*(?<text>.+)$").unwrap();
+  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]+(?<text>.+)$").unwrap();
   re.captures(str).map(|caps| {
     let s = &caps["s"];
     let text = &caps["text"];
-- 
2.43.0

