from common import *
ID="s09-division-hide"; PROPERTY="C09"
NEEDS="a division with Hide set; reader and writer were changed together, so the round trip still works"
BREAKS="the Hide attribute of a division is written and read under another name"
EDITS=[("src/article.rs",'''    if element.name.as_str() == "Division" {
      let num_str = get_attribute(element, "Num")?;
      let num = ArticleNumber::from_num_str(&num_str)?;
      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
      let hide = get_attribute_opt_with_parse(element, "Hide")?''','''    if element.name.as_str() == "Division" {
      let num_str = get_attribute(element, "Num")?;
      let num = ArticleNumber::from_num_str(&num_str)?;
      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
      let hide = get_attribute_opt_with_parse(element, "Hidden")?'''),
 ("src/article.rs",'''        .insert("Hide".to_string(), self.hide.to_string());
    }
    e
  }
}

/// 条
''','''        .insert("Hidden".to_string(), self.hide.to_string());
    }
    e
  }
}

/// 条
''')]
DEMO=HEAD+r'''fn main() {
 let b = "<Chapter Num=\"1\"><ChapterTitle>c</ChapterTitle><Section Num=\"1\"><SectionTitle>s</SectionTitle><Division Num=\"1\" Hide=\"true\"><DivisionTitle>d</DivisionTitle></Division></Section></Chapter>";
 let l = read(b).unwrap();
 assert!(to_xml(&l).unwrap().contains("Hide=\"true\""));
}'''
