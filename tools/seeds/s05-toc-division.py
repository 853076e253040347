from common import *
ID="s05-toc-division"; PROPERTY="C15"
NEEDS="a section with a division followed by another heading in the same section"
BREAKS="headings after a division keep that division's number"
EDITS=[("src/utils.rs",'''        let mut toc_list = toc_list_from_division(t, &mut toc.clone());
        v.append(&mut toc_list);
      }
    }
  }
  v
}

fn toc_list_from_subsection''','''        let mut toc_list = toc_list_from_division(t, toc);
        v.append(&mut toc_list);
      }
    }
  }
  v
}

fn toc_list_from_subsection''')]
DEMO=HEAD+r'''fn main() {
 let art = |n: u32| format!("<Article Num=\"{n}\"><ArticleTitle>a{n}</ArticleTitle>{}</Article>", para(""));
 let b = format!("<Section Num=\"1\"><SectionTitle>s</SectionTitle><Division Num=\"7\"><DivisionTitle>d</DivisionTitle>{}</Division>{}</Section>", art(1), art(2));
 let l = read(&format!("<Chapter Num=\"1\"><ChapterTitle>c</ChapterTitle>{b}</Chapter>")).unwrap();
 let t = utils::toc_list_from_main_provision(&l.law_body.main_provision);
 let last = t.last().unwrap();
 assert_eq!(last.get_title().as_deref(), Some("a2"));
 assert!(last.get_division().is_none(), "{last:?}");
}'''
