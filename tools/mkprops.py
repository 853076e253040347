import json
def P(id,title,stmt,qtext,why,files,mech,obs,over=("inputs",)):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[obs],hook_needed=None))
RT="Writing such a value as an XML element and reading that element back succeeds and yields an equal value: no field, attribute, child, order or text is lost, duplicated, renamed or moved."
WRT="The round-trip test in the suite needs a downloaded law corpus and never runs here; the running tests cover one text, one ruby and number parsing. The claim ranges over every value, every nesting depth and every list length."
def rt(id,title,what,files,mech):
    return P(id,title,what+" "+RT, "for every value of these types in the domain the format can express (every combination of optional fields, list lengths, nesting and text)", WRT, files, mech, "public XML writing and reading functions (parse_xml, to_xml) and the per-element reader/writer pair behind them")
ps=[
rt("C01","Law envelope survives writing and reading","A law's envelope - era, year, number, promulgation date, kind, language, law number, title with its reading and abbreviation, enactment statements, preamble, main provision and the order of everything in the body - is preserved by XML.",
   ["src/law.rs","src/lib.rs"],[("reader","law.rs: Parser for Law, LawBody, LawTitle, Preamble, MainProvision"),("writer","law.rs: ToXmlElement for the same types")]),
rt("C02","Part to Article hierarchy survives writing and reading","The hierarchy of parts, chapters, sections, subsections, divisions and articles, with numbers, titles, captions, deletion and hiding flags, paragraphs and notes, is preserved by XML.",
   ["src/article.rs"],[("reader","article.rs: Parser for Part, Chapter, Section, Subsection, Division, Article"),("writer","article.rs: ToXmlElement for the same types")]),
rt("C03","Paragraphs, items, subitems and lists survive writing and reading","Paragraphs, items, the ten levels of subitems, class definitions, columns and the list levels are preserved by XML, each at its own level and with its own sentence, number and flags.",
   ["src/paragraph.rs","src/class.rs","src/list.rs"],[("reader","paragraph.rs, class.rs, list.rs: Parser impls"),("writer","paragraph.rs, class.rs, list.rs: ToXmlElement impls")]),
rt("C04","Inline text survives writing and reading","Sentences and inline text - strings, ruby with its reading, superscripts, subscripts, lines with their style, formulas, quotations and mixed contents in any order - are preserved by XML.",
   ["src/text.rs","src/sentence.rs","src/line.rs","src/contents.rs","src/fig.rs","src/class.rs"],[("reader","text.rs, sentence.rs, line.rs, contents.rs, fig.rs: Parser impls"),("writer","the ToXmlElement impls of the same files")]),
rt("C05","Tables, figures, remarks and other structures survive writing and reading","Tables with header rows, rows and columns (borders, spans, alignment), figure, style, format, note and table structures with titles and with remarks before and after the main part are preserved by XML.",
   ["src/table.rs","src/structs.rs","src/remarks.rs"],[("reader","table.rs, structs.rs, remarks.rs: Parser impls"),("writer","the ToXmlElement impls of the same files")]),
rt("C06","Appendices, supplementary and amending provisions survive writing and reading","Appended tables, notes, styles, formats, figures and formulas, supplementary provisions with their own appendices, and amending provisions with every kind of new provision are preserved by XML.",
   ["src/appdx.rs","src/suppl_provision.rs","src/law.rs"],[("reader","appdx.rs, suppl_provision.rs, law.rs (AmendProvision): Parser impls"),("writer","the ToXmlElement impls of the same files")]),
rt("C07","Table of contents survives writing and reading","A table of contents - labels, parts, chapters, sections, subsections, divisions, articles, article ranges, the supplementary-provision entry and appendix labels - is preserved by XML.",
   ["src/table_of_contents.rs"],[("reader","table_of_contents.rs: Parser impls"),("writer","table_of_contents.rs: ToXmlElement impls")]),
P("C08","Reading is exact: accepted documents are represented completely",
  "For every element tree, reading an element succeeds exactly when its tag, required attributes, attribute values, required children and child tags are those the standard allows there, and the value then holds every child and attribute the tree has, once, in document order, in the field for its tag. Anything unknown, missing or malformed is an error, never silently dropped or replaced - except in the places where the library is deliberately lenient: inline text and preambles, table rows and the remarks around a structure skip children they do not know, of repeated single-valued children the last counts, attributes with a default (table borders and alignment, writing mode) fall back to it.",
  "for every element tree, valid or not, of any depth and width", "The tests read a handful of snippets; acceptance, rejection and order matter for every tree, including malformed ones that no test contains.",
  ["src/law.rs","src/article.rs","src/paragraph.rs","src/class.rs","src/list.rs","src/sentence.rs","src/text.rs","src/line.rs","src/contents.rs","src/table.rs","src/structs.rs","src/remarks.rs","src/appdx.rs","src/suppl_provision.rs","src/table_of_contents.rs","src/fig.rs"],
  [("readers","Parser impls in every module"),("attribute helpers","lib.rs: get_attribute*")], "parse_xml result (value or error)"),
P("C09","Writing emits exactly the standard's vocabulary, in order",
  "For every value, the written element carries the tag name, attribute names and attribute values that the law standard XML prescribes for that kind of value, has one child per component in the prescribed order under the prescribed tags, and contains nothing else.",
  "for every value of every type that can be written", "No test checks a written document; a wrong tag or attribute name only shows for values that use that field.",
  ["src/law.rs","src/article.rs","src/paragraph.rs","src/class.rs","src/list.rs","src/sentence.rs","src/text.rs","src/line.rs","src/contents.rs","src/table.rs","src/structs.rs","src/remarks.rs","src/appdx.rs","src/suppl_provision.rs","src/table_of_contents.rs","src/fig.rs"],
  [("writers","ToXmlElement / ToXmlElementWithName impls in every module"),("number rendering","article_number.rs: num_str")], "to_xml output"),
P("C10","Reading XML never panics and always terminates",
  "For every element tree, however malformed, incomplete or strange, reading it as a law ends and returns either a value or an error; it never panics and never loops.",
  "for every element tree", "Panics sit on paths that only malformed or unusual input reaches (missing children or attributes, wrong node kinds, odd numbers); the tests contain none of those.",
  ["src/law.rs","src/article.rs","src/list.rs","src/structs.rs","src/text.rs","src/article_number.rs"],[("readers","every Parser impl and the helpers they call")], "parse_xml returning at all"),
P("C11","Article numbers round-trip through the Num attribute form",
  "Every article number - with any branch numbers and any range end - rendered in the underscore and colon form used by the Num attribute parses back to the same number. Parsing accepts exactly the strings made of numbers joined by underscores, with at most one colon before the range end (a number is what the integer parser of Rust reads as a 64-bit unsigned value), gives exactly the numbers written there, and rejects everything else with an error; neither direction panics.",
  "for every article number and every string", "The tests check no Num string at all; the interplay of branch numbers and range ends needs all combinations.",
  ["src/article_number.rs"],[("rendering","article_number.rs: num_str"),("parsing","article_number.rs: from_num_str")], "Num attribute written and read back"),
P("C12","Article numbers keep their meaning in Japanese text form",
  "The Japanese text of a part, chapter, section, subsection, division or article number is 第, the base number in kanji numerals, the unit, and each branch number after の, followed for a range by から, the end written the same way, and まで; a paragraph number is written likewise in full-width digits, without 第 and unit. Reading the text of any such number (1 to 9999 for kanji numerals, any for digits) gives back exactly that base number, those branch numbers and that range end. No text makes reading panic.",
  "for every article number and every text", "Tests check a few sample strings in one direction only; branch numbers, ranges and the reader's pattern interact for every combination of numbers.",
  ["src/article_number.rs"],[("rendering","article_number.rs: gen_articles_text, to_zenkaku_text, part_text ... article_text, paragraph_text"),("parsing","article_number.rs: parse_article_number")], "returned text and parsed numbers"),
P("C13","Item ordinals convert back and forth without loss",
  "For each style of item number (kanji numerals, iroha in katakana or hiragana, full-width digits, letters, roman numerals; upper or lower case; with or without parentheses) the text of a number within the style's range (kanji 1 to 9999, iroha 1 to 47, roman 1 to 399, letters from 1, any digits) is the style's own symbol for the base number and, after の, for each branch number, followed for a range by から, the end and まで. Reading that text gives back the number, branches, range end and style, except that letters made of i, v, x, l, c alone read as roman numerals and that iroha in hiragana is only read without branches and range. No text makes reading panic.",
  "for every ordinal style, every number in its range and every text", "The tests try two letters; each style has its own table and boundary, and the reader must tell sixteen styles apart.",
  ["src/article_number.rs"],[("tables and rendering","article_number.rs: to_*, item_text, ItemPattern"),("parsing","article_number.rs: parse_item_number, parse_item_number_base")], "rendered and parsed item labels"),
P("C14","Listing articles keeps every article with its true containers",
  "Listing the articles of a main or supplementary provision yields every article, wherever it is nested, exactly once, in document order, each tagged with the numbers of exactly the part, chapter, section, subsection and division that enclose it; the paragraphs standing directly under the provision are returned in document order, in one group (possibly empty) for each stretch before, between and after its direct articles and containers.",
  "for every provision: any nesting, any mix of containers and articles", "No test calls these functions; wrong tags or lost articles only show for particular nestings.",
  ["src/utils.rs"],[("enumeration","utils.rs: with_number_article_list_*, article_list_from_*")], "returned lists"),
P("C15","Listing headings keeps every heading with its true number path",
  "Listing the headings of a main or supplementary provision yields one entry for each part, chapter, section, subsection, division and article, exactly once and in document order, carrying its own title text and exactly the numbers of the units enclosing it and of itself.",
  "for every provision: any nesting, any mix of containers and articles", "No test calls these functions; stale or misplaced numbers only show for particular nestings and sequences.",
  ["src/utils.rs"],[("enumeration","utils.rs: toc_list_from_*")], "returned lists"),
P("C16","Plain text extraction loses and reorders nothing",
  "Extracting plain text from inline text, sentences, paragraphs, tables or articles yields the strings they contain in document order, none lost, repeated or moved: ruby gives its base text, superscripts and subscripts in a sentence read ^{..} and _{..}, formulas and quotations give the text inside them, lines and figures give nothing; sentences of an item's columns and the cells of a table row are joined by a space, table rows and a paragraph list's entries by a line break. The entries of a paragraph list are the paragraph and every item and subitem at every level, each exactly once, in document order, under the paragraph's number and the path of item numbers leading to it.",
  "for every text, sentence, paragraph and article value", "One unit test covers one paragraph shape; levels are ten near-copies that can go wrong one at a time.",
  ["src/text.rs","src/utils.rs"],[("text","text.rs: ToString impls"),("extraction","utils.rs: sentence_element_to_str, text_*_from_*, table_to_str")], "returned strings"),
P("C17","Reading plain text puts every line in its place and terminates",
  "Building a law from plain text ends for every text without panicking. In order, every line up to the first that has no place (款 outside 節, 目 outside 款, item outside a paragraph) becomes in the result an element of its kind with the line's number and text: a heading or article inside the headings still open, an article's caption from the caption line directly before it, sentences numbered from 1, each item or subitem at the level its numbering pattern gives, and lines after a 附則 line in that supplementary provision. Nothing else is in the result.",
  "for every text: any sequence of lines of any kind", "The tests parse one short document; termination, loss and misplacement concern every sequence of lines.",
  ["src/parse_from_text.rs"],[("line classifier","parse_from_text.rs: parse_line_contents"),("line list","parse_from_text.rs: LineContentsList"),("builder","parse_from_text.rs: parse_body and parse_*"),("law","parse_from_text.rs: parse_text")], "parse_text result"),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in ps))
for p in ps: assert p['statement'].count('. ')<=2,p['id']; assert len(p['title'])<=80
