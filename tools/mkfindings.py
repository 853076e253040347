#!/usr/bin/env python3
"""rewrites known-findings.txt from PROP (commit subject -> property, what failed); KNOWN lists unrepaired defects"""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
 ("write the end of a number range once", "C11", "num_str wrote the first range-end number twice, or panicked without branch numbers"),
 ("do not panic on a Law element without", "C10", "reading <Law> without Num panicked (unwrap)"),
 ("read the line style", "C04", "Line Style=\"double\" was read as dotted"),
 ("write the label of Remarks", "C05", "RemarksLabel was not written"),
 ("write the Num attribute of ArithFormula", "C04", "ArithFormula lost its Num"),
 ("write Align and Valign of TableColumn", "C05", "TableColumn Align/Valign were written under wrong names"),
 ("write the preamble label of a TOC", "C07", "TOCPreambleLabel was written under another tag and could not be read back"),
 ("correct the tag name written for SupplProvisionAppdxTableTitle", "C06", "misspelt tag could not be read back"),
 ("write SupplProvisionAppdx and its", "C06", "SupplProvisionAppdx was written under another tag"),
 ("write the RelatedArticleNum of Appdx", "C06", "Appdx RelatedArticleNum was written under another tag"),
 ("write new provisions inside NewProvision", "C06", "new provisions were written under AmendProvisionSentence"),
 ("always write the required Num attribute of items", "C03", "items with an empty number were written without the required Num"),
 ("do not panic on an Article without", "C10", "reading an Article without Paragraph panicked"),
 ("reject a number string with more than one range", "C11", "\"1:2:3\" was accepted, the third part dropped"),
 ("tag listed articles with the numbers", "C14", "listed articles never got the numbers of the part, chapter, ... enclosing them (the tags were set on copies)"),
 ("set the article number of a heading", "C15", "Toc::set_article overwrote the division number"),
 ("do not carry article and chapter numbers", "C15", "headings after an article or a chapter kept that article's or chapter's number"),
 ("keep the text of tables in subitems of level 6", "C16", "a table in a level 6 subitem contributed no text"),
 ("upper and lower case roman items", "C13", "ParenZenkakuRomanUpper rendered lower case and ParenZenkakuRomanLower upper case"),
 ("roman item numbers containing V", "C13", "Ⅴ was not converted to its full-width letter"),
 ("alphabet item numbers panicked", "C13", "rendering the letter for a multiple of 26 panicked or gave the wrong letters; reading them disagreed"),
 ("a letter sequence is a roman numeral only", "C13", "a letter sequence containing any roman digit was taken for a roman numeral"),
 ("reading an item number that has no value", "C13", "reading a symbol without value (e.g. ン, 一一) panicked"),
 ("the end of an item number range", "C13", "から…まで of an item number was read as part of nothing; the range end stayed empty"),
 ("reading an article number too large", "C12", "reading more digits than fit usize panicked"),
 ("ノ between branch numbers", "C12", "ノ was not a separator for branch numbers outside ranges"),
 ("branch numbers of the end of a paragraph range", "C12", "２から３の４まで lost the 4"),
 ("a 附則 line was not passed over", "C17", "reading a 附則 line did not take it from the lines (endless loop once such lines are recognised)"),
 ("reading text directly under a heading", "C17", "a plain line directly under a part, chapter, section, ... heading (or before a provision) made the reading loop for ever"),
 ("a paragraph directly under a provision ended", "C17", "a paragraph line directly under the main or a supplementary provision ended the reading; the rest of the text was lost"),
 ("returning over several item levels", "C17", "a line returning over more than one subitem level panicked (subtraction overflow)"),
 ("an item after nested subitems", "C17", "an item or subitem after deeper subitems was placed a level too deep"),
 ("a 附則 line was read as plain text", "C17", "附則 lines were never recognised; the supplementary provisions became sentences of the main provision"),
 ("a line without a space after its number", "C17", "lines such as 第一章総則 or １この法律は lost their text"),
]
KNOWN = [
 "KNOWN-FINDING: property=C17 [caption] a caption line that is not directly before an article line is dropped, e.g. \"第一条　い\\n（あ）\\n２　い\"",
 "KNOWN-FINDING: property=C17 [empty-suppl] a 附則 line with nothing after it is dropped, e.g. \"第一条　い\\n附　則\"",
 "KNOWN-FINDING: property=C17 [part-after-suppl] a part, or a section outside a chapter, after a 附則 line goes to the main provision, e.g. \"第一条　い\\n附　則\\n第一編　う\\n第二条　え\"",
 "KNOWN-FINDING: property=C17 [first-word] a line whose first word begins with an article or paragraph number and goes on loses the rest of that word, e.g. \"第二条の規定 により\"",
]
if __name__ == "__main__":
  log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n")
  out = ["# 'fixed:' lines record repaired defects and suppress nothing; 'KNOWN-FINDING:' lines name unrepaired ones"]
  for l in reversed(log):
    if " fix: " not in l: continue
    h, s = l.split(" fix: ")
    m = [p for p in PROP if s.startswith(p[0])]
    assert m, s
    out.append("fixed: property=%s %s %s" % (m[0][1], h, m[0][2]))
  out += KNOWN
  open(os.path.join(ROOT, "known-findings.txt"), "w").write("\n".join(out) + "\n")
