from common import *
ID="s12-amend-lawnum"; PROPERTY="C06"
NEEDS="a supplementary provision of type New that names an amending law"
BREAKS="AmendLawNum is written only for supplementary provisions of type Amend"
EDITS=[("src/suppl_provision.rs",'''    if let Some(v) = &self.amend_law_num {
''','''    if let (Some(v), Some(SupplProvisionType::Amend) | None) = (&self.amend_law_num, &self.suppl_provision_type) {
''')]
DEMO=HEAD+r'''fn main() {
 let x = "<Law Era=\"Reiwa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>x</LawNum><LawBody><MainProvision></MainProvision><SupplProvision Type=\"New\" AmendLawNum=\"n\"><SupplProvisionLabel>x</SupplProvisionLabel></SupplProvision></LawBody></Law>";
 let l = parse_xml(x.as_bytes()).unwrap();
 let l2 = parse_xml(to_xml(&l).unwrap().as_bytes()).unwrap();
 assert!(l == l2);
}'''
