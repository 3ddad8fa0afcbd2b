pub mod name_{{MOD}} {
use super::*;
//@ item src/headers/constants.rs const {{CONST}}
//@ item-rewrite "const" => "exec const"
//@ item-rewrite "HeaderName =" => "HeaderName ensures {{CONST}}.text() == \"{{TEXT}}\"@ {"
//@ item-rewrite ";" => "}"
pub struct {{T}} { x: u8 }
impl {{T}} {
//@ fn {{FILE}} <{{T}} as Header>::header_name
//@ bare
//@ ret r
ensures r.text() == "{{TEXT}}"@,
//@ end
}
}
