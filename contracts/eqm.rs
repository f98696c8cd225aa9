pub mod eqm {
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
pub broadcast axiom fn ax_string_ref_eq(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_string_ref_obeys() ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_str_eq(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_string_str_obeys() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_eq(a: String, b: String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_string_obeys() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
}
broadcast use eqm::ax_string_ref_eq;
broadcast use eqm::ax_string_ref_obeys;
broadcast use eqm::ax_string_str_eq;
broadcast use eqm::ax_string_str_obeys;
broadcast use eqm::ax_string_eq;
broadcast use eqm::ax_string_obeys;
