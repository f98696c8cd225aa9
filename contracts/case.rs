/// ASCII lower case
pub open spec fn lower_char(c: char) -> char { if 'A' <= c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_char(c)) }
pub trait VEqCase: View<V = Seq<char>> { fn veq_ignore_case(&self, o: &str) -> (r: bool) ensures r == (lower(self@) == lower(o@)); }
impl VEqCase for str {
    #[verifier::external_body]
    fn veq_ignore_case(&self, o: &str) -> (r: bool) { self.eq_ignore_ascii_case(o) }
}
