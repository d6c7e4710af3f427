//! Minimal JSON value and writer (no dependencies).
use std::fmt::Write;
pub enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
pub fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
pub fn i<T: TryInto<i128>>(x: T) -> J { J::I(x.try_into().ok().unwrap()) }
impl J {
    pub fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(x) => { let _ = write!(o, "{x}"); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (k, x) in v.iter().enumerate() { if k > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (k, (n, x)) in v.iter().enumerate() { if k > 0 { o.push(','); } let _ = write!(o, "\"{n}\":"); x.w(o); } o.push('}'); }
        }
    }
}
