pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
pub fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
pub fn i<T: TryInto<i128>>(x: T) -> J { J::I(x.try_into().ok().unwrap_or(0)) }
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => o.push_str(&n.to_string()),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                o.push_str(&format!("\\u{:04x}", u));
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 { o.push(','); }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 { o.push(','); }
                    o.push('"');
                    o.push_str(n);
                    o.push_str("\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
