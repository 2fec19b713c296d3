//! A minimal JSON value and writer.
#[derive(Clone, Debug)]
pub enum J {
    B(bool),
    I(i128),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn s(s: &str) -> J {
        J::S(s.to_string())
    }
    pub fn n(n: u64) -> J {
        J::I(n as i128)
    }
    pub fn obj<const N: usize>(kv: [(&str, J); N]) -> J {
        J::O(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn arr<T: Copy + Into<u64>>(v: &[T]) -> J {
        J::A(v.iter().map(|x| J::n((*x).into())).collect())
    }
    pub fn d(x: impl std::fmt::Debug) -> J {
        J::S(format!("{x:?}"))
    }
    fn w(&self, o: &mut String) {
        match self {
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::F(f) => o.push_str(&format!("{f:.3}")),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = String::new();
        self.w(&mut s);
        f.write_str(&s)
    }
}
