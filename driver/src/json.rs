//! Minimal JSON value and writer; the driver has no external dependencies.

#[derive(Clone, Debug)]
pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(v) => o.push_str(if *v { "true" } else { "false" }),
            J::I(v) => o.push_str(&v.to_string()),
            J::S(v) => esc(v, o),
            J::A(v) => {
                o.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    e.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    e.write(o);
                }
                o.push('}');
            }
        }
    }
}

fn esc(v: &str, o: &mut String) {
    o.push('"');
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn s(v: impl ToString) -> J {
    J::S(v.to_string())
}
pub fn i(v: usize) -> J {
    J::I(v as i128)
}
pub fn a(v: Vec<J>) -> J {
    J::A(v)
}
