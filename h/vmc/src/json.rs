//! Minimal JSON writer.
pub enum J {
    Int(u64),
    Num(f64),
    Bool(bool),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, 0);
        s.push('\n');
        s
    }
    fn w(&self, s: &mut String, ind: usize) {
        match self {
            J::Int(i) => s.push_str(&i.to_string()),
            J::Num(n) => s.push_str(&format!("{n}")),
            J::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            J::Str(t) => quote(t, s),
            J::Arr(a) => {
                s.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    nl(s, ind + 1);
                    x.w(s, ind + 1);
                }
                if !a.is_empty() {
                    nl(s, ind);
                }
                s.push(']');
            }
            J::Obj(o) => {
                s.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    nl(s, ind + 1);
                    quote(k, s);
                    s.push_str(": ");
                    x.w(s, ind + 1);
                }
                if !o.is_empty() {
                    nl(s, ind);
                }
                s.push('}');
            }
        }
    }
}

fn nl(s: &mut String, ind: usize) {
    s.push('\n');
    for _ in 0..ind {
        s.push(' ');
    }
}

pub fn quote(t: &str, s: &mut String) {
    s.push('"');
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '\t' => s.push_str("\\t"),
            c if (c as u32) < 0x20 => s.push_str(&format!("\\u{:04x}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
}
