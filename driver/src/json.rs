//! Minimal JSON value + writer (the driver has no dependencies).
use std::fmt::Write;

pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Map(Vec<(String, J)>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::Bool(s)
    }
}
impl From<usize> for J {
    fn from(s: usize) -> J {
        J::Num(s as i128)
    }
}
impl From<u32> for J {
    fn from(s: u32) -> J {
        J::Num(s as i128)
    }
}
impl From<Vec<J>> for J {
    fn from(s: Vec<J>) -> J {
        J::Arr(s)
    }
}
impl<T: Into<J>> From<Option<T>> for J {
    fn from(s: Option<T>) -> J {
        match s {
            Some(it) => it.into(),
            None => J::Null,
        }
    }
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => write!(out, "{n}").unwrap(),
            J::Str(s) => esc(s, out),
            J::Arr(v) => {
                out.push('[');
                for (i, it) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    it.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, it)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    it.write(out);
                }
                out.push('}');
            }
            J::Map(v) => {
                out.push('{');
                for (i, (k, it)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    it.write(out);
                }
                out.push('}');
            }
        }
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => {
        $crate::json::J::Obj(vec![$(($k, $crate::json::J::from($v))),*])
    };
}
