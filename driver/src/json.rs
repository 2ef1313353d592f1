use std::fmt;
pub enum J {
    Null,
    Bool(bool),
    Num(usize),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Raw(String),
}
impl J {
    pub fn s<S: Into<String>>(s: S) -> J {
        J::Str(s.into())
    }
    pub fn n(n: usize) -> J {
        J::Num(n)
    }
    pub fn arr(v: Vec<J>) -> J {
        J::Arr(v)
    }
    pub fn obj(v: Vec<(&'static str, J)>) -> J {
        J::Obj(v)
    }
}
fn esc(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    use fmt::Write;
    f.write_char('"')?;
    for c in s.chars() {
        match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            '\n' => f.write_str("\\n")?,
            '\r' => f.write_str("\\r")?,
            '\t' => f.write_str("\\t")?,
            c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
            c => f.write_char(c)?,
        }
    }
    f.write_char('"')
}
impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Null => f.write_str("null"),
            J::Bool(b) => write!(f, "{}", b),
            J::Num(n) => write!(f, "{}", n),
            J::Str(s) => esc(s, f),
            J::Raw(s) => f.write_str(s),
            J::Arr(v) => {
                f.write_str("[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "{}", x)?;
                }
                f.write_str("]")
            }
            J::Obj(v) => {
                f.write_str("{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    esc(k, f)?;
                    f.write_str(":")?;
                    write!(f, "{}", x)?;
                }
                f.write_str("}")
            }
        }
    }
}
