//! Minimal JSON writer.
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr_str(xs: &[String]) -> String {
    format!("[{}]", xs.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}
pub struct Obj(Vec<String>);
impl Default for Obj {
    fn default() -> Self { Obj::new() }
}
impl Obj {
    pub fn new() -> Obj { Obj(Vec::new()) }
    pub fn str(&mut self, k: &str, v: &str) { self.0.push(format!("{}: {}", esc(k), esc(v))); }
    pub fn num(&mut self, k: &str, v: f64) { self.0.push(format!("{}: {}", esc(k), v)); }
    pub fn raw(&mut self, k: &str, v: &str) { self.0.push(format!("{}: {}", esc(k), v)); }
    pub fn done(&self) -> String { format!("{{{}}}", self.0.join(", ")) }
}
