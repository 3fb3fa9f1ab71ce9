//! Stand-in for `colored` 2: no colours.
pub struct ColoredString(pub String);
impl std::fmt::Display for ColoredString { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::ops::Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.0 } }
macro_rules! cs { ($($n:ident),*) => {
pub trait Colorize { $(fn $n(self) -> ColoredString where Self: Sized;)* }
impl Colorize for &str { $(fn $n(self) -> ColoredString { ColoredString(self.to_string()) })* }
impl Colorize for ColoredString { $(fn $n(self) -> ColoredString { self })* }
} }
cs!(black, red, green, yellow, blue, magenta, cyan, white, bold, dimmed, italic, underline, normal, clear, bright_red, bright_green, bright_yellow, bright_blue, bright_magenta, bright_cyan, purple);
