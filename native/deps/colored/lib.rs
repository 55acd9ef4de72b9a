//! Stand-in for `colored`: no colour is ever applied (as when stdout is not a terminal).
use std::{fmt, ops::Deref};
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl fmt::Display for ColoredString { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
macro_rules! c { ($($n:ident)*) => {
pub trait Colorize { $(fn $n(self) -> ColoredString where Self: Sized;)* }
impl<'a> Colorize for &'a str { $(fn $n(self) -> ColoredString { ColoredString(self.to_string()) })* }
impl Colorize for ColoredString { $(fn $n(self) -> ColoredString { self })* }
}}
c!(black red green yellow blue magenta cyan white bright_black bright_red bright_green bright_yellow bright_blue bright_magenta bright_purple purple bright_cyan bright_white bold dimmed italic underline normal clear);
pub mod control { pub fn set_override(_: bool) {} pub fn unset_override() {} }
