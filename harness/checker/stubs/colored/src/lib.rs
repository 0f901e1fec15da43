//! Stand-in for the crate `colored` (not available offline): texts without colors.
use std::fmt;
pub struct ColoredString(String);
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
macro_rules! all {
    ($($n:ident)*) => {
        pub trait Colorize: Sized {
            fn plain(self) -> ColoredString;
            $(fn $n(self) -> ColoredString { self.plain() })*
        }
    };
}
all!(red green blue yellow cyan magenta white black bright_red bright_blue bright_green bright_yellow bold dimmed italic underline clear normal);
impl Colorize for ColoredString {
    fn plain(self) -> ColoredString {
        self
    }
}
impl Colorize for &str {
    fn plain(self) -> ColoredString {
        ColoredString(self.into())
    }
}
pub mod control {
    pub fn set_override(_: bool) {}
}
