//! The tracing facade with every macro expanding to nothing.  Trace output is what the
//! extraction drops: field expressions are not evaluated.

pub struct Span;
impl Span {
    #[inline(always)]
    pub fn enter(&self) -> Entered { Entered }
    #[inline(always)]
    pub fn entered(self) -> Entered { Entered }
    #[inline(always)]
    pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T { f() }
}
pub struct Entered;

#[macro_export]
macro_rules! trace { ($($t:tt)*) => { () }; }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { () }; }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { () }; }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { () }; }
#[macro_export]
macro_rules! error { ($($t:tt)*) => { () }; }
#[macro_export]
macro_rules! event { ($($t:tt)*) => { () }; }
#[macro_export]
macro_rules! trace_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
