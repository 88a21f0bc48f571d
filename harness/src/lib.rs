//! Property-based testing engine: choice-sequence generation, parallel fixed
//! work runs, universal shrinking, replay files, crash isolation, evidence.

pub mod gen;
pub mod alloc_meter;
pub mod run;
pub mod sha256_ref;
pub mod jsonref;
pub mod sigref;
pub mod mapio;

pub use gen::G;
pub use run::{main, sanitized, Facet, Property};

/// Outcome of one case: `Err` describes a violation.
pub type Outcome = Result<(), String>;

/// Fail the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err($crate::fail(format_args!($($arg)+)));
        }
    };
}

#[cold]
#[inline(never)]
pub fn fail(what: core::fmt::Arguments<'_>) -> String {
    what.to_string()
}

#[cold]
#[inline(never)]
pub fn fail_eq(what: core::fmt::Arguments<'_>, got: &dyn core::fmt::Debug, expected: &dyn core::fmt::Debug) -> String {
    format!("{}: got {:?}, expected {:?}", what, got, expected)
}

/// Fail the case unless both sides are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err($crate::fail_eq(format_args!($($arg)+), a, b));
                }
            },
        }
    };
}
