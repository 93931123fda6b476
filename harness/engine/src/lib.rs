pub mod fp;
pub mod gen;
pub mod json;
pub mod nat;
pub mod runner;

pub use fp::Fp;
pub use gen::Gen;
pub use nat::{Mod, Nat};
pub use runner::{fail, known, run_main, CaseResult, Facet, Failure, Property};

/// Fail the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return $crate::fail(format!($($arg)+));
        }
    };
}

/// Fail the case unless both sides are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let a = &$a;
        let b = &$b;
        if !(*a == *b) {
            return $crate::fail(format!(
                "{}: code gives {:?}, oracle gives {:?}",
                format!($($arg)+), a, b
            ));
        }
    }};
}

/// Run code under test, turning a panic into Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| runner::panic_text(&e))
}
