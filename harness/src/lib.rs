//! Shared machinery of the property checks. See /verif/DESIGN.md.
pub mod child;
pub mod drive;
pub mod elem;
pub mod engine;
pub mod ledger;
pub mod model;
pub mod ops;

pub use elem::*;
pub use engine::{Cx, R, Src, Suite, main_entry};
pub use model::*;

/// `Err(format!(..))` unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}
