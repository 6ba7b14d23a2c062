//! Different content at the same place, one after the other, in one process.
use serde_json::Value;
use std::fs::rename;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Runs f with what lies at `from` moved to `place` (if one is given), and moves it back.
pub fn placed<T>(from: &str, place: &Value, f: impl FnOnce(&str) -> T) -> T {
    let place = match place.as_str() {
        None => return f(from),
        Some(p) => p,
    };
    let there = rename(from, place).is_ok(); // there may be nothing to move
    let got = catch_unwind(AssertUnwindSafe(|| f(place)));
    if there {
        rename(place, from).unwrap();
    }
    got.unwrap_or_else(|e| resume_unwind(e))
}
