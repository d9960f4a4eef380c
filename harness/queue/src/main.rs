//! Checks Q01-Q06: the queue runner.
mod checks;
mod world;

use mcore::{Check, Tier};

fn main() {
    let table: &[(&str, fn(Tier) -> Check)] = &[
        ("Q01", checks::q01),
        ("Q02", checks::q02),
        ("Q03", checks::q03),
        ("Q04", checks::q04),
        ("Q05", checks::q05),
        ("Q06", checks::q06),
    ];
    mcore::main(table)
}
