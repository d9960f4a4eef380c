//! Checks S01-S14: the smtp-server crate.
mod checks;
mod world;

use mcore::{Check, Tier};

fn main() {
    let table: &[(&str, fn(Tier) -> Check)] = &[
        ("S01", checks::s01),
        ("S02", checks::s02),
        ("S03", checks::s03),
        ("S04", checks::s04),
        ("S05", checks::s05),
        ("S06", checks::s06),
        ("S07", checks::s07),
        ("S08", checks::s08),
        ("S09", checks::s09),
        ("S10", checks::s10),
        ("S11", checks::s11),
        ("S12", checks::s12),
        ("S13", checks::s13),
        ("S14", checks::s14),
    ];
    mcore::main(table)
}
