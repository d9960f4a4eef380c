//! Checks M01-M20: the smtp-message crate.
mod data;
mod misc;
mod parse;

use mcore::{Check, Tier};

fn main() {
    let table: &[(&str, fn(Tier) -> Check)] = &[
        ("M01", data::m01),
        ("M02", data::m02),
        ("M03", data::m03),
        ("M04", data::m04),
        ("M05", data::m05),
        ("M06", data::m06),
        ("M07", data::m07),
        ("M08", data::m08),
        ("M09", parse::m09),
        ("M10", parse::m10),
        ("M11", parse::m11),
        ("M12", parse::m12),
        ("M13", parse::m13),
        ("M14", parse::m14),
        ("M15", misc::m15),
        ("M16", misc::m16),
        ("M17", parse::m17),
        ("M18", misc::m18),
        ("M19", misc::m19),
        ("M20", misc::m20),
    ];
    mcore::main(table)
}
