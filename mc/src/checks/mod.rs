use crate::engine::Check;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
pub mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;

pub static ALL: &[Check] = &[
    Check { id: "C01", run: c01::run, assumptions: COMMON },
    Check { id: "C02", run: c02::run, assumptions: COMMON },
    Check { id: "C03", run: c03::run, assumptions: COMMON },
    Check { id: "C04", run: c04::run, assumptions: COMMON },
    Check { id: "C05", run: c05::run, assumptions: COMMON },
    Check { id: "C06", run: c06::run, assumptions: COMMON },
    Check { id: "C07", run: c07::run, assumptions: COMMON },
    Check { id: "C08", run: c08::run, assumptions: COMMON },
    Check { id: "C09", run: c09::run, assumptions: COMMON },
    Check { id: "C10", run: c10::run, assumptions: COMMON },
    Check { id: "C11", run: c11::run, assumptions: COMMON },
    Check { id: "C12", run: c12::run, assumptions: COMMON },
    Check { id: "C13", run: c13::run, assumptions: COMMON },
    Check { id: "C14", run: c14::run, assumptions: COMMON },
    Check { id: "C15", run: c15::run, assumptions: COMMON },
    Check { id: "C16", run: c16::run, assumptions: COMMON },
    Check { id: "C17", run: c17::run, assumptions: COMMON },
    Check { id: "C18", run: c18::run, assumptions: COMMON },
    Check { id: "C19", run: c19::run, assumptions: COMMON },
    Check { id: "C20", run: c20::run, assumptions: COMMON },
    Check { id: "C21", run: c21::run, assumptions: COMMON },
    Check { id: "C22", run: c22::run, assumptions: COMMON },
    Check { id: "C23", run: c23::run, assumptions: COMMON },
    Check { id: "C24", run: c24::run, assumptions: COMMON },
    Check { id: "C25", run: c25::run, assumptions: COMMON },
    Check { id: "C26", run: c26::run, assumptions: COMMON },
    Check { id: "C27", run: c27::run, assumptions: COMMON },
    Check { id: "C28", run: c28::run, assumptions: COMMON },
];
pub const COMMON: &[&str] = &[
    "the reference model (eval.rs) and the Avro JSON reader (avroread.rs) state the specification's rules; they were bound to the code by replaying every enumerated model trace on it",
    "the library is exercised through its public entry points in release mode with overflow checks",
];
