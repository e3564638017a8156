//! D-Bus signatures and data.

mod data;
mod sig;

fn main() -> std::process::ExitCode {
    mc::driver::main(&[
        ("D01", sig::d01),
        ("D02", sig::d02),
        ("D03", sig::d03),
        ("D04", sig::d04),
        ("D05", data::d05),
        ("D06", data::d06),
        ("D07", data::d07),
        ("D08", data::d08),
        ("D09", sig::d09),
    ])
}
