//! Streams, maps, and what is read from them.

mod json;
mod stream;

fn main() -> std::process::ExitCode {
    mc::driver::main(&[
        ("I01", stream::i01),
        ("I02", stream::i02),
        ("I03", stream::i03),
        ("T01", json::t01),
        ("T02", json::t02),
        ("T03", json::t03),
        ("T04", json::t04),
        ("T05", json::t05),
    ])
}
