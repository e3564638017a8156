//! Checks of the code as it is without the standard library.

use mc::engine::*;
use mc::{ensure, uncaught};
use core::fmt::Write as _;
use osi::error::Uncaught;

/// Has neither a debug format nor an error to show.
struct Named(&'static str);

impl core::fmt::Display for Named {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        if self.0.is_empty() {
            return Err(core::fmt::Error);
        }
        f.write_str(self.0)
    }
}

pub fn e02(ctx: &Ctx) {
    uncaught::nested(ctx, false);
    let names = ["", "a", "x y", "{}", "é\n"];
    ctx.explore("display-only", 5 * 6, |i| format!("way {}, text {:?}", i / 5, names[i as usize % 5]), |i, c| {
        let name = names[i as usize % 5];
        let e = match i / 5 {
            0 => Uncaught::fold_display(Box::new(Named(name))),
            1 => Uncaught::box_display(Named(name)),
            2 => Uncaught::fold_static_display(Box::leak(Box::new(Named(name)))),
            3 => Uncaught::fold_error(Box::new(Named(name))),
            4 => Uncaught::box_error(Named(name)),
            _ => Uncaught::fold_static_error(Box::leak(Box::new(Named(name)))),
        };
        let kind = ["Display", "Display", "StaticDisplay", "Error", "Error", "StaticError"][i as usize / 5];
        let mut s = String::new();
        let debug = write!(s, "{:?}", e);
        let mut t = String::new();
        let display = write!(t, "{}", e);
        if name.is_empty() {
            ensure!(debug.is_err() && display.is_err(), "output of an error that cannot be formatted");
        } else {
            ensure!(debug.is_ok() && s == format!("Uncaught::{}({})", kind, name), "debug output {:?}", s);
            ensure!(display.is_ok() && t == format!("Uncaught({}): {}", kind, name), "display output {:?}", t);
        }
        c.step(2);
        c.state(&(i, &s, &t));
        c.trace();
        Ok(())
    });
}

fn main() -> std::process::ExitCode {
    mc::driver::main(&[("E02", e02)])
}
