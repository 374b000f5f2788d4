//! C04: compile-time RGB colours.
use colorz::rgb::{Rgb, RgbColor};
use mc::codes::*;
use mc::report::{parallel, quiet_panics, Report};

fn rgb_type<const R: u8, const G: u8, const B: u8>(r: &mut Report) {
    let want = six(|l| args_rgb(R, G, B, l));
    let name = format!("Rgb<{R}, {G}, {B}>");
    strs(r, "rgb", &name, "associated constants", [Some(Rgb::<R, G, B>::FOREGROUND_ARGS), Some(Rgb::<R, G, B>::BACKGROUND_ARGS), Some(Rgb::<R, G, B>::UNDERLINE_ARGS), Some(Rgb::<R, G, B>::FOREGROUND_ESCAPE), Some(Rgb::<R, G, B>::BACKGROUND_ESCAPE), Some(Rgb::<R, G, B>::UNDERLINE_ESCAPE)], &want);
    if Rgb::<R, G, B>::ARGS != format!("2;{R};{G};{B}") {
        r.violation("compile-time rgb: ARGS is wrong", || format!("{name}::ARGS = {:?}", Rgb::<R, G, B>::ARGS));
    }
    let v = RgbColor { red: R, green: G, blue: B };
    unit(r, "rgb", &name, Rgb::<R, G, B>, v, &want);
}
include!("../rgb_types.rs");


fn main() {
    quiet_panics();
    let types = rgb_types();
    let mut r = parallel(types.len(), |i, r| types[i](r));
    r.bound("compile-time Rgb types", types.len());
    r.samples.push(format!("Rgb<9, 99, 255>::BACKGROUND_ARGS = {:?}", Rgb::<9, 99, 255>::BACKGROUND_ARGS));
    r.finish();
}
