mod curves;
mod knots;
mod surfaces;
mod regions;
mod tess;
mod misc;
mod constructors;
use crate::cx::Sub;
pub fn all() -> Vec<Sub> {
    let mut v = vec![];
    v.extend(knots::subs());
    v.extend(curves::subs());
    v.extend(surfaces::subs());
    v.extend(regions::subs());
    v.extend(tess::subs());
    v.extend(misc::subs());
    v.extend(constructors::subs());
    v
}
