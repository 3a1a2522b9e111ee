pub mod canary {
use vstd::prelude::*;
broadcast use crate::sh::group_sh;
// Everything assumed, at once, must not prove false: the check demands that this function FAILS.
pub proof fn canary_must_fail(i: int, f: f64, s: Seq<u8>, x: crate::time::OffsetDateTime) {
    crate::lits::ax_codes();
    crate::sh::ax_int(i);
    crate::sh::ax_float(f);
    crate::sh::ax_chars_of(s);
    crate::time::ax_odt_inj(x);
    assert(false);
}
}
