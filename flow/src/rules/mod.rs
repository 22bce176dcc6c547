//! The specification of the functions decided by the oracle monitor, by trait, item and type.
mod build;
mod ctx;
mod dynb;
mod macros;
mod map;
mod span;
mod unit;

use crate::interp::*;
use crate::oracle::*;
use crate::term::*;

/// The rule for one function, if the specification covers it.
pub fn rule<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    if let Some(r) = macros::rule(cx, f) {
        return Some(r);
    }
    unit::rule(cx, st, f, args, me)
        .or_else(|| span::rule(cx, st, f, args, me))
        .or_else(|| ctx::rule(cx, st, f, args, me))
        .or_else(|| map::rule(cx, st, f, args, me))
        .or_else(|| dynb::rule(cx, st, f, args, me))
        .or_else(|| build::rule(cx, st, f, args, me))
}
