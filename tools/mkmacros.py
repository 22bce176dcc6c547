#!/usr/bin/env python3
"""Writes macros/cases.rs: one function per documented form of `neu!` and `regex!`, each asserting
that the value the macro builds admits exactly the documented characters, the documented number of
times. Nothing runs: the analysis appends the file to the crate and decides that no assertion can
fail, for every character."""
import os, sys

HEAD = '''
#[doc(hidden)]
#[allow(warnings)]
mod __macro_cases {
use crate::prelude::*;
use crate::{neu, regex};
use crate::neu::{Once, Opt, Many0, Many1, Between};
/// what is repeated, and how often
pub trait Parts { type U; const LO: usize; const HI: usize; fn unit(&self) -> &Self::U; }
'''
# neu! forms: (name, macro input, condition on x)
W = "x.is_whitespace()"
CHARS = [
    ("nothing", "", W),
    ("not_ws", "^", f"!{W}"),
    ("wild", ".", "x != '\\n'"),
    ("range_lit", "['b' - 'x']", "x >= 'b' && x <= 'x'"),
    ("range_id", "[b - x]", "x >= 'b' && x <= 'x'"),
    ("one_id", "[q - q]", "x == 'q'"),
    ("not_range_lit", "[^ 'b' - 'x']", "!(x >= 'b' && x <= 'x')"),
    ("not_range_id", "[^ b - x]", "!(x >= 'b' && x <= 'x')"),
    ("ranges_lit", "['b' - 'f' '0' - '8']", "(x >= 'b' && x <= 'f') || (x >= '0' && x <= '8')"),
    ("ranges_id", "[b - f Q - X]", "(x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X')"),
    ("not_ranges_lit", "[^ 'b' - 'f' '0' - '8']", "!((x >= 'b' && x <= 'f') || (x >= '0' && x <= '8'))"),
    ("not_ranges_id", "[^ b - f Q - X]", "!((x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X'))"),
    ("set_lit", "['a' 'k' '9']", "x == 'a' || x == 'k' || x == '9'"),
    ("set_id", "[a k Z]", "x == 'a' || x == 'k' || x == 'Z'"),
    ("set_lit1", "['k']", "x == 'k'"),
    ("set_id1", "[k]", "x == 'k'"),
    ("not_set_lit", "[^ 'a' 'k' '9']", "!(x == 'a' || x == 'k' || x == '9')"),
    ("not_set_id", "[^ a k Z]", "!(x == 'a' || x == 'k' || x == 'Z')"),
    ("union", "('a' ..= 'f', 'q', 'X' ..= 'Z')", "(x >= 'a' && x <= 'f') || x == 'q' || (x >= 'X' && x <= 'Z')"),
    ("union1", "('q')", "x == 'q'"),
    ("id", "m", "x == 'm'"),
    ("lit", "'m'", "x == 'm'"),
]
BYTES = [
    ("b_range", "[b'b' - b'x']", "x >= b'b' && x <= b'x'"),
    ("b_not_range", "[^ b'b' - b'x']", "!(x >= b'b' && x <= b'x')"),
    ("b_ranges", "[b'b' - b'f' b'0' - b'8']", "(x >= b'b' && x <= b'f') || (x >= b'0' && x <= b'8')"),
    ("b_set", "[b'a' b'k' b'9']", "x == b'a' || x == b'k' || x == b'9'"),
    ("b_not_set", "[^ b'a' b'k' b'9']", "!(x == b'a' || x == b'k' || x == b'9')"),
    ("b_lit", "b'm'", "x == b'm'"),
]
# regex! heads: those of neu!, but nothing means white space, and the empty brackets do not exist
QUANT = [
    ("once", "", "1", "1"), ("opt", "?", "0", "1"), ("many0", "*", "0", "usize::MAX"), ("many1", "+", "1", "usize::MAX"),
    ("exact", "{3}", "3", "3"), ("atleast", "{2,}", "2", "usize::MAX"), ("between", "{2, 5}", "2", "5"),
]


def main():
    out = [HEAD]
    for ty in ("char", "u8"):
        for name, lo, hi in (("Once", "1", "1"), ("Opt", "0", "1"), ("Many0", "0", "usize::MAX"), ("Many1", "1", "usize::MAX")):
            out.append(f"impl<C, U: Neu<{ty}>, I> Parts for {name}<C, U, {ty}, I> {{ type U = U; const LO: usize = {lo}; const HI: usize = {hi}; fn unit(&self) -> &U {{ unreachable!() }} }}")
    out.append("impl<const M: usize, const N: usize, C, U, I> Parts for Between<M, N, C, U, I> { type U = U; const LO: usize = M; const HI: usize = N; fn unit(&self) -> &U { unreachable!() } }")
    out.append("fn on_chars<'a, R: Regex<CharsCtx<'a>> + Parts>(r: R) -> R { r }")
    out.append("fn on_bytes<'a, R: Regex<BytesCtx<'a>> + Parts>(r: R) -> R { r }")
    out.append("fn times<R: Parts>(_: &R) -> (usize, usize) { (R::LO, R::HI) }")
    out.append("fn is<T: MayDbg, U: Neu<T>>(u: U, x: T) -> bool { u.is_match(&x) }".replace("MayDbg", "crate::MayDebug"))
    for set_, ty, on in ((CHARS, "char", "on_chars"), (BYTES, "u8", "on_bytes")):
        for n, m, cond in set_:
            out.append(f"pub fn class_{n}(x: {ty}) -> (bool, bool) {{ (is(neu!({m}), x), {cond}) }}")
            for q, qs, lo, hi in QUANT:
                out.append(f"pub fn regex_{q}_{n}(x: {ty}) -> (bool, bool, (usize, usize), (usize, usize)) {{ let r = {on}(regex!({m} {qs})); (r.unit().is_match(&x), {cond}, times(&r), ({lo}, {hi})) }}")
    out.append("}")
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "macros", "cases.rs")
    open(p, "w").write("\n".join(out) + "\n")


main()
