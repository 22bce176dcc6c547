
#[doc(hidden)]
#[allow(warnings)]
mod __macro_cases {
use crate::prelude::*;
use crate::{neu, regex};
use crate::neu::{Once, Opt, Many0, Many1, Between};
/// what is repeated, and how often
pub trait Parts { type U; const LO: usize; const HI: usize; fn unit(&self) -> &Self::U; }

impl<C, U: Neu<char>, I> Parts for Once<C, U, char, I> { type U = U; const LO: usize = 1; const HI: usize = 1; fn unit(&self) -> &U { unreachable!() } }
impl<C, U: Neu<char>, I> Parts for Opt<C, U, char, I> { type U = U; const LO: usize = 0; const HI: usize = 1; fn unit(&self) -> &U { unreachable!() } }
impl<C, U: Neu<char>, I> Parts for Many0<C, U, char, I> { type U = U; const LO: usize = 0; const HI: usize = usize::MAX; fn unit(&self) -> &U { unreachable!() } }
impl<C, U: Neu<char>, I> Parts for Many1<C, U, char, I> { type U = U; const LO: usize = 1; const HI: usize = usize::MAX; fn unit(&self) -> &U { unreachable!() } }
impl<C, U: Neu<u8>, I> Parts for Once<C, U, u8, I> { type U = U; const LO: usize = 1; const HI: usize = 1; fn unit(&self) -> &U { unreachable!() } }
impl<C, U: Neu<u8>, I> Parts for Opt<C, U, u8, I> { type U = U; const LO: usize = 0; const HI: usize = 1; fn unit(&self) -> &U { unreachable!() } }
impl<C, U: Neu<u8>, I> Parts for Many0<C, U, u8, I> { type U = U; const LO: usize = 0; const HI: usize = usize::MAX; fn unit(&self) -> &U { unreachable!() } }
impl<C, U: Neu<u8>, I> Parts for Many1<C, U, u8, I> { type U = U; const LO: usize = 1; const HI: usize = usize::MAX; fn unit(&self) -> &U { unreachable!() } }
impl<const M: usize, const N: usize, C, U, I> Parts for Between<M, N, C, U, I> { type U = U; const LO: usize = M; const HI: usize = N; fn unit(&self) -> &U { unreachable!() } }
fn on_chars<'a, R: Regex<CharsCtx<'a>> + Parts>(r: R) -> R { r }
fn on_bytes<'a, R: Regex<BytesCtx<'a>> + Parts>(r: R) -> R { r }
fn times<R: Parts>(_: &R) -> (usize, usize) { (R::LO, R::HI) }
fn is<T: crate::MayDebug, U: Neu<T>>(u: U, x: T) -> bool { u.is_match(&x) }
pub fn class_nothing(x: char) -> (bool, bool) { (is(neu!(), x), x.is_whitespace()) }
pub fn regex_once_nothing(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!( )); (r.unit().is_match(&x), x.is_whitespace(), times(&r), (1, 1)) }
pub fn regex_opt_nothing(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!( ?)); (r.unit().is_match(&x), x.is_whitespace(), times(&r), (0, 1)) }
pub fn regex_many0_nothing(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!( *)); (r.unit().is_match(&x), x.is_whitespace(), times(&r), (0, usize::MAX)) }
pub fn regex_many1_nothing(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!( +)); (r.unit().is_match(&x), x.is_whitespace(), times(&r), (1, usize::MAX)) }
pub fn regex_exact_nothing(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!( {3})); (r.unit().is_match(&x), x.is_whitespace(), times(&r), (3, 3)) }
pub fn regex_atleast_nothing(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!( {2,})); (r.unit().is_match(&x), x.is_whitespace(), times(&r), (2, usize::MAX)) }
pub fn regex_between_nothing(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!( {2, 5})); (r.unit().is_match(&x), x.is_whitespace(), times(&r), (2, 5)) }
pub fn class_not_ws(x: char) -> (bool, bool) { (is(neu!(^), x), !x.is_whitespace()) }
pub fn regex_once_not_ws(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(^ )); (r.unit().is_match(&x), !x.is_whitespace(), times(&r), (1, 1)) }
pub fn regex_opt_not_ws(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(^ ?)); (r.unit().is_match(&x), !x.is_whitespace(), times(&r), (0, 1)) }
pub fn regex_many0_not_ws(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(^ *)); (r.unit().is_match(&x), !x.is_whitespace(), times(&r), (0, usize::MAX)) }
pub fn regex_many1_not_ws(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(^ +)); (r.unit().is_match(&x), !x.is_whitespace(), times(&r), (1, usize::MAX)) }
pub fn regex_exact_not_ws(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(^ {3})); (r.unit().is_match(&x), !x.is_whitespace(), times(&r), (3, 3)) }
pub fn regex_atleast_not_ws(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(^ {2,})); (r.unit().is_match(&x), !x.is_whitespace(), times(&r), (2, usize::MAX)) }
pub fn regex_between_not_ws(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(^ {2, 5})); (r.unit().is_match(&x), !x.is_whitespace(), times(&r), (2, 5)) }
pub fn class_wild(x: char) -> (bool, bool) { (is(neu!(.), x), x != '\n') }
pub fn regex_once_wild(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(. )); (r.unit().is_match(&x), x != '\n', times(&r), (1, 1)) }
pub fn regex_opt_wild(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(. ?)); (r.unit().is_match(&x), x != '\n', times(&r), (0, 1)) }
pub fn regex_many0_wild(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(. *)); (r.unit().is_match(&x), x != '\n', times(&r), (0, usize::MAX)) }
pub fn regex_many1_wild(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(. +)); (r.unit().is_match(&x), x != '\n', times(&r), (1, usize::MAX)) }
pub fn regex_exact_wild(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(. {3})); (r.unit().is_match(&x), x != '\n', times(&r), (3, 3)) }
pub fn regex_atleast_wild(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(. {2,})); (r.unit().is_match(&x), x != '\n', times(&r), (2, usize::MAX)) }
pub fn regex_between_wild(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(. {2, 5})); (r.unit().is_match(&x), x != '\n', times(&r), (2, 5)) }
pub fn class_range_lit(x: char) -> (bool, bool) { (is(neu!(['b' - 'x']), x), x >= 'b' && x <= 'x') }
pub fn regex_once_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'x'] )); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (1, 1)) }
pub fn regex_opt_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'x'] ?)); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (0, 1)) }
pub fn regex_many0_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'x'] *)); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (0, usize::MAX)) }
pub fn regex_many1_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'x'] +)); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (1, usize::MAX)) }
pub fn regex_exact_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'x'] {3})); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (3, 3)) }
pub fn regex_atleast_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'x'] {2,})); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (2, usize::MAX)) }
pub fn regex_between_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'x'] {2, 5})); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (2, 5)) }
pub fn class_range_id(x: char) -> (bool, bool) { (is(neu!([b - x]), x), x >= 'b' && x <= 'x') }
pub fn regex_once_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - x] )); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (1, 1)) }
pub fn regex_opt_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - x] ?)); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (0, 1)) }
pub fn regex_many0_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - x] *)); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (0, usize::MAX)) }
pub fn regex_many1_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - x] +)); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (1, usize::MAX)) }
pub fn regex_exact_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - x] {3})); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (3, 3)) }
pub fn regex_atleast_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - x] {2,})); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (2, usize::MAX)) }
pub fn regex_between_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - x] {2, 5})); (r.unit().is_match(&x), x >= 'b' && x <= 'x', times(&r), (2, 5)) }
pub fn class_one_id(x: char) -> (bool, bool) { (is(neu!([q - q]), x), x == 'q') }
pub fn regex_once_one_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([q - q] )); (r.unit().is_match(&x), x == 'q', times(&r), (1, 1)) }
pub fn regex_opt_one_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([q - q] ?)); (r.unit().is_match(&x), x == 'q', times(&r), (0, 1)) }
pub fn regex_many0_one_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([q - q] *)); (r.unit().is_match(&x), x == 'q', times(&r), (0, usize::MAX)) }
pub fn regex_many1_one_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([q - q] +)); (r.unit().is_match(&x), x == 'q', times(&r), (1, usize::MAX)) }
pub fn regex_exact_one_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([q - q] {3})); (r.unit().is_match(&x), x == 'q', times(&r), (3, 3)) }
pub fn regex_atleast_one_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([q - q] {2,})); (r.unit().is_match(&x), x == 'q', times(&r), (2, usize::MAX)) }
pub fn regex_between_one_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([q - q] {2, 5})); (r.unit().is_match(&x), x == 'q', times(&r), (2, 5)) }
pub fn class_not_range_lit(x: char) -> (bool, bool) { (is(neu!([^ 'b' - 'x']), x), !(x >= 'b' && x <= 'x')) }
pub fn regex_once_not_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'x'] )); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (1, 1)) }
pub fn regex_opt_not_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'x'] ?)); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (0, 1)) }
pub fn regex_many0_not_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'x'] *)); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_not_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'x'] +)); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_not_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'x'] {3})); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (3, 3)) }
pub fn regex_atleast_not_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'x'] {2,})); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (2, usize::MAX)) }
pub fn regex_between_not_range_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'x'] {2, 5})); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (2, 5)) }
pub fn class_not_range_id(x: char) -> (bool, bool) { (is(neu!([^ b - x]), x), !(x >= 'b' && x <= 'x')) }
pub fn regex_once_not_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - x] )); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (1, 1)) }
pub fn regex_opt_not_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - x] ?)); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (0, 1)) }
pub fn regex_many0_not_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - x] *)); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_not_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - x] +)); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_not_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - x] {3})); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (3, 3)) }
pub fn regex_atleast_not_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - x] {2,})); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (2, usize::MAX)) }
pub fn regex_between_not_range_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - x] {2, 5})); (r.unit().is_match(&x), !(x >= 'b' && x <= 'x'), times(&r), (2, 5)) }
pub fn class_ranges_lit(x: char) -> (bool, bool) { (is(neu!(['b' - 'f' '0' - '8']), x), (x >= 'b' && x <= 'f') || (x >= '0' && x <= '8')) }
pub fn regex_once_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'f' '0' - '8'] )); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= '0' && x <= '8'), times(&r), (1, 1)) }
pub fn regex_opt_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'f' '0' - '8'] ?)); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= '0' && x <= '8'), times(&r), (0, 1)) }
pub fn regex_many0_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'f' '0' - '8'] *)); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= '0' && x <= '8'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'f' '0' - '8'] +)); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= '0' && x <= '8'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'f' '0' - '8'] {3})); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= '0' && x <= '8'), times(&r), (3, 3)) }
pub fn regex_atleast_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'f' '0' - '8'] {2,})); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= '0' && x <= '8'), times(&r), (2, usize::MAX)) }
pub fn regex_between_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['b' - 'f' '0' - '8'] {2, 5})); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= '0' && x <= '8'), times(&r), (2, 5)) }
pub fn class_ranges_id(x: char) -> (bool, bool) { (is(neu!([b - f Q - X]), x), (x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X')) }
pub fn regex_once_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - f Q - X] )); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X'), times(&r), (1, 1)) }
pub fn regex_opt_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - f Q - X] ?)); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X'), times(&r), (0, 1)) }
pub fn regex_many0_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - f Q - X] *)); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - f Q - X] +)); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - f Q - X] {3})); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X'), times(&r), (3, 3)) }
pub fn regex_atleast_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - f Q - X] {2,})); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X'), times(&r), (2, usize::MAX)) }
pub fn regex_between_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([b - f Q - X] {2, 5})); (r.unit().is_match(&x), (x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X'), times(&r), (2, 5)) }
pub fn class_not_ranges_lit(x: char) -> (bool, bool) { (is(neu!([^ 'b' - 'f' '0' - '8']), x), !((x >= 'b' && x <= 'f') || (x >= '0' && x <= '8'))) }
pub fn regex_once_not_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'f' '0' - '8'] )); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= '0' && x <= '8')), times(&r), (1, 1)) }
pub fn regex_opt_not_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'f' '0' - '8'] ?)); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= '0' && x <= '8')), times(&r), (0, 1)) }
pub fn regex_many0_not_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'f' '0' - '8'] *)); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= '0' && x <= '8')), times(&r), (0, usize::MAX)) }
pub fn regex_many1_not_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'f' '0' - '8'] +)); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= '0' && x <= '8')), times(&r), (1, usize::MAX)) }
pub fn regex_exact_not_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'f' '0' - '8'] {3})); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= '0' && x <= '8')), times(&r), (3, 3)) }
pub fn regex_atleast_not_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'f' '0' - '8'] {2,})); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= '0' && x <= '8')), times(&r), (2, usize::MAX)) }
pub fn regex_between_not_ranges_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'b' - 'f' '0' - '8'] {2, 5})); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= '0' && x <= '8')), times(&r), (2, 5)) }
pub fn class_not_ranges_id(x: char) -> (bool, bool) { (is(neu!([^ b - f Q - X]), x), !((x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X'))) }
pub fn regex_once_not_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - f Q - X] )); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X')), times(&r), (1, 1)) }
pub fn regex_opt_not_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - f Q - X] ?)); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X')), times(&r), (0, 1)) }
pub fn regex_many0_not_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - f Q - X] *)); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X')), times(&r), (0, usize::MAX)) }
pub fn regex_many1_not_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - f Q - X] +)); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X')), times(&r), (1, usize::MAX)) }
pub fn regex_exact_not_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - f Q - X] {3})); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X')), times(&r), (3, 3)) }
pub fn regex_atleast_not_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - f Q - X] {2,})); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X')), times(&r), (2, usize::MAX)) }
pub fn regex_between_not_ranges_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ b - f Q - X] {2, 5})); (r.unit().is_match(&x), !((x >= 'b' && x <= 'f') || (x >= 'Q' && x <= 'X')), times(&r), (2, 5)) }
pub fn class_set_lit(x: char) -> (bool, bool) { (is(neu!(['a' 'k' '9']), x), x == 'a' || x == 'k' || x == '9') }
pub fn regex_once_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['a' 'k' '9'] )); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == '9', times(&r), (1, 1)) }
pub fn regex_opt_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['a' 'k' '9'] ?)); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == '9', times(&r), (0, 1)) }
pub fn regex_many0_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['a' 'k' '9'] *)); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == '9', times(&r), (0, usize::MAX)) }
pub fn regex_many1_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['a' 'k' '9'] +)); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == '9', times(&r), (1, usize::MAX)) }
pub fn regex_exact_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['a' 'k' '9'] {3})); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == '9', times(&r), (3, 3)) }
pub fn regex_atleast_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['a' 'k' '9'] {2,})); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == '9', times(&r), (2, usize::MAX)) }
pub fn regex_between_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['a' 'k' '9'] {2, 5})); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == '9', times(&r), (2, 5)) }
pub fn class_set_id(x: char) -> (bool, bool) { (is(neu!([a k Z]), x), x == 'a' || x == 'k' || x == 'Z') }
pub fn regex_once_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([a k Z] )); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == 'Z', times(&r), (1, 1)) }
pub fn regex_opt_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([a k Z] ?)); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == 'Z', times(&r), (0, 1)) }
pub fn regex_many0_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([a k Z] *)); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == 'Z', times(&r), (0, usize::MAX)) }
pub fn regex_many1_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([a k Z] +)); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == 'Z', times(&r), (1, usize::MAX)) }
pub fn regex_exact_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([a k Z] {3})); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == 'Z', times(&r), (3, 3)) }
pub fn regex_atleast_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([a k Z] {2,})); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == 'Z', times(&r), (2, usize::MAX)) }
pub fn regex_between_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([a k Z] {2, 5})); (r.unit().is_match(&x), x == 'a' || x == 'k' || x == 'Z', times(&r), (2, 5)) }
pub fn class_set_lit1(x: char) -> (bool, bool) { (is(neu!(['k']), x), x == 'k') }
pub fn regex_once_set_lit1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['k'] )); (r.unit().is_match(&x), x == 'k', times(&r), (1, 1)) }
pub fn regex_opt_set_lit1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['k'] ?)); (r.unit().is_match(&x), x == 'k', times(&r), (0, 1)) }
pub fn regex_many0_set_lit1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['k'] *)); (r.unit().is_match(&x), x == 'k', times(&r), (0, usize::MAX)) }
pub fn regex_many1_set_lit1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['k'] +)); (r.unit().is_match(&x), x == 'k', times(&r), (1, usize::MAX)) }
pub fn regex_exact_set_lit1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['k'] {3})); (r.unit().is_match(&x), x == 'k', times(&r), (3, 3)) }
pub fn regex_atleast_set_lit1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['k'] {2,})); (r.unit().is_match(&x), x == 'k', times(&r), (2, usize::MAX)) }
pub fn regex_between_set_lit1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(['k'] {2, 5})); (r.unit().is_match(&x), x == 'k', times(&r), (2, 5)) }
pub fn class_set_id1(x: char) -> (bool, bool) { (is(neu!([k]), x), x == 'k') }
pub fn regex_once_set_id1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([k] )); (r.unit().is_match(&x), x == 'k', times(&r), (1, 1)) }
pub fn regex_opt_set_id1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([k] ?)); (r.unit().is_match(&x), x == 'k', times(&r), (0, 1)) }
pub fn regex_many0_set_id1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([k] *)); (r.unit().is_match(&x), x == 'k', times(&r), (0, usize::MAX)) }
pub fn regex_many1_set_id1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([k] +)); (r.unit().is_match(&x), x == 'k', times(&r), (1, usize::MAX)) }
pub fn regex_exact_set_id1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([k] {3})); (r.unit().is_match(&x), x == 'k', times(&r), (3, 3)) }
pub fn regex_atleast_set_id1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([k] {2,})); (r.unit().is_match(&x), x == 'k', times(&r), (2, usize::MAX)) }
pub fn regex_between_set_id1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([k] {2, 5})); (r.unit().is_match(&x), x == 'k', times(&r), (2, 5)) }
pub fn class_not_set_lit(x: char) -> (bool, bool) { (is(neu!([^ 'a' 'k' '9']), x), !(x == 'a' || x == 'k' || x == '9')) }
pub fn regex_once_not_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'a' 'k' '9'] )); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == '9'), times(&r), (1, 1)) }
pub fn regex_opt_not_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'a' 'k' '9'] ?)); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == '9'), times(&r), (0, 1)) }
pub fn regex_many0_not_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'a' 'k' '9'] *)); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == '9'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_not_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'a' 'k' '9'] +)); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == '9'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_not_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'a' 'k' '9'] {3})); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == '9'), times(&r), (3, 3)) }
pub fn regex_atleast_not_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'a' 'k' '9'] {2,})); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == '9'), times(&r), (2, usize::MAX)) }
pub fn regex_between_not_set_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ 'a' 'k' '9'] {2, 5})); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == '9'), times(&r), (2, 5)) }
pub fn class_not_set_id(x: char) -> (bool, bool) { (is(neu!([^ a k Z]), x), !(x == 'a' || x == 'k' || x == 'Z')) }
pub fn regex_once_not_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ a k Z] )); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == 'Z'), times(&r), (1, 1)) }
pub fn regex_opt_not_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ a k Z] ?)); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == 'Z'), times(&r), (0, 1)) }
pub fn regex_many0_not_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ a k Z] *)); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == 'Z'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_not_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ a k Z] +)); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == 'Z'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_not_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ a k Z] {3})); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == 'Z'), times(&r), (3, 3)) }
pub fn regex_atleast_not_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ a k Z] {2,})); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == 'Z'), times(&r), (2, usize::MAX)) }
pub fn regex_between_not_set_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!([^ a k Z] {2, 5})); (r.unit().is_match(&x), !(x == 'a' || x == 'k' || x == 'Z'), times(&r), (2, 5)) }
pub fn class_union(x: char) -> (bool, bool) { (is(neu!(('a' ..= 'f', 'q', 'X' ..= 'Z')), x), (x >= 'a' && x <= 'f') || x == 'q' || (x >= 'X' && x <= 'Z')) }
pub fn regex_once_union(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('a' ..= 'f', 'q', 'X' ..= 'Z') )); (r.unit().is_match(&x), (x >= 'a' && x <= 'f') || x == 'q' || (x >= 'X' && x <= 'Z'), times(&r), (1, 1)) }
pub fn regex_opt_union(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('a' ..= 'f', 'q', 'X' ..= 'Z') ?)); (r.unit().is_match(&x), (x >= 'a' && x <= 'f') || x == 'q' || (x >= 'X' && x <= 'Z'), times(&r), (0, 1)) }
pub fn regex_many0_union(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('a' ..= 'f', 'q', 'X' ..= 'Z') *)); (r.unit().is_match(&x), (x >= 'a' && x <= 'f') || x == 'q' || (x >= 'X' && x <= 'Z'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_union(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('a' ..= 'f', 'q', 'X' ..= 'Z') +)); (r.unit().is_match(&x), (x >= 'a' && x <= 'f') || x == 'q' || (x >= 'X' && x <= 'Z'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_union(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('a' ..= 'f', 'q', 'X' ..= 'Z') {3})); (r.unit().is_match(&x), (x >= 'a' && x <= 'f') || x == 'q' || (x >= 'X' && x <= 'Z'), times(&r), (3, 3)) }
pub fn regex_atleast_union(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('a' ..= 'f', 'q', 'X' ..= 'Z') {2,})); (r.unit().is_match(&x), (x >= 'a' && x <= 'f') || x == 'q' || (x >= 'X' && x <= 'Z'), times(&r), (2, usize::MAX)) }
pub fn regex_between_union(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('a' ..= 'f', 'q', 'X' ..= 'Z') {2, 5})); (r.unit().is_match(&x), (x >= 'a' && x <= 'f') || x == 'q' || (x >= 'X' && x <= 'Z'), times(&r), (2, 5)) }
pub fn class_union1(x: char) -> (bool, bool) { (is(neu!(('q')), x), x == 'q') }
pub fn regex_once_union1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('q') )); (r.unit().is_match(&x), x == 'q', times(&r), (1, 1)) }
pub fn regex_opt_union1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('q') ?)); (r.unit().is_match(&x), x == 'q', times(&r), (0, 1)) }
pub fn regex_many0_union1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('q') *)); (r.unit().is_match(&x), x == 'q', times(&r), (0, usize::MAX)) }
pub fn regex_many1_union1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('q') +)); (r.unit().is_match(&x), x == 'q', times(&r), (1, usize::MAX)) }
pub fn regex_exact_union1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('q') {3})); (r.unit().is_match(&x), x == 'q', times(&r), (3, 3)) }
pub fn regex_atleast_union1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('q') {2,})); (r.unit().is_match(&x), x == 'q', times(&r), (2, usize::MAX)) }
pub fn regex_between_union1(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(('q') {2, 5})); (r.unit().is_match(&x), x == 'q', times(&r), (2, 5)) }
pub fn class_id(x: char) -> (bool, bool) { (is(neu!(m), x), x == 'm') }
pub fn regex_once_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(m )); (r.unit().is_match(&x), x == 'm', times(&r), (1, 1)) }
pub fn regex_opt_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(m ?)); (r.unit().is_match(&x), x == 'm', times(&r), (0, 1)) }
pub fn regex_many0_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(m *)); (r.unit().is_match(&x), x == 'm', times(&r), (0, usize::MAX)) }
pub fn regex_many1_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(m +)); (r.unit().is_match(&x), x == 'm', times(&r), (1, usize::MAX)) }
pub fn regex_exact_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(m {3})); (r.unit().is_match(&x), x == 'm', times(&r), (3, 3)) }
pub fn regex_atleast_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(m {2,})); (r.unit().is_match(&x), x == 'm', times(&r), (2, usize::MAX)) }
pub fn regex_between_id(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!(m {2, 5})); (r.unit().is_match(&x), x == 'm', times(&r), (2, 5)) }
pub fn class_lit(x: char) -> (bool, bool) { (is(neu!('m'), x), x == 'm') }
pub fn regex_once_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!('m' )); (r.unit().is_match(&x), x == 'm', times(&r), (1, 1)) }
pub fn regex_opt_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!('m' ?)); (r.unit().is_match(&x), x == 'm', times(&r), (0, 1)) }
pub fn regex_many0_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!('m' *)); (r.unit().is_match(&x), x == 'm', times(&r), (0, usize::MAX)) }
pub fn regex_many1_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!('m' +)); (r.unit().is_match(&x), x == 'm', times(&r), (1, usize::MAX)) }
pub fn regex_exact_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!('m' {3})); (r.unit().is_match(&x), x == 'm', times(&r), (3, 3)) }
pub fn regex_atleast_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!('m' {2,})); (r.unit().is_match(&x), x == 'm', times(&r), (2, usize::MAX)) }
pub fn regex_between_lit(x: char) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_chars(regex!('m' {2, 5})); (r.unit().is_match(&x), x == 'm', times(&r), (2, 5)) }
pub fn class_b_range(x: u8) -> (bool, bool) { (is(neu!([b'b' - b'x']), x), x >= b'b' && x <= b'x') }
pub fn regex_once_b_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'x'] )); (r.unit().is_match(&x), x >= b'b' && x <= b'x', times(&r), (1, 1)) }
pub fn regex_opt_b_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'x'] ?)); (r.unit().is_match(&x), x >= b'b' && x <= b'x', times(&r), (0, 1)) }
pub fn regex_many0_b_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'x'] *)); (r.unit().is_match(&x), x >= b'b' && x <= b'x', times(&r), (0, usize::MAX)) }
pub fn regex_many1_b_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'x'] +)); (r.unit().is_match(&x), x >= b'b' && x <= b'x', times(&r), (1, usize::MAX)) }
pub fn regex_exact_b_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'x'] {3})); (r.unit().is_match(&x), x >= b'b' && x <= b'x', times(&r), (3, 3)) }
pub fn regex_atleast_b_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'x'] {2,})); (r.unit().is_match(&x), x >= b'b' && x <= b'x', times(&r), (2, usize::MAX)) }
pub fn regex_between_b_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'x'] {2, 5})); (r.unit().is_match(&x), x >= b'b' && x <= b'x', times(&r), (2, 5)) }
pub fn class_b_not_range(x: u8) -> (bool, bool) { (is(neu!([^ b'b' - b'x']), x), !(x >= b'b' && x <= b'x')) }
pub fn regex_once_b_not_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'b' - b'x'] )); (r.unit().is_match(&x), !(x >= b'b' && x <= b'x'), times(&r), (1, 1)) }
pub fn regex_opt_b_not_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'b' - b'x'] ?)); (r.unit().is_match(&x), !(x >= b'b' && x <= b'x'), times(&r), (0, 1)) }
pub fn regex_many0_b_not_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'b' - b'x'] *)); (r.unit().is_match(&x), !(x >= b'b' && x <= b'x'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_b_not_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'b' - b'x'] +)); (r.unit().is_match(&x), !(x >= b'b' && x <= b'x'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_b_not_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'b' - b'x'] {3})); (r.unit().is_match(&x), !(x >= b'b' && x <= b'x'), times(&r), (3, 3)) }
pub fn regex_atleast_b_not_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'b' - b'x'] {2,})); (r.unit().is_match(&x), !(x >= b'b' && x <= b'x'), times(&r), (2, usize::MAX)) }
pub fn regex_between_b_not_range(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'b' - b'x'] {2, 5})); (r.unit().is_match(&x), !(x >= b'b' && x <= b'x'), times(&r), (2, 5)) }
pub fn class_b_ranges(x: u8) -> (bool, bool) { (is(neu!([b'b' - b'f' b'0' - b'8']), x), (x >= b'b' && x <= b'f') || (x >= b'0' && x <= b'8')) }
pub fn regex_once_b_ranges(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'f' b'0' - b'8'] )); (r.unit().is_match(&x), (x >= b'b' && x <= b'f') || (x >= b'0' && x <= b'8'), times(&r), (1, 1)) }
pub fn regex_opt_b_ranges(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'f' b'0' - b'8'] ?)); (r.unit().is_match(&x), (x >= b'b' && x <= b'f') || (x >= b'0' && x <= b'8'), times(&r), (0, 1)) }
pub fn regex_many0_b_ranges(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'f' b'0' - b'8'] *)); (r.unit().is_match(&x), (x >= b'b' && x <= b'f') || (x >= b'0' && x <= b'8'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_b_ranges(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'f' b'0' - b'8'] +)); (r.unit().is_match(&x), (x >= b'b' && x <= b'f') || (x >= b'0' && x <= b'8'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_b_ranges(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'f' b'0' - b'8'] {3})); (r.unit().is_match(&x), (x >= b'b' && x <= b'f') || (x >= b'0' && x <= b'8'), times(&r), (3, 3)) }
pub fn regex_atleast_b_ranges(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'f' b'0' - b'8'] {2,})); (r.unit().is_match(&x), (x >= b'b' && x <= b'f') || (x >= b'0' && x <= b'8'), times(&r), (2, usize::MAX)) }
pub fn regex_between_b_ranges(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'b' - b'f' b'0' - b'8'] {2, 5})); (r.unit().is_match(&x), (x >= b'b' && x <= b'f') || (x >= b'0' && x <= b'8'), times(&r), (2, 5)) }
pub fn class_b_set(x: u8) -> (bool, bool) { (is(neu!([b'a' b'k' b'9']), x), x == b'a' || x == b'k' || x == b'9') }
pub fn regex_once_b_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'a' b'k' b'9'] )); (r.unit().is_match(&x), x == b'a' || x == b'k' || x == b'9', times(&r), (1, 1)) }
pub fn regex_opt_b_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'a' b'k' b'9'] ?)); (r.unit().is_match(&x), x == b'a' || x == b'k' || x == b'9', times(&r), (0, 1)) }
pub fn regex_many0_b_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'a' b'k' b'9'] *)); (r.unit().is_match(&x), x == b'a' || x == b'k' || x == b'9', times(&r), (0, usize::MAX)) }
pub fn regex_many1_b_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'a' b'k' b'9'] +)); (r.unit().is_match(&x), x == b'a' || x == b'k' || x == b'9', times(&r), (1, usize::MAX)) }
pub fn regex_exact_b_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'a' b'k' b'9'] {3})); (r.unit().is_match(&x), x == b'a' || x == b'k' || x == b'9', times(&r), (3, 3)) }
pub fn regex_atleast_b_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'a' b'k' b'9'] {2,})); (r.unit().is_match(&x), x == b'a' || x == b'k' || x == b'9', times(&r), (2, usize::MAX)) }
pub fn regex_between_b_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([b'a' b'k' b'9'] {2, 5})); (r.unit().is_match(&x), x == b'a' || x == b'k' || x == b'9', times(&r), (2, 5)) }
pub fn class_b_not_set(x: u8) -> (bool, bool) { (is(neu!([^ b'a' b'k' b'9']), x), !(x == b'a' || x == b'k' || x == b'9')) }
pub fn regex_once_b_not_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'a' b'k' b'9'] )); (r.unit().is_match(&x), !(x == b'a' || x == b'k' || x == b'9'), times(&r), (1, 1)) }
pub fn regex_opt_b_not_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'a' b'k' b'9'] ?)); (r.unit().is_match(&x), !(x == b'a' || x == b'k' || x == b'9'), times(&r), (0, 1)) }
pub fn regex_many0_b_not_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'a' b'k' b'9'] *)); (r.unit().is_match(&x), !(x == b'a' || x == b'k' || x == b'9'), times(&r), (0, usize::MAX)) }
pub fn regex_many1_b_not_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'a' b'k' b'9'] +)); (r.unit().is_match(&x), !(x == b'a' || x == b'k' || x == b'9'), times(&r), (1, usize::MAX)) }
pub fn regex_exact_b_not_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'a' b'k' b'9'] {3})); (r.unit().is_match(&x), !(x == b'a' || x == b'k' || x == b'9'), times(&r), (3, 3)) }
pub fn regex_atleast_b_not_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'a' b'k' b'9'] {2,})); (r.unit().is_match(&x), !(x == b'a' || x == b'k' || x == b'9'), times(&r), (2, usize::MAX)) }
pub fn regex_between_b_not_set(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!([^ b'a' b'k' b'9'] {2, 5})); (r.unit().is_match(&x), !(x == b'a' || x == b'k' || x == b'9'), times(&r), (2, 5)) }
pub fn class_b_lit(x: u8) -> (bool, bool) { (is(neu!(b'm'), x), x == b'm') }
pub fn regex_once_b_lit(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!(b'm' )); (r.unit().is_match(&x), x == b'm', times(&r), (1, 1)) }
pub fn regex_opt_b_lit(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!(b'm' ?)); (r.unit().is_match(&x), x == b'm', times(&r), (0, 1)) }
pub fn regex_many0_b_lit(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!(b'm' *)); (r.unit().is_match(&x), x == b'm', times(&r), (0, usize::MAX)) }
pub fn regex_many1_b_lit(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!(b'm' +)); (r.unit().is_match(&x), x == b'm', times(&r), (1, usize::MAX)) }
pub fn regex_exact_b_lit(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!(b'm' {3})); (r.unit().is_match(&x), x == b'm', times(&r), (3, 3)) }
pub fn regex_atleast_b_lit(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!(b'm' {2,})); (r.unit().is_match(&x), x == b'm', times(&r), (2, usize::MAX)) }
pub fn regex_between_b_lit(x: u8) -> (bool, bool, (usize, usize), (usize, usize)) { let r = on_bytes(regex!(b'm' {2, 5})); (r.unit().is_match(&x), x == b'm', times(&r), (2, 5)) }
}
