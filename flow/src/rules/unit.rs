//! Units: which items they accept (C18) and how short their matches can be (C17).
use crate::interp::*;
use crate::models::ascii_class;
use crate::oracle::*;
use crate::term::*;
use rustc_middle::ty::{self, Ty};

pub fn rule<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    let mut r = rule_of(cx, st, f, args, me)?;
    if f.adt == "CRange" && f.tr != "Neu" {
        // repetition counts are kept in ranges too
        r.echo = vec!["C07", "C16"];
    }
    Some(r)
}

fn rule_of<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    match (f.tr.as_str(), f.item.as_str()) {
        ("Neu", "is_match") if !f.in_trait => is_match(cx, st, f, args, me),
        ("Neu", "min_length") if !f.in_trait => min_length(cx, f),
        ("" | "Clone", "clone_from" | "clone") if f.adt == "CRange" => {
            let (own, i) = if f.item == "clone_from" && f.tr.is_empty() { ("C18", 1) } else { ("C29", 1) };
            Some(Rule::new(own, "range from bounds", move |o| {
                let (v, t) = (o.argv(i), o.cx.peel(o.m.tys[0]));
                match std_range(o, &v, t)? {
                    Some((a, b)) => want_range(o, a, b),
                    None => any_range(o, &v),
                }
            }))
        }
        ("From", "from") if f.adt == "CRange" => Some(Rule::new("C18", "range conversion", |o| range_from(o))),
        ("RangeBounds", "start_bound" | "end_bound") if f.adt == "CRange" => {
            let i = (f.item == "end_bound") as usize;
            Some(Rule::new("C18", "range bound", move |o| {
                let (b, bt) = crange(o, i)?;
                let (v, x) = o.case(&b, bt)?;
                let (rv, rx) = o.ret_case()?;
                o.cx.obligation("value");
                if v != rv || (v != 2 && !o.same(&o.f0(&x), &o.f0(&rx))) {
                    o.bad("the bound reported is not the bound of the range");
                }
                Ok(())
            }))
        }
        ("Default", "default") if f.adt == "CRange" => Some(Rule::new("C18", "default range", |o| want_range(o, (2, None), (2, None)))),
        ("", "new") if f.adt == "CRange" => Some(Rule::new("C18", "range", |o| {
            let (a, b) = (o.arg(1), o.arg(2));
            let t = o.m.tys[0];
            let (x, y) = (bound(o, &a, t)?, bound(o, &b, t)?);
            want_range(o, x, y)
        })),
        ("", "is_empty") if f.adt == "CRange" => Some(Rule::new("C18", "range is empty", |o| {
            let (a, at) = crange(o, 0)?;
            let (b, _) = crange(o, 1)?;
            let (x, y) = (bound(o, &a, at)?, bound(o, &b, at)?);
            let want = match (x, y) {
                ((2, _), _) | (_, (2, _)) => false,
                ((i, Some(s)), (j, Some(e))) => {
                    let (s, e) = (o.cx.to_lin(&s), o.cx.to_lin(&e));
                    for x in [&s, &e] {
                        o.st.facts.add(&Atom::Ge(x.neg().addk(u64::MAX as i128)), &o.cx.tm);
                    }
                    // first and last member
                    let s = s.addk((i == 1) as i128);
                    let e = e.addk(-((j == 1) as i128));
                    !o.is(Atom::Ge(e.sub(&s)))?
                }
                _ => return o.undecided("bounds"),
            };
            o.want_bool(want, "emptiness of a range")
        })),
        _ => None,
    }
}

/// one of the two bounds kept by a `CRange`
fn crange<'tcx>(o: &mut O<'_, 'tcx>, i: usize) -> R<(Val<'tcx>, Ty<'tcx>)> {
    let t = o.me_ty();
    let me = o.argv(1);
    crange_of(o, &me, t, i)
}
fn crange_of<'tcx>(o: &mut O<'_, 'tcx>, me: &Val<'tcx>, t: Ty<'tcx>, i: usize) -> R<(Val<'tcx>, Ty<'tcx>)> {
    let fs = o.cx.variant_fields(t, 0);
    let is_bound = |t: Ty<'tcx>| o.cx.adt_name(t) == "Bound";
    let mut bs = vec![];
    for (k, ft) in fs.iter().enumerate() {
        if is_bound(*ft) {
            bs.push((o.fld(me, t, k), *ft));
        } else if let ty::Tuple(l) = ft.kind() {
            let tv = o.fld(me, t, k);
            for (j, jt) in l.iter().enumerate() {
                if is_bound(jt) {
                    bs.push((o.cx.project(&tv, &PE::Field(0, j as u32, jt)), jt));
                }
            }
        }
    }
    if bs.len() != 2 {
        return o.undecided("bounds of a range");
    }
    Ok(bs.swap_remove(i))
}
type B<'tcx> = (u32, Option<Val<'tcx>>);
/// kind and value of a bound: 0 included, 1 excluded, 2 unbounded
fn bound<'tcx>(o: &mut O<'_, 'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> R<B<'tcx>> {
    let (k, x) = o.case(v, t)?;
    let p = o.f0(&x);
    Ok((k, if k == 2 { None } else { Some(o.cx.peel_val(o.st, &p)) }))
}
/// the function returns a range with these bounds
fn want_range<'tcx>(o: &mut O<'_, 'tcx>, a: B<'tcx>, b: B<'tcx>) -> R<()> {
    let t = o.cx.root_ret;
    let r = o.ret.clone();
    for (i, (k, v)) in [a, b].into_iter().enumerate() {
        let (x, xt) = crange_of(o, &r, t, i)?;
        let (gk, gv) = bound(o, &x, xt)?;
        o.cx.obligation("bound");
        let end = if i == 0 { "start" } else { "end" };
        if gk != k {
            o.bad(format!("the {end} bound is of another kind"));
        } else if let (Some(g), Some(w)) = (gv, v) {
            if !o.same(&g, &w) && !is_cast(o, &g, &w) {
                o.bad(format!("the {end} bound has another value"));
            }
        }
    }
    Ok(())
}
/// the function keeps the bounds some range has
fn any_range<'tcx>(o: &mut O<'_, 'tcx>, v: &Val<'tcx>) -> R<()> {
    let mut bs = vec![];
    for nm in ["::start_bound", "::end_bound"] {
        let r = o.log().into_iter().find(|r| r.name.ends_with(nm) && r.args.first().is_some_and(|a| o.same(a, v)));
        match r.map(|r| r.res) {
            Some(Val::Sym(s, t)) => bs.push(bound(o, &Val::Sym(s, t), t)?),
            _ => {
                o.bad("the range given is not asked for one of its bounds");
                return Ok(());
            }
        }
    }
    let b = bs.pop().unwrap();
    want_range(o, bs.pop().unwrap(), b)
}
fn is_cast<'tcx>(o: &O<'_, 'tcx>, g: &Val<'tcx>, w: &Val<'tcx>) -> bool {
    matches!(o.app_of(g), Some((h, a)) if &*h == "cast usize" && o.same(&a[0], w))
}

/// bounds of one of the standard range types
fn std_range<'tcx>(o: &mut O<'_, 'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> R<Option<(B<'tcx>, B<'tcx>)>> {
    if let ty::Tuple(l) = t.kind() {
        if l.len() == 2 && o.cx.adt_name(l[0]) == "Bound" {
            let a = o.cx.project(v, &PE::Field(0, 0, l[0]));
            let b = o.cx.project(v, &PE::Field(0, 1, l[1]));
            return Ok(Some((bound(o, &a, l[0])?, bound(o, &b, l[1])?)));
        }
        return Ok(None);
    }
    let nm = o.cx.adt_name(t);
    let g = |o: &O<'_, 'tcx>, n: &str, p: usize| {
        let x = o.named(v, t, n, p);
        Some(o.cx.peel_val(o.st, &x))
    };
    Ok(Some(match nm.as_str() {
        "Range" => ((0, g(o, "start", 0)), (1, g(o, "end", 1))),
        "RangeFrom" => ((0, g(o, "start", 0)), (2, None)),
        "RangeFull" => ((2, None), (2, None)),
        "RangeInclusive" => ((0, g(o, "start", 0)), (0, g(o, "end", 1))),
        "RangeTo" => ((2, None), (1, g(o, "end", 0))),
        "RangeToInclusive" => ((2, None), (0, g(o, "end", 0))),
        "CRange" => {
            let (a, at) = crange_of(o, v, t, 0)?;
            let (b, bt) = crange_of(o, v, t, 1)?;
            (bound(o, &a, at)?, bound(o, &b, bt)?)
        }
        _ => return Ok(None),
    }))
}

fn range_from<'tcx>(o: &mut O<'_, 'tcx>) -> R<()> {
    let t = o.cx.peel(o.m.tys[0]);
    let v = o.argv(1);
    if t.is_integral() {
        return want_range(o, (0, Some(v.clone())), (0, Some(v)));
    }
    match std_range(o, &v, t)? {
        Some((a, b)) => want_range(o, a, b),
        None => o.undecided("range type"),
    }
}

/// `a < b` or `a <= b` between values of the element type
fn less<'tcx>(o: &mut O<'_, 'tcx>, a: &Val<'tcx>, b: &Val<'tcx>, strict: bool) -> R<bool> {
    if let (Val::Lin(x), Val::Lin(y)) = (a, b) {
        let d = y.sub(x);
        return o.is(Atom::Ge(if strict { d.addk(-1) } else { d }));
    }
    let s = o.cx.tm.app(if strict { "lt" } else { "le" }, vec![a.clone(), b.clone()], false);
    o.is(Atom::B(s))
}
fn inside<'tcx>(o: &mut O<'_, 'tcx>, a: &B<'tcx>, b: &B<'tcx>, x: &Val<'tcx>) -> R<bool> {
    if let (k, Some(v)) = a {
        if !less(o, v, x, *k == 1)? {
            return Ok(false);
        }
    }
    if let (k, Some(v)) = b {
        if !less(o, x, v, *k == 1)? {
            return Ok(false);
        }
    }
    Ok(true)
}
/// does the unit `u` accept `x`? (uninterpreted)
fn accepts<'tcx>(o: &mut O<'_, 'tcx>, u: &Val<'tcx>, x: &Val<'tcx>) -> R<bool> {
    let u = o.cx.peel_val(o.st, u);
    let s = o.cx.tm.app("is_match", vec![u, x.clone()], false);
    o.is(Atom::B(s))
}
fn equal<'tcx>(o: &mut O<'_, 'tcx>, a: &Val<'tcx>, b: &Val<'tcx>) -> R<bool> {
    let at = eq_atom(o.cx, a, b);
    o.is(at)
}
fn eq_atom<'tcx>(cx: &Cx<'tcx>, a: &Val<'tcx>, b: &Val<'tcx>) -> Atom {
    match (a, b) {
        (Val::Lin(x), Val::Lin(y)) => Atom::Eq(x.sub(y)),
        _ => Atom::B(cx.eq_app(a.clone(), b.clone())),
    }
}

fn unit_class(adt: &str) -> Option<&'static str> {
    Some(match adt {
        "Alphabetic" => "is_alphabetic",
        "Alphanumeric" => "is_alphanumeric",
        "Control" => "is_control",
        "Lowercase" => "is_lowercase",
        "Numeric" => "is_numeric",
        "Uppercase" => "is_uppercase",
        "WhiteSpace" => "is_whitespace",
        "Ascii" => "is_ascii",
        "AsciiAlphabetic" => "is_ascii_alphabetic",
        "AsciiAlphanumeric" => "is_ascii_alphanumeric",
        "AsciiControl" => "is_ascii_control",
        "AsciiDigit" => "is_ascii_digit",
        "AsciiGraphic" => "is_ascii_graphic",
        "AsciiHexDigit" => "is_ascii_hexdigit",
        "AsciiLowercase" => "is_ascii_lowercase",
        "AsciiPunctuation" => "is_ascii_punctuation",
        "AsciiUppercase" => "is_ascii_uppercase",
        "AsciiWhiteSpace" => "is_ascii_whitespace",
        _ => return None,
    })
}
const WORD: &[(i128, i128)] = &[(48, 57), (65, 90), (95, 95), (97, 122)];

fn is_match<'tcx>(cx: &Cx<'tcx>, _st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], _me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    let me_ty = f.me?;
    let t = cx.peel(me_ty);
    let adt = f.adt.clone();
    let label = format!("accepts: {t}");
    let other = |o: &O<'_, 'tcx>| o.argv(2);
    if let Some(c) = unit_class(&adt) {
        return Some(Rule::new("C18", &label, move |o| {
            let x = other(o);
            let want = match ascii_class(c) {
                Some(iv) => {
                    let x = o.cx.to_lin(&x);
                    o.cx.in_intervals(o.st, &x, iv)?
                }
                None => {
                    let s = o.cx.tm.app(&format!("core::char::methods::{c}"), vec![x], false);
                    o.is(Atom::B(s))?
                }
            };
            o.want_bool(want, "class of the item")
        }));
    }
    // sequences: some element equals the item
    let seq = matches!(t.kind(), ty::Array(..) | ty::Slice(_)) || adt == "Vec";
    if seq {
        let x = cx.peel_val(_st, &args[1]);
        let mut r = Rule::new("C18", &label, move |o| {
            let hit = |o: &O<'_, 'tcx>| -> Option<bool> { o.st.g.get("hit").map(|v| *v == Val::bool(true)) };
            let _ = hit;
            if o.st.g.contains_key("cur") || o.st.g.contains_key("end") {
                // a loop over the elements
                let end = o.st.g.contains_key("end");
                let x = other(o);
                let cur = o.st.g.get("cur").cloned().unwrap_or(Val::Undef);
                let r = o.ret.clone();
                let got = o.truth(&r)?;
                o.cx.obligation("verdict");
                if got {
                    if cur == Val::Undef {
                        o.bad("accepted without an equal element");
                    } else {
                        let at = eq_atom(o.cx, &cur, &x);
                        if !o.st.facts.entails(&o.cx.tm, &at) {
                            o.bad("accepted without an equal element");
                        }
                    }
                } else if !end {
                    o.bad("rejected before the last element");
                }
                return Ok(());
            }
            // the library's search
            let x = other(o);
            let me = o.argv(1);
            match o.app_of(&o.ret.clone()) {
                Some((h, a)) if h.ends_with("::contains") && a.len() == 2 => {
                    o.cx.obligation("verdict");
                    let neg = matches!(o.ret, Val::Bool(Cond::A(Atom::NB(_))));
                    if neg {
                        o.bad("the answer of the search is turned around");
                    }
                    if !o.cx.mentions(&a[0], &me) || !o.same(&a[1], &x) {
                        o.bad("something else is searched");
                    } else if o.cut_from(&a[0]) {
                        o.bad("only a part of the list is searched");
                    }
                    Ok(())
                }
                _ => o.undecided("search"),
            }
        });
        r.log = false;
        r.each = Some(Each::Any(Box::new(move |cx, st, e| {
            let at = eq_atom(cx, e, &x);
            if st.facts.entails(&cx.tm, &at) {
                Some(true)
            } else if st.facts.entails(&cx.tm, &at.not()) {
                Some(false)
            } else {
                None
            }
        })));
        return Some(r);
    }
    let is_range = matches!(adt.as_str(), "Range" | "RangeFrom" | "RangeFull" | "RangeInclusive" | "RangeTo" | "RangeToInclusive" | "CRange")
        || matches!(t.kind(), ty::Tuple(l) if l.len() == 2 && cx.adt_name(l[0]) == "Bound");
    if is_range {
        return Some(Rule::new("C18", &label, move |o| {
            let me = o.argv(1);
            let t = o.cx.peel(o.m.tys[0]);
            let x = other(o);
            let Some((a, b)) = std_range(o, &me, t)? else { return o.undecided("range") };
            let want = inside(o, &a, &b, &x)?;
            if o.cx.adt_name(t) == "RangeInclusive" && o.cx.field_ix(t, "exhausted").is_some() {
                // an inclusive range that was iterated to its end: not specified
                let e = o.named(&me, t, "exhausted", 2);
                if o.truth(&e)? {
                    return Ok(());
                }
            }
            o.want_bool(want, "membership in the range")
        }));
    }
    let r: Rule<'tcx> = match adt.as_str() {
        "Digit" => Rule::new("C18", &label, move |o| {
            let x = other(o);
            let me = o.argv(1);
            let r = o.fld(&me, o.me_ty(), 0);
            let s = o.cx.tm.app("core::char::methods::is_digit", vec![x, r], false);
            let want = o.is(Atom::B(s))?;
            o.want_bool(want, "digit of the radix")
        }),
        "Wild" => Rule::new("C18", &label, move |o| {
            let x = o.cx.to_lin(&other(o));
            let nl = o.is(Atom::Eq(x.addk(-10)))?;
            o.want_bool(!nl, "anything but a line feed")
        }),
        "Word" => Rule::new("C18", &label, move |o| {
            let x = o.cx.to_lin(&other(o));
            let want = o.cx.in_intervals(o.st, &x, WORD)?;
            o.want_bool(want, "word character")
        }),
        "Always" => Rule::new("C18", &label, move |o| o.want_bool(true, "anything")),
        "Never" => Rule::new("C18", &label, move |o| o.want_bool(false, "nothing")),
        "Equal" => Rule::new("C18", &label, move |o| {
            let me = o.argv(1);
            let v = o.fld(&me, o.me_ty(), 0);
            let x = other(o);
            let want = equal(o, &v, &x)?;
            o.want_bool(want, "equality")
        }),
        "And" | "Or" => {
            let and = adt == "And";
            Rule::new("C18", &label, move |o| {
                let (l, r) = (part(o, 0)?, part(o, 1)?);
                let x = other(o);
                let a = accepts(o, &l, &x)?;
                let want = if a == and { accepts(o, &r, &x)? } else { a };
                o.want_bool(want, if and { "both units accept" } else { "one of the units accepts" })
            })
        }
        "Not" => Rule::new("C18", &label, move |o| {
            let l = part(o, 0)?;
            let x = other(o);
            let a = accepts(o, &l, &x)?;
            o.want_bool(!a, "the unit does not accept")
        }),
        "Prefix" | "PrefixSync" => Rule::new("C18", &label, move |o| {
            let (u, p) = (part(o, 0)?, part(o, 1)?);
            let x = other(o);
            let t = o.me_ty();
            let fs = o.cx.variant_fields(t, 0);
            let cells: Vec<usize> = (0..fs.len()).filter(|i| o.cx.is_cell(fs[*i])).collect();
            let (mut ci, mut vi) = (None, None);
            for i in cells {
                match o.cx.cell_content(fs[i]) {
                    t if t.is_usize() => ci = Some(i),
                    t if t.is_bool() => vi = Some(i),
                    _ => {}
                }
            }
            let (Some(ci), Some(vi)) = (ci, vi) else { return o.undecided("prefix state") };
            let Val::Ref(mp) = o.arg(1) else { return o.undecided("self") };
            let at = |i: usize| mp.field(0, i as u32, fs[i]);
            let before = |o: &O<'_, 'tcx>, i: usize| o.cx.app("cellget", vec![o.fld(&o.argv(1), t, i)], o.cx.cell_content(fs[i]));
            let (c0, v0) = (before(o, ci), before(o, vi));
            let (c1, v1) = (o.cx.cell_get(o.st, &at(ci), fs[ci]), o.cx.cell_get(o.st, &at(vi), fs[vi]));
            let c0l = o.cx.to_lin(&c0);
            let (want, cw, vw);
            if !o.truth(&v0)? {
                (want, cw, vw) = (false, c0l, false);
            } else if o.is(Atom::Eq(c0l.clone()))? {
                (want, cw, vw) = (accepts(o, &u, &x)?, c0l, true);
            } else {
                want = accepts(o, &p, &x)?;
                (cw, vw) = (c0l.addk(-1), want);
            }
            o.want_bool(want, "prefix items, then unit items")?;
            o.cx.obligation("state");
            let c1l = o.cx.to_lin(&c1);
            // once failed the count does not matter any more
            if vw && !o.eq(&c1l, &cw) {
                o.bad("the number of prefix items left is not counted down by one per item");
            }
            if o.truth(&v1)? != vw {
                o.bad("a failed prefix is not remembered exactly when the prefix failed");
            }
            Ok(())
        }),
        _ => match t.kind() {
            ty::Char | ty::Uint(_) => Rule::new("C18", &label, move |o| {
                let me = o.argv(1);
                let x = other(o);
                let want = equal(o, &me, &x)?;
                o.want_bool(want, "equality")
            }),
            // closures
            ty::Param(_) => Rule::new("C18", &label, move |o| {
                let Some(r) = o.one(&[EvK::CallFn], "the predicate is called once")? else { return Ok(()) };
                let x = other(o);
                o.cx.obligation("argument");
                if !r.args.iter().any(|a| o.same(a, &x)) {
                    o.bad("the predicate is given something else than the item");
                }
                let want = o.truth(&r.res)?;
                o.want_bool(want, "answer of the predicate")
            }),
            // pointers and cells: the unit inside decides
            ty::Adt(..) => Rule::new("C18", &label, move |o| {
                let Some(r) = o.one(&[EvK::IsMatch], "the unit inside is asked once")? else { return Ok(()) };
                let x = other(o);
                let me = o.argv(1);
                o.cx.obligation("argument");
                if !o.cx.mentions(&r.subj, &me) {
                    o.bad("another unit than the one inside is asked");
                }
                if !o.same(&r.args[0], &x) {
                    o.bad("the unit inside is asked about something else");
                }
                match r.ok {
                    Some(b) => o.want_bool(b, "answer of the unit inside"),
                    None => o.undecided("answer"),
                }
            }),
            _ => return None,
        },
    };
    Some(r)
}

/// the field of `self` whose type is the `i`-th type argument
fn part<'tcx>(o: &mut O<'_, 'tcx>, i: usize) -> R<Val<'tcx>> {
    let t = o.me_ty();
    let ty::Adt(_, a) = t.kind() else { return o.undecided("self") };
    let w = a.type_at(i);
    match o.ix(t, |x| x == w) {
        Some(k) => {
            let me = o.argv(1);
            Ok(o.fld(&me, t, k))
        }
        None => o.undecided("part of self"),
    }
}

fn min_length<'tcx>(cx: &Cx<'tcx>, f: &Fun<'tcx>) -> Option<Rule<'tcx>> {
    let t = cx.peel(f.me?);
    let label = format!("shortest match: {t}");
    let adt = f.adt.clone();
    Some(Rule::new("C17", &label, move |o| {
        let of = |o: &mut O<'_, 'tcx>, v: &Val<'tcx>| {
            let v = o.cx.peel_val(o.st, v);
            Lin::s(o.cx.tm.app("min_length", vec![v], true))
        };
        let bounds: Vec<Lin> = match adt.as_str() {
            "Not" | "Prefix" | "PrefixSync" => vec![Lin::k(1)],
            "And" => {
                let (l, r) = (part(o, 0)?, part(o, 1)?);
                let (l, r) = (of(o, &l), of(o, &r));
                if o.is(Atom::Ge(l.sub(&r)))? { vec![l] } else { vec![r] }
            }
            "Or" => {
                let (l, r) = (part(o, 0)?, part(o, 1)?);
                vec![of(o, &l), of(o, &r)]
            }
            "Box" | "Arc" | "Rc" | "RefCell" | "Cell" | "Mutex" | "OnceLock" | "OnceCell" => {
                let r = o.ret_lin();
                let me = o.argv(1);
                o.cx.obligation("bound");
                // at most the answer of the unit inside
                let known = r.t.iter().any(|(s, _)| matches!(o.cx.tm.kind(*s), SymKind::App(h, a) if &*h == "min_length" && o.cx.mentions(&a[0], &me)));
                if known {
                    for (s, _) in r.t.clone() {
                        if !o.st.facts.ge(&o.cx.tm, &Lin::s(s).sub(&r)) {
                            o.bad("longer than the shortest match of the unit inside");
                        }
                    }
                    if r.t.len() != 1 || r.c != 0 || r.t[0].1 != 1 {
                        o.bad("not the shortest match of the unit inside");
                    }
                } else {
                    o.bad("not the shortest match of the unit inside");
                }
                return Ok(());
            }
            _ => match o.me_ty().kind() {
                ty::Char => {
                    let me = o.argv(1);
                    let s = Lin::s(o.cx.tm.app("len_utf8", vec![me], true));
                    o.st.facts.add(&Atom::Ge(s.addk(-1)), &o.cx.tm);
                    // what the path knows about the character
                    let c = o.cx.to_lin(&o.argv(1));
                    for (n, lo, hi) in [(1, 0, 0x7f), (2, 0x80, 0x7ff), (3, 0x800, 0xffff), (4, 0x10000, 0x10ffff)] {
                        let below = lo == 0 || o.st.facts.ge(&o.cx.tm, &c.addk(-lo));
                        let above = hi == 0x10ffff || o.st.facts.ge(&o.cx.tm, &c.neg().addk(hi));
                        if below {
                            o.st.facts.add(&Atom::Ge(s.addk(-n)), &o.cx.tm);
                        }
                        if above {
                            o.st.facts.add(&Atom::Ge(s.neg().addk(n)), &o.cx.tm);
                        }
                    }
                    let r = o.ret_lin();
                    if o.st.facts.ge(&o.cx.tm, &s.sub(&r)) && !o.eq(&r, &s) {
                        o.bad("not the encoded length of the character");
                    }
                    vec![s]
                }
                _ => vec![Lin::k(1)],
            },
        };
        let r = o.ret_lin();
        for b in bounds {
            o.cx.obligation("bound");
            if !o.st.facts.ge(&o.cx.tm, &b.sub(&r)) {
                o.bad("longer than the shortest item the unit may accept");
            }
        }
        Ok(())
    }))
}
