//! Spans, the storers that keep them and the iterators over them (C24).
use crate::interp::*;
use crate::oracle::*;
use crate::term::*;
use rustc_middle::ty::{self, Ty};

const P: &str = "C24";

fn index_only(n: &str) -> bool {
    n == "index" || n.ends_with("expect_failed") || n.ends_with("unwrap_failed")
}

pub fn rule<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], _me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    if f.in_trait {
        return None;
    }
    match (f.adt.as_str(), f.tr.as_str(), f.item.as_str()) {
        ("Span", "", "new") => Some(Rule::new(P, "span", |o| {
            let (b, l) = span(o, &o.ret.clone());
            let (x, y) = (o.cx.to_lin(&o.arg(1)), o.cx.to_lin(&o.arg(2)));
            o.cx.obligation("value");
            if !o.eq(&b, &x) || !o.eq(&l, &y) {
                o.bad("the span does not have the position and length given");
            }
            Ok(())
        })),
        ("Span", "", "beg" | "len") => {
            let beg = f.item == "beg";
            Some(Rule::new(P, "span accessor", move |o| {
                let (b, l) = span(o, &o.argv(1));
                o.want_lin(if beg { &b } else { &l }, "another component of the span");
                Ok(())
            }))
        }
        ("Span", "", "is_empty") => Some(Rule::new(P, "span is empty", |o| {
            let (_, l) = span(o, &o.argv(1));
            let e = o.is(Atom::Eq(l))?;
            o.want_bool(e, "emptiness of a span")
        })),
        ("Span", "PartialEq", "eq") => Some(Rule::new(P, "spans are equal", |o| {
            let (b, l) = span(o, &o.argv(1));
            let (c, m) = span(o, &o.argv(2));
            let e = o.is(Atom::Eq(b.sub(&c)))? && o.is(Atom::Eq(l.sub(&m)))?;
            o.want_bool(e, "equality of two spans")
        })),
        ("Span", "", "add_assign") => {
            let t = cx.peel(*cx.root_args.first()?);
            let (a, b) = (cx.peel_val(st, &args[0]), args[1].clone());
            let (ab, al) = span_of(cx, &a, t);
            let (bb, bl) = span_of(cx, &b, t);
            let mut r = Rule::new(P, "span extended", |o| {
                let t = o.me_ty();
                let (b0, _) = span_of(o.cx, &o.argv(1), t);
                let (b1, l1) = span_of(o.cx, &o.now(1), t);
                let (ob, ol) = span_of(o.cx, &o.arg(2), t);
                o.cx.obligation("value");
                if !o.eq(&b0, &b1) {
                    o.bad("the start of the extended span moves");
                }
                if !o.eq(&b1.add(&l1), &ob.add(&ol)) {
                    o.bad("the extended span does not end where the other one ends");
                }
                o.want_self("another span is returned");
                Ok(())
            });
            r.pre = vec![Atom::Ge(bb.sub(&ab)), Atom::Ge(bb.add(&bl).sub(&ab).sub(&al))];
            Some(r)
        }
        ("Span", "", "orig") => Some(Rule::new(P, "text of a span", |o| {
            let (b, l) = span(o, &o.argv(1));
            let Some(r) = o.one(&[EvK::Orig], "the text is read once")? else { return Ok(()) };
            o.cx.obligation("argument");
            let ok = match (r.args.first().and_then(|x| x.lin()), r.args.get(1).and_then(|x| x.lin())) {
                (Some(x), Some(y)) => o.eq(x, &b) && o.eq(y, &l),
                _ => false,
            };
            if !ok {
                o.bad("another part of the input is read");
            }
            o.want_outcome(&r, "the text of the span")
        })),
        (_, "IndexBySpan", "get_by_span") => Some(Rule::new(P, &format!("part of {}", f.me?), |o| {
            let (b, l) = span(o, &o.argv(2));
            let mut t = o.m.tys[0];
            let mut v = o.arg(1);
            if o.cx.adt_name(o.cx.peel(t)).ends_with("Ctx") {
                return ctx_part(o, &b, &l);
            }
            // reach the sequence itself
            while let ty::Ref(_, x, _) = t.kind() {
                if let ty::Ref(..) = x.kind() {
                    v = match &v {
                        Val::Ref(p) => o.cx.load(o.st, p),
                        _ => return o.undecided("self"),
                    };
                }
                t = *x;
            }
            let Some(p) = o.seq_ptr(&v, t) else { return o.undecided("sequence") };
            let is_str = t.is_str();
            match o.part(&p, is_str, &b, &b.add(&l))? {
                Some(v) => o.want_some(&v, "the part lies inside"),
                None => o.want_none("the part lies outside"),
            }
        })),
        ("SpanIterator" | "OptionSpanIterator" | "IteratorBySpan" | "IteratorByOptionSpan" | "BytesIndices", _, item) => iter(cx, st, f, args, item),
        ("VecStorer" | "ArrayStorer", "", item) => storer(cx, st, args, f, item),
        ("ArrayStorer", "Default", "default") => storer(cx, st, args, f, "new"),
        _ => None,
    }
}

/// a context gives the part its text has there, a wrapper what the wrapped context gives
fn ctx_part<'tcx>(o: &mut O<'_, 'tcx>, b: &Lin, l: &Lin) -> R<()> {
    let t = o.cx.peel(o.m.tys[0]);
    let indexed = |ft: Ty<'tcx>| matches!(ft.kind(), ty::Param(_)) && o.cx.implements(ft, "IndexBySpan");
    let wrapped = o.cx.variant_fields(t, 0).into_iter().filter(|ft| indexed(*ft)).count();
    for (i, ft) in o.cx.variant_fields(t, 0).into_iter().enumerate() {
        let v = o.fld(&o.argv(1), t, i);
        match ft.kind() {
            ty::Param(_) if o.cx.implements(ft, "IndexBySpan") && wrapped == 1 => {
                let s = o.arg(2);
                let s = o.cx.peel_val(o.st, &s);
                return want_part(o, &v, &s);
            }
            ty::Ref(_, x, _) if x.is_str() || matches!(x.kind(), ty::Slice(_)) => {
                let Some(p) = o.seq_ptr(&v, *x) else { return o.undecided("text") };
                return match o.part(&p, x.is_str(), b, &b.add(l))? {
                    Some(v) => o.want_some(&v, "the part lies inside"),
                    None => o.want_none("the part lies outside"),
                };
            }
            _ => {}
        }
    }
    o.undecided("text")
}

/// position and length of a span
fn span<'tcx>(o: &O<'_, 'tcx>, v: &Val<'tcx>) -> (Lin, Lin) {
    let t = match o.cx.root_args.iter().chain([&o.cx.root_ret]).map(|t| o.cx.peel(*t)).find(|t| o.cx.is_span(*t)) {
        Some(t) => t,
        None => return (Lin::default(), Lin::default()),
    };
    span_of(o.cx, v, t)
}
fn span_of<'tcx>(cx: &Cx<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> (Lin, Lin) {
    let (b, l) = cx.span_ix();
    let g = |i: usize| {
        let ft = cx.variant_fields(t, 0)[i];
        cx.to_lin(&cx.project(v, &PE::Field(0, i as u32, ft)))
    };
    (g(b), g(l))
}

/// field of the iterator: its counter (true) or the sequence it walks over
fn field<'tcx>(o: &O<'_, 'tcx>, counter: bool) -> Option<(usize, Ty<'tcx>)> {
    let t = o.me_ty();
    let t = if let ty::Adt(..) = t.kind() { t } else { return None };
    o.cx.variant_fields(t, 0)
        .into_iter()
        .enumerate()
        .find(|(_, x)| if counter { x.is_usize() } else { matches!(x.kind(), ty::Ref(_, y, _) if matches!(y.kind(), ty::Slice(_))) })
}

fn method<'tcx>(cx: &Cx<'tcx>, adt: &str, name: &str) -> Option<rustc_span::def_id::LocalDefId> {
    let tcx = cx.tcx;
    tcx.hir_crate_items(()).definitions().find(|d| {
        let d = d.to_def_id();
        tcx.def_kind(d) == rustc_hir::def::DefKind::AssocFn
            && tcx.item_name(d).as_str() == name
            && tcx.impl_of_assoc(d).is_some_and(|i| {
                let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                cx.adt_name(t) == adt
            })
    })
}

/// does the announced length only make sense while the counter is not past the end?
fn bounded<'tcx>(cx: &Cx<'tcx>, adt: &str) -> bool {
    use rustc_middle::mir;
    let Some(d) = method(cx, adt, "size_hint") else { return false };
    let (mut todo, mut seen) = (vec![d.to_def_id()], vec![]);
    while let Some(d) = todo.pop() {
        if seen.contains(&d) || !cx.tcx.is_mir_available(d) {
            continue;
        }
        seen.push(d);
        for x in cx.tcx.optimized_mir(d).basic_blocks.iter() {
            for s in &x.statements {
                if let mir::StatementKind::Assign(a) = &s.kind
                    && let mir::Rvalue::BinaryOp(mir::BinOp::Sub | mir::BinOp::SubWithOverflow | mir::BinOp::SubUnchecked, _) = &a.1
                {
                    return true;
                }
            }
            if let mir::TerminatorKind::Call { func, .. } = &x.terminator().kind
                && let Some((f, _)) = func.const_fn_def()
            {
                if matches!(cx.tcx.item_name(f).as_str(), "index" | "split_at" | "wrapping_sub") {
                    return true;
                }
                if f.is_local() {
                    todo.push(f);
                }
            }
        }
    }
    false
}

/// does `next` cut the sequence itself down, so that what is left of it is what is still to come?
fn cuts<'tcx>(cx: &Cx<'tcx>, adt: &str) -> bool {
    use rustc_middle::mir;
    let tcx = cx.tcx;
    let Some(next) = method(cx, adt, "next") else { return false };
    let b = tcx.optimized_mir(next.to_def_id());
    let slice = |p: &mir::Place<'tcx>| {
        let t = p.ty(b, tcx).ty;
        p.local.as_usize() == 1 && p.projection.len() == 2 && matches!(t.kind(), ty::Ref(_, y, _) if matches!(y.kind(), ty::Slice(_)))
    };
    b.basic_blocks.iter().any(|x| {
        x.statements.iter().any(|s| match &s.kind {
            mir::StatementKind::Assign(a) => slice(&a.0) || matches!(&a.1, mir::Rvalue::Ref(_, mir::BorrowKind::Mut { .. }, p) if slice(p)),
            _ => false,
        }) || matches!(&x.terminator().kind, mir::TerminatorKind::Call { destination, .. } if slice(destination))
    })
}

/// `next` of an iterator that cuts its sequence down: gives the first element of it and keeps the others
fn cut_next<'tcx>(o: &mut O<'_, 'tcx>, adt: &str) -> R<()> {
    let Some((si, sty)) = field(o, false) else { return o.undecided("elements") };
    let (ty::Ref(_, y, _), t, me, now) = (sty.kind(), o.me_ty(), o.argv(1), o.now(1)) else { return o.undecided("elements") };
    let ty::Slice(et) = *y.kind() else { return o.undecided("elements") };
    let s0 = o.fld(&me, t, si);
    let s1 = o.cx.project(&now, &PE::Field(0, si as u32, sty));
    let (Val::Ref(p0), Val::Ref(p1)) = (&s0, &s1) else { return o.undecided("elements") };
    let (l0, l1) = (o.cx.seq_len(o.st, p0), o.cx.seq_len(o.st, p1));
    let count = field(o, true).map(|(i, ct)| (o.cx.to_lin(&o.fld(&me, t, i)), o.cx.to_lin(&o.cx.project(&now, &PE::Field(0, i as u32, ct)))));
    o.cx.obligation("state");
    if !o.is(Atom::Ge(l0.addk(-1)))? {
        if !o.eq(&l1, &Lin::k(0)) {
            o.bad("the iterator starts over after its end");
        }
        return o.want_none("after the last element");
    }
    if !o.eq(&l1, &l0.addk(-1)) || (adt == "BytesIndices" && count.as_ref().is_some_and(|(a, b)| !o.eq(b, &a.addk(1)))) {
        o.bad("the iterator does not advance by one element");
    } else if o.is(Atom::Ge(l1.addk(-1)))? {
        let (a, b) = (o.cx.load(o.st, &p1.index(Lin::k(0), et)), o.cx.load(o.st, &p0.index(Lin::k(1), et)));
        if !o.same(&a, &b) {
            o.bad("the iterator does not keep the elements that follow");
        }
    }
    let ev = o.cx.load(o.st, &p0.index(Lin::k(0), et));
    if adt.starts_with("IteratorBy") {
        let vi = (0..o.cx.variant_fields(t, 0).len()).find(|i| !is_slots(o, t, *i) && !o.cx.variant_fields(t, 0)[*i].is_usize()).unwrap_or(0);
        let v = o.cx.peel_val(o.st, &o.fld(&me, t, vi));
        return want_part(o, &v, &ev);
    }
    let want = match count {
        Some((c, _)) if adt == "BytesIndices" => Val::agg(0, vec![Val::Lin(c), ev]),
        _ => ev,
    };
    o.want_some(&want, "the next element")
}

/// slots the iterator still has to visit: their sequence, their type and the first one's number
fn slots<'tcx>(cx: &Cx<'tcx>, st: &State<'tcx>, args: &[Val<'tcx>]) -> Option<(Ptr<'tcx>, Ty<'tcx>, Lin, Lin)> {
    let t = cx.peel(*cx.root_args.first()?);
    if !matches!(t.kind(), ty::Adt(..)) {
        return None;
    }
    let me = cx.peel_val(st, args.first()?);
    let (mut seq, mut from) = (None, None);
    for (i, ft) in cx.variant_fields(t, 0).into_iter().enumerate() {
        let v = cx.project(&me, &PE::Field(0, i as u32, ft));
        match ft.kind() {
            _ if ft.is_usize() => from = Some(cx.to_lin(&v)),
            ty::Ref(_, y, _) => {
                if let (ty::Slice(e), Val::Ref(p)) = (y.kind(), v) {
                    seq = Some((p, *e));
                }
            }
            _ => {}
        }
    }
    let (p, e) = seq?;
    let len = cx.seq_len(st, &p);
    Some((p, e, from?, len))
}
/// Goes on from where the path's loops have come to (`scan` slots seen, `filled` of them not empty)
/// to the first filled slot, or to the end when they are counted. Gives its number, if there is one,
/// and the number of filled ones.
fn walk<'tcx>(o: &mut O<'_, 'tcx>, seq: &Ptr<'tcx>, et: Ty<'tcx>, from: &Lin, len: &Lin, count: bool) -> R<(Option<Lin>, Lin)> {
    let num = |o: &O<'_, 'tcx>, k: &str| o.st.g.get(k).and_then(|v| v.lin().cloned());
    let mut scan = num(o, "scan").unwrap_or_else(|| from.clone());
    let mut n = num(o, "filled").unwrap_or_default();
    for _ in 0..4 {
        if !o.is(Atom::Ge(len.sub(&scan).addk(-1)))? {
            return Ok((None, n));
        }
        let v = o.cx.load(o.st, &seq.index(scan.clone(), et));
        let (k, _) = o.case(&v, et)?;
        if k == 1 && !count {
            return Ok((Some(scan), n));
        }
        n = n.addk(k as i128);
        scan = scan.addk(1);
    }
    o.undecided("slots")
}

/// is there a filled slot?
fn nonempty<'tcx>(o: &mut O<'_, 'tcx>, (seq, et, len): &(Ptr<'tcx>, Ty<'tcx>, Lin)) -> R<bool> {
    if let Some(n) = o.st.g.get("filled").and_then(|v| v.lin().cloned()) {
        if o.is(Atom::Ge(n.addk(-1)))? {
            return Ok(true);
        }
    }
    Ok(walk(o, seq, *et, &Lin::k(0), len, false)?.0.is_some())
}

fn iter<'tcx>(cx: &Cx<'tcx>, st: &State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], item: &str) -> Option<Rule<'tcx>> {
    let adt = f.adt.clone();
    let by = adt.starts_with("IteratorBy");
    let slot = adt.contains("Option");
    let tight = matches!(item, "next" | "size_hint") && bounded(cx, &adt);
    if f.tr == "Iterator" && matches!(item, "next" | "size_hint") && cuts(cx, &adt) {
        let (label, next) = (format!("{item} of {adt}"), item == "next");
        return Some(Rule::new(P, &label, move |o| {
            if slot {
                return o.undecided("slots of an iterator that cuts them off");
            }
            if next {
                return cut_next(o, &adt);
            }
            let (t, me) = (o.me_ty(), o.argv(1));
            let Some((si, _)) = field(o, false) else { return o.undecided("elements") };
            let Val::Ref(p) = o.fld(&me, t, si) else { return o.undecided("elements") };
            let n = o.cx.seq_len(o.st, &p);
            exactly(o, &n)
        }));
    }
    match (f.tr.as_str(), item) {
        ("", "new") => Some(Rule::new(P, &format!("new {adt}"), move |o| {
            let t = o.cx.root_ret;
            o.cx.obligation("value");
            let fs = o.cx.variant_fields(t, 0);
            for (i, ft) in fs.iter().enumerate() {
                let v = o.fld(&o.ret.clone(), t, i);
                if ft.is_usize() {
                    if o.cx.to_lin(&v) != Lin::k(0) {
                        o.bad("the iteration does not start at the first element");
                    }
                } else if ft.is_ref() {
                    // the argument of the same type
                    for (k, at) in o.m.tys.clone().iter().enumerate() {
                        if at == ft && !o.same(&v, &o.arg(k + 1)) {
                            o.bad("the iterator walks over something else");
                        }
                    }
                }
            }
            Ok(())
        })),
        ("Iterator", "next") if slot => Some({
            // skips the empty slots
            let (seq, et, from, len) = slots(cx, st, args)?;
            let (s2, f2, l2) = (seq.clone(), from.clone(), len.clone());
            let mut r = Rule::new(P, &format!("next of {adt}"), move |o| {
                let Some((ci, ct)) = field(o, true) else { return o.undecided("fields of the iterator") };
                let t = o.me_ty();
                let (at, _) = walk(o, &s2, et, &f2, &l2, false)?;
                let now = o.now(1);
                let c1 = o.cx.to_lin(&o.cx.project(&now, &PE::Field(0, ci as u32, ct)));
                o.cx.obligation("state");
                if tight && !o.st.facts.ge(&o.cx.tm, &l2.sub(&c1)) {
                    o.bad("the iterator goes past its end, where its announced length does not exist");
                }
                let Some(at) = at else {
                    // nothing filled is left from where it stood: any place from there on will do
                    if !o.st.facts.ge(&o.cx.tm, &c1.sub(&l2)) && !o.st.facts.ge(&o.cx.tm, &c1.sub(&f2)) {
                        o.bad("the iterator starts over after its end");
                    }
                    return o.want_none("after the last span");
                };
                if !o.eq(&c1, &at.addk(1)) {
                    o.bad("the iterator does not stand after the span it gave");
                }
                let v = o.cx.load(o.st, &s2.index(at, et));
                let (_, x) = o.case(&v, et)?;
                let ev = o.f0(&x);
                if by {
                    let vi = (0..o.cx.variant_fields(t, 0).len()).find(|i| *i != ci && !is_slots(o, t, *i)).unwrap_or(0);
                    let me = o.argv(1);
                    let v = o.cx.peel_val(o.st, &o.fld(&me, t, vi));
                    return want_part(o, &v, &ev);
                }
                o.want_some(&ev, "the next span")
            });
            r.each = Some(Each::Filled { seq, et, from, len });
            r.in_range = tight;
            r
        }),
        ("Iterator", "next") => Some({
            let mut r = Rule::new(P, &format!("next of {adt}"), move |o| {
            let (Some((ci, ct)), Some((si, _))) = (field(o, true), field(o, false)) else { return o.undecided("fields of the iterator") };
            let t = o.me_ty();
            let me = o.argv(1);
            let (c0, s) = (o.cx.to_lin(&o.fld(&me, t, ci)), o.fld(&me, t, si));
            let Val::Ref(sp) = &s else { return o.undecided("elements") };
            let len = o.cx.seq_len(o.st, sp);
            let now = o.now(1);
            let c1 = o.cx.to_lin(&o.cx.project(&now, &PE::Field(0, ci as u32, ct)));
            let more = o.is(Atom::Ge(len.sub(&c0).addk(-1)))?;
            o.cx.obligation("state");
            if tight && !o.st.facts.ge(&o.cx.tm, &len.sub(&c1)) {
                o.bad("the iterator goes past its end, where its announced length does not exist");
            }
            if more && !o.eq(&c1, &c0.addk(1)) {
                o.bad("the iterator does not advance by one element");
            }
            if !more && !o.st.facts.ge(&o.cx.tm, &c1.sub(&len)) {
                o.bad("the iterator starts over after its end");
            }
            if !more {
                return o.want_none("after the last element");
            }
            let ty::Ref(_, st_, _) = o.cx.variant_fields(t, 0)[si].kind() else { return o.undecided("elements") };
            let ty::Slice(et) = st_.kind() else { return o.undecided("elements") };
            let e = sp.index(c0.clone(), *et);
            let ev = o.cx.load(o.st, &e);
            if by {
                let vi = (0..o.cx.variant_fields(t, 0).len()).find(|i| *i != ci && *i != si).unwrap_or(0);
                let v = o.cx.peel_val(o.st, &o.fld(&me, t, vi));
                return want_part(o, &v, &ev);
            }
            let want = if adt == "BytesIndices" { Val::agg(0, vec![Val::Lin(c0), ev]) } else { ev };
            o.want_some(&want, "the next element")
        });
            r.in_range = tight;
            r
        }),
        ("Iterator", "size_hint") if slot => Some({
            let (seq, et, from, len) = slots(cx, st, args)?;
            let (s2, f2, l2) = (seq.clone(), from.clone(), len.clone());
            let mut r = Rule::new(P, &format!("length of {adt}"), move |o| {
                let (_, n) = walk(o, &s2, et, &f2, &l2, true)?;
                exactly(o, &n)
            });
            r.each = Some(Each::Count { seq, et, from, len });
            r.in_range = tight;
            r
        }),
        ("Iterator", "size_hint") => Some({
            let mut r = Rule::new(P, &format!("length of {adt}"), move |o| {
                let (Some((ci, _)), Some((si, _))) = (field(o, true), field(o, false)) else { return o.undecided("fields of the iterator") };
                let t = o.me_ty();
                let me = o.argv(1);
                let (c0, s) = (o.cx.to_lin(&o.fld(&me, t, ci)), o.fld(&me, t, si));
                let Val::Ref(sp) = &s else { return o.undecided("elements") };
                let len = o.cx.seq_len(o.st, sp);
                let more = o.is(Atom::Ge(len.sub(&c0)))?;
                let n = if more { len.sub(&c0) } else { Lin::k(0) };
                exactly(o, &n)
            });
            r.may_panic = |_| false;
            r.in_range = tight;
            r
        }),
        _ => None,
    }
}

fn is_slots<'tcx>(o: &O<'_, 'tcx>, t: Ty<'tcx>, i: usize) -> bool {
    matches!(o.cx.variant_fields(t, 0)[i].kind(), ty::Ref(_, y, _) if matches!(y.kind(), ty::Slice(_)))
}
/// both bounds of the length announced are `n`
fn exactly<'tcx>(o: &mut O<'_, 'tcx>, n: &Lin) -> R<()> {
    let Val::Agg(_, f) = o.ret.clone() else { return o.undecided("result") };
    o.cx.obligation("value");
    let lo = o.cx.to_lin(&f[0]);
    let ot = match o.cx.root_ret.kind() {
        ty::Tuple(l) => l[1],
        _ => return o.undecided("result"),
    };
    let (k, x) = o.case(&f[1], ot)?;
    let hi = o.cx.to_lin(&o.f0(&x));
    let (lo, hi) = (o.ssub(&lo), o.ssub(&hi));
    if !o.eq(&lo, n) || k != 1 || !o.eq(&hi, n) {
        o.bad("not the number of elements left");
    }
    Ok(())
}

/// the result is what indexing `v` by the span `s` gives
fn want_part<'tcx>(o: &mut O<'_, 'tcx>, v: &Val<'tcx>, s: &Val<'tcx>) -> R<()> {
    o.cx.obligation("value");
    match o.app_of(&o.ret.clone()) {
        Some((h, a)) if h.ends_with("::get_by_span") && a.len() == 2 => {
            if !o.same(&a[0], v) {
                o.bad("another value is indexed");
            }
            if !o.same(&a[1], s) {
                o.bad("another span is used");
            }
            Ok(())
        }
        _ => {
            // taken apart and put together again
            let l: Vec<_> = o.log().into_iter().filter(|r| r.name.ends_with("get_by_span")).collect();
            if l.len() == 1 && l[0].args.len() == 2 {
                let (a, b) = (l[0].args[0].clone(), l[0].args[1].clone());
                if !o.same(&a, v) || !o.same(&b, s) {
                    o.bad("another part is read");
                }
                let r = o.ret.clone();
                if !o.same(&r, &l[0].res) {
                    let (k, x) = o.case(&l[0].res.clone(), o.cx.root_ret)?;
                    return if k == 0 { o.want_none("no part") } else { o.want_some(&o.f0(&x), "the part") };
                }
                return Ok(());
            }
            if l.is_empty() {
                let (k, _) = o.ret_case()?;
                if k == 0 {
                    o.bad("an element is skipped");
                    return Ok(());
                }
            }
            o.undecided("part")
        }
    }
}

struct Store<'tcx> {
    /// place of the rows, if the field is not replaced
    rows: Ptr<'tcx>,
    row_ty: Ty<'tcx>,
    count: Lin,
    vec: bool,
}
fn store<'tcx>(o: &mut O<'_, 'tcx>) -> R<Store<'tcx>> {
    let t = o.me_ty();
    let Val::Ref(me) = o.arg(1) else { return o.undecided("self") };
    for (i, ft) in o.cx.variant_fields(t, 0).into_iter().enumerate() {
        let p = me.field(0, i as u32, ft);
        match ft.kind() {
            ty::Array(e, n) => return Ok(Store { rows: p, row_ty: *e, count: o.cx.const_lin(*n), vec: false }),
            ty::Adt(_, a) if o.cx.adt_name(ft) == "Vec" => {
                let v = o.fld(&o.argv(1), t, i);
                let Some(p) = o.seq_ptr(&v, ft) else { return o.undecided("rows") };
                let count = o.cx.seq_len(o.st, &p);
                return Ok(Store { rows: p, row_ty: a.type_at(0), count, vec: true });
            }
            _ => {}
        }
    }
    o.undecided("rows")
}
/// place of row `id` and of its elements, if it exists
fn row<'tcx>(o: &mut O<'_, 'tcx>, s: &Store<'tcx>, id: &Lin) -> R<Option<(Ptr<'tcx>, Ptr<'tcx>, Lin, Ty<'tcx>)>> {
    if !o.is(Atom::Ge(s.count.sub(id).addk(-1)))? {
        return Ok(None);
    }
    let p = s.rows.index(id.clone(), s.row_ty);
    match s.row_ty.kind() {
        ty::Array(e, n) => Ok(Some((p.clone(), p, o.cx.const_lin(*n), *e))),
        ty::Adt(_, a) => {
            let Some(q) = o.seq_ptr(&Val::Ref(p.clone()), s.row_ty) else { return o.undecided("row") };
            let l = o.cx.seq_len(o.st, &q);
            Ok(Some((p, q, l, a.type_at(0))))
        }
        _ => o.undecided("row"),
    }
}
/// the span kept at (id, index)
fn entry<'tcx>(o: &mut O<'_, 'tcx>, id: &Lin, ix: &Lin) -> R<Option<Val<'tcx>>> {
    let s = store(o)?;
    let Some((_, q, l, et)) = row(o, &s, id)? else { return Ok(None) };
    if !o.is(Atom::Ge(l.sub(ix).addk(-1)))? {
        return Ok(None);
    }
    let e = q.index(ix.clone(), et);
    let v = o.cx.load(o.st, &e);
    if o.cx.is_option(et).is_some() {
        let (k, x) = o.case(&v, et)?;
        return Ok(if k == 0 { None } else { Some(o.f0(&x)) });
    }
    Ok(Some(v))
}

/// place of the groups of the storer given first
fn rows_of<'tcx>(cx: &Cx<'tcx>, st: &State<'tcx>, args: &[Val<'tcx>]) -> Option<(Ptr<'tcx>, Ty<'tcx>)> {
    let Some(Val::Ref(me)) = args.first() else { return None };
    let t = cx.peel(*cx.root_args.first()?);
    cx.variant_fields(t, 0).into_iter().enumerate().find_map(|(i, ft)| {
        let p = me.field(0, i as u32, ft);
        match ft.kind() {
            ty::Array(e, _) => Some((p, *e)),
            ty::Adt(_, a) if cx.adt_name(ft) == "Vec" => {
                let v = cx.load(st, &p);
                let sl = Ty::new_slice(cx.tcx, a.type_at(0));
                match cx.app("deref", vec![v], Ty::new_imm_ref(cx.tcx, cx.tcx.lifetimes.re_erased, sl)) {
                    Val::Ref(q) => Some((q, a.type_at(0))),
                    _ => None,
                }
            }
            _ => None,
        }
    })
}

/// the slots of the group whose number is argument `i`, in an array storer
fn group<'tcx>(cx: &Cx<'tcx>, st: &State<'tcx>, args: &[Val<'tcx>], i: usize) -> Option<(Ptr<'tcx>, Ty<'tcx>, Lin)> {
    let (rows, rt) = rows_of(cx, st, args)?;
    let ty::Array(e, n) = rt.kind() else { return None };
    Some((rows.index(cx.to_lin(args.get(i)?), rt), *e, cx.const_lin(*n)))
}

fn storer<'tcx>(cx: &Cx<'tcx>, st: &State<'tcx>, args: &[Val<'tcx>], f: &Fun<'tcx>, item: &str) -> Option<Rule<'tcx>> {
    let vec = f.adt == "VecStorer";
    let label = format!("{} {}", f.adt, item);
    let id = |o: &O<'_, 'tcx>, i: usize| o.cx.to_lin(&o.arg(i));
    let n1 = |o: &O<'_, 'tcx>, v: &Val<'tcx>, t: Ty<'tcx>| {
        // the value of the only field that is a sequence
        let i = o.ix(t, |x| x.is_array() || o.cx.adt_name(x) == "Vec").unwrap_or(0);
        o.fld(v, t, i)
    };
    let mut r = match item {
        "new" | "with_capacity" if vec => {
            let k = if item == "new" { 1 } else { 2 };
            Rule::new(P, &label, move |o| {
                let v = n1(o, &o.ret.clone(), o.cx.root_ret);
                let n = id(o, k);
                o.cx.obligation("value");
                match o.app_of(&v) {
                    Some((h, a)) if h.ends_with("from_elem") => {
                        let empty = matches!(a.first(), Some(Val::Coll(_, l)) if l.is_zero());
                        if !empty || !a.get(1).and_then(|x| x.lin()).is_some_and(|x| o.eq(x, &n)) {
                            o.bad("not the requested number of empty groups");
                        }
                        Ok(())
                    }
                    // still what it was before
                    _ if k == 2 && o.same(&v, &n1(o, &o.me(), o.cx.root_ret)) => {
                        o.bad("the groups are left as they were");
                        Ok(())
                    }
                    _ => o.undecided("groups"),
                }
            })
        }
        "new" => Rule::new(P, &label, move |o| {
            let v = n1(o, &o.ret.clone(), o.cx.root_ret);
            o.cx.obligation("value");
            if o.cx.all_none(&v) != Some(true) {
                if o.cx.all_none(&v) == Some(false) {
                    o.bad("a slot is not empty");
                    return Ok(());
                }
                return o.undecided("slots");
            }
            Ok(())
        }),
        "new_with" => Rule::new(P, &label, move |o| {
            let v = n1(o, &o.ret.clone(), o.cx.root_ret);
            o.want_same(&v, &o.arg(1), "other spans than the given ones are kept");
            Ok(())
        }),
        "len" => Rule::new(P, &label, move |o| {
            let s = store(o)?;
            o.want_lin(&s.count, "not the number of groups");
            Ok(())
        }),
        "is_empty" => Rule::new(P, &label, move |o| {
            let s = store(o)?;
            let e = o.is(Atom::Eq(s.count))?;
            o.want_bool(e, "no group")
        }),
        "contain" if vec => Rule::new(P, &label, move |o| {
            let s = store(o)?;
            let want = match row(o, &s, &id(o, 2))? {
                Some((_, _, l, _)) => !o.is(Atom::Eq(l))?,
                None => false,
            };
            o.want_bool(want, "some span in the group")
        }),
        "contain" => {
            let g = group(cx, st, args, 1)?;
            let h = g.clone();
            let mut r = Rule::new(P, &label, move |o| {
                let s = store(o)?;
                if row(o, &s, &id(o, 2))?.is_none() {
                    return o.want_bool(false, "no such group");
                }
                let want = nonempty(o, &h)?;
                o.want_bool(want, "some span in the group")
            });
            r.each = Some(Each::Count { seq: g.0, et: g.1, from: Lin::k(0), len: g.2 });
            r
        }
        "reset" => {
            let mut r = Rule::new(P, &label, move |o| {
                o.want_self("another storer is returned");
                let t = o.me_ty();
                let v = n1(o, &o.now(1), t);
                if o.cx.all_none(&v) == Some(true) {
                    o.cx.obligation("cleared");
                    return Ok(());
                }
                let s = store(o)?;
                if let Some((h, a)) = o.app_of(&v) {
                    if h.ends_with("from_elem") {
                        o.cx.obligation("cleared");
                        let empty = matches!(a.first(), Some(Val::Coll(_, l)) if l.is_zero());
                        if !empty || !a.get(1).and_then(|x| x.lin()).is_some_and(|x| o.eq(x, &s.count)) {
                            o.bad("not the same number of empty groups");
                        }
                        return Ok(());
                    }
                }
                o.cleared(&s.count, None)
            });
            r.log = false;
            r.each = Some(Each::Clear(rows_of(cx, st, args)));
            r
        }
        "clr_span" => {
            let mut r = Rule::new(P, &label, move |o| {
                o.want_self("another storer is returned");
                let s = store(o)?;
                let id = id(o, 2);
                match row(o, &s, &id)? {
                    None => {
                        o.cx.obligation("untouched");
                        if o.st.g.contains_key("row") || o.st.g.contains_key("rows") {
                            o.bad("something is emptied although the group does not exist");
                        }
                        Ok(())
                    }
                    Some((_, _, l, _)) => o.cleared(&l, Some((&id, s.vec))),
                }
            });
            r.log = false;
            r.each = Some(Each::Clear(None));
            r
        }
        "add_span" => Rule::new(P, &label, move |o| {
            let s = store(o)?;
            let l = o.only(&[EvK::Push, EvK::ArrSet]);
            let sp = o.arg(3);
            added(o, &s, &l, &id(o, 2), None, &sp)?;
            o.want_self("another storer is returned");
            Ok(())
        }),
        "set_span" => Rule::new(P, &label, move |o| {
            let s = store(o)?;
            let l = o.only(&[EvK::Push, EvK::ArrSet]);
            let sp = o.arg(4);
            added(o, &s, &l, &id(o, 2), Some(&id(o, 3)), &sp)?;
            o.want_self("another storer is returned");
            Ok(())
        }),
        "span" => Rule::new(P, &label, move |o| match entry(o, &id(o, 2), &id(o, 3))? {
            Some(v) => o.want_some(&v, "a kept span"),
            None => o.want_none("no such span"),
        }),
        "spans" | "spans_iter" | "slice_iter" => {
            let it = item.to_string();
            let g = if vec { None } else { Some(group(cx, st, args, if it == "slice_iter" { 2 } else { 1 })?) };
            let each = g.clone().map(|(seq, et, len)| Each::Count { seq, et, from: Lin::k(0), len });
            let mut r = Rule::new(P, &label, move |o| {
                let s = store(o)?;
                let id = id(o, if it == "slice_iter" { 3 } else { 2 });
                let Some((p, q, l, _)) = row(o, &s, &id)? else { return o.want_none("no such group") };
                let empty = match &g {
                    None => o.is(Atom::Eq(l))?,
                    Some(g) => !nonempty(o, g)?,
                };
                if empty {
                    return o.want_none("an empty group");
                }
                o.cx.obligation("value");
                let (k, x) = o.ret_case()?;
                if k == 0 {
                    o.bad("a group with spans: None");
                    return Ok(());
                }
                let mut got = o.f0(&x);
                if it != "spans" {
                    let Some(t) = o.cx.is_option(o.cx.root_ret) else { return o.undecided("result") };
                    let fs = o.cx.variant_fields(t, 0);
                    let mut sl = None;
                    for (i, ft) in fs.iter().enumerate() {
                        let v = o.fld(&got, t, i);
                        if ft.is_usize() && !o.cx.to_lin(&v).is_zero() {
                            o.bad("the iteration does not start at the first span");
                        } else if matches!(ft.kind(), ty::Ref(_, y, _) if matches!(y.kind(), ty::Slice(_))) && sl.is_none() && i != value_field(o, t) {
                            sl = Some(v);
                        } else if i == value_field(o, t) && !o.same(&v, &o.arg(2)) {
                            o.bad("another value is indexed");
                        }
                    }
                    match sl {
                        Some(v) => got = v,
                        None => return o.undecided("spans of the iterator"),
                    }
                }
                let Val::Ref(g) = &got else { return o.undecided("group") };
                let ok = [&p, &q].iter().any(|w| o.same(&got, &Val::Ref((*w).clone()))) || {
                    let (a, b) = (o.cx.load(o.st, g), o.cx.load(o.st, &p));
                    o.cx.same(o.st, &a, &b)
                };
                if !ok {
                    o.bad("another group is returned");
                }
                Ok(())
            });
            r.each = each;
            r
        }
        "slice" => Rule::new(P, &label, move |o| match entry(o, &id(o, 3), &id(o, 4))? {
            None => o.want_none("no such span"),
            Some(e) => {
                let v = o.cx.peel_val(o.st, &o.arg(2));
                want_part(o, &v, &e)
            }
        }),
        "try_cap" => {
            let k = if vec { 3 } else { 4 };
            let (ctx, ct) = (args.get(k - 1)?.clone(), *cx.root_args.get(k - 1)?);
            let off = cx.ctx_off(&mut st.clone(), &ctx, ct).ok()?;
            let mut r = Rule::new(P, &label, move |o| {
            let Some(m) = o.one(&[EvK::Mat, EvK::Parse], "the pattern is matched once")? else { return Ok(()) };
            o.cx.obligation("argument");
            if m.k == EvK::Parse as u32 {
                o.cx.report(o.st, "C14", "the pattern is matched without the skip policy".into());
            }
            if !m.at.as_ref().is_some_and(|x| o.eq(x, &off)) {
                o.bad("the pattern is matched at another position");
            }
            o.cx.obligation("position");
            let now = o.cx.ctx_off(o.st, &ctx, ct)?;
            let (want, p) = match m.ok {
                Some(true) => (m.post.clone(), "C03"),
                _ => (Some(off.clone()), "C01"),
            };
            if want.is_some_and(|w| !o.eq(&now, &w)) {
                o.cx.report(o.st, p, "the position is not the one the match left".into());
            }
            let pat = o.cx.peel_val(o.st, &o.arg(k + 1));
            if !o.same(&m.subj, &pat) {
                o.bad("another pattern is matched");
            }
            let s = store(o)?;
            let l = o.only(&[EvK::Push, EvK::ArrSet]);
            if m.ok == Some(true) {
                let ix = (!vec).then(|| id(o, 3));
                added(o, &s, &l, &id(o, 2), ix.as_ref(), &m.res)?;
            } else if !l.is_empty() {
                o.bad("a span is kept although nothing matched");
            }
            o.want_outcome(&m, "the match")
            });
            r.also = vec!["C01", "C03", "C14"];
            r
        }
        _ => return None,
    };
    if matches!(item, "add_span" | "set_span" | "try_cap") {
        r.may_panic = index_only;
    }
    Some(r)
}

/// the field holding the value that is indexed
fn value_field<'tcx>(o: &O<'_, 'tcx>, t: Ty<'tcx>) -> usize {
    let n = o.cx.variant_fields(t, 0).len();
    if n < 3 {
        return usize::MAX;
    }
    let at = o.cx.peel(o.m.tys[1]);
    o.ix(t, |x| x.is_ref() && o.cx.peel(x) == at).unwrap_or(usize::MAX)
}

/// exactly one span was added, to the right group (and slot)
fn added<'tcx>(o: &mut O<'_, 'tcx>, s: &Store<'tcx>, l: &[Rec<'tcx>], id: &Lin, ix: Option<&Lin>, sp: &Val<'tcx>) -> R<()> {
    o.cx.obligation("kept");
    if l.len() != 1 {
        if l.is_empty() && o.log().iter().any(|r| r.k == EvK::Opaque as u32 && !r.name.contains("deref")) {
            return o.undecided("how the span is kept");
        }
        o.bad(format!("{} spans are kept instead of one", l.len()));
        return Ok(());
    }
    let e = &l[0];
    let want = o.cx.load(o.st, &s.rows.index(id.clone(), s.row_ty));
    if !o.cx.same(o.st, &e.subj, &want) {
        let i = o.cx.elem_index(&e.subj, false);
        if i.is_none() {
            return o.undecided("which group");
        }
        o.bad("the span is kept in another group");
    }
    let got = match ix {
        Some(ix) => {
            if !e.args[0].lin().is_some_and(|x| o.eq(x, ix)) {
                o.bad("the span is kept in another slot");
            }
            match &e.args[1] {
                Val::Agg(1, f) => f[0].clone(),
                Val::Agg(0, _) => Val::Undef,
                v => v.clone(),
            }
        }
        None => e.args[0].clone(),
    };
    if !o.same(&got, sp) {
        o.bad("another span is kept");
    }
    Ok(())
}
